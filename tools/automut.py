"""automut.py FROM TO [FILE-SUBSTRING]  -- systematic small changes (operators, constants, statements) of the sources, tried
like those of mutants.py: the checks that concern a file in turn until one notices. Seeded order, so FROM..TO is a sample."""
import concurrent.futures as cf, os, random, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.argv, ARGS = sys.argv[:1] + ['no such mutant'], sys.argv[1:]
import mutate
IMPL = 'capi/src/implementation/'
CHECKS = {
    'types/polygon': 'C13 C01 C16 C22', 'types/polyline': 'C13 C01 C19 C03', 'types/line_segment': 'C23 C02 C19 C15 C21',
    'types/visible_vertex': 'C19 C01 C03', 'types/coordinate': 'C23 C20 C13 C14 C10 C16 C19 C04 C15', 'coordinate_periodicity': 'C14 C02 C04 C19',
    'visgraph/visgraph_generator': 'C09 C08 C02', 'visgraph/vistree_generator': 'C19 C02 C01 C14 C03', 'datastructures/spatial': 'C21 C15 C03 C05 C04',
    'datastructures/graph/': 'C10 C12 C16 C08 C07', 'datastructures/modified_graph': 'C11 C05 C04', 'datastructures/open_edges': 'C19 C01 C02',
    'geom/angle': 'C20 C19', 'serialization': 'C07 C24', 'shortest_path': 'C04 C05 C15 C06 C03 C14 C17', 'bindings.cpp': 'C18 C22',
    'graph_generator.py': 'C18', 'shapefile_reader': 'C22', 'datastructures/polygon.py': 'C18 C22', 'graph_file_paths': 'C18', 'path_interpolator': 'C18',
    'graph_merger': 'C18', 'dtos': 'C18', 'constants': 'C14 C15 C04'}
SWAPS = [(r'<=', '<'), (r'>=', '>'), (r' < ', ' <= '), (r' > ', ' >= '), (r' < ', ' > '), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'),
         (r' \+ 1\b', ''), (r' - 1\b', ''), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
         (r'(?<=[( ])!(?=[a-z_])', ''), (r'endpoint_1', 'endpoint_2'), (r'endpoint_2', 'endpoint_1'), (r'\bmin\b', 'max'), (r'\bmax\b', 'min'),
         (r'\b0\b', '1'), (r'\b1\b', '2'), (r'\b2\b', '3'), (r'longitude', 'latitude'), (r'latitude', 'longitude'), (r'\bcontinue;', 'break;'),
         (r'\bbreak;', 'continue;'), (r'COUNTER_CLOCKWISE', 'CLOCKWISE'), (r'\ba\b', 'b'), (r'\bb\b', 'a'), (r'\bnot ', ''), (r' and ', ' or '),
         (r'source', 'dest'), (r'\.front\(', '.back('), (r'\.back\(', '.front('), (r'\+=', '-='), (r'is None', 'is not None'), (r'int64_t|long\b', 'int32_t'),
         (r'std::lock_guard[^;]*;', ';'), (r'std::round\(', '('), (r'std::abs\(', '(')]


def mutants():
    out = []
    for top, _, files in os.walk('/repo/' + IMPL):
        for f in sorted(files):
            p = os.path.join(top, f)
            rel = os.path.relpath(p, '/repo')
            if not f.endswith(('.cpp', '.hpp', '.py')) or '/test/' in rel or f == 'example.cpp':
                continue
            props = next((v for k, v in CHECKS.items() if k in rel), None)
            if not props:
                continue
            text = open(p).read()
            lines = text.split('\n')
            for n, line in enumerate(lines):
                code = line.split('//')[0]
                if not code.strip() or code.strip().startswith(('#', 'import', 'from', 'namespace', 'using', 'throw', '"', 'class', '*')):
                    continue
                if 'indicators' in code or 'option::' in code or 'bar' in code or 'inline' in code:
                    continue
                for pat, rep in SWAPS:
                    for m in re.finditer(pat, code):
                        out.append((rel, n, line[:m.start()] + rep + line[m.end():], props))
                if code.rstrip().endswith(';') and re.match(r'\s+[a-z_:.>-]+(\[[^]]*\])?(\(| [-+]?= )', code) and 'return' not in code and 'const' not in code:
                    out.append((rel, n, '', props))
    random.Random(7).shuffle(out)
    return out


def attempt(job):
    k, (rel, n, new, props) = job
    s = mutate.slots.get()
    p = '/tmp/mr%d/%s' % (s, rel)
    t = open(p).read()
    res = []
    try:
        lines = t.split('\n')
        old, lines[n] = lines[n], new
        open(p, 'w').write('\n'.join(lines))
        for prop in props.split():
            r = subprocess.run('timeout 600 python3 check.py ' + prop, shell=True, capture_output=True, text=True, cwd='/tmp/mv',
                               env=dict(os.environ, CAPI_REPO='/tmp/mr%d' % s))
            if r.returncode == 1:
                res.append('%s caught' % prop)
                break
            if r.returncode != 0:
                bad = 'does not build' if 'error:' in r.stdout + r.stderr else (r.stdout + r.stderr)[-300:]
                res.append('%s rc %d %s' % (prop, r.returncode, bad))
                break
            res.append('%s missed' % prop)
    finally:
        open(p, 'w').write(t)
        mutate.slots.put(s)
    word = 'CAUGHT' if res[-1].endswith('caught') else 'SURVIVED' if res[-1].endswith('missed') else 'ODD'
    return '%s #%d %s:%d  %s  ->  %s   [%s]' % (word, k, rel[len(IMPL):], n + 1, old.strip(), new.strip(), '; '.join(res))


def main():
    ms = [m for m in mutants() if len(ARGS) < 3 or ARGS[2] in m[0]]
    a, b = int(ARGS[0]), int(ARGS[1])
    print(len(ms), 'in all', flush=True)
    mutate.prepare()
    for s in range(mutate.SLOTS):
        mutate.slots.put(s)
    with cf.ThreadPoolExecutor(mutate.SLOTS) as ex:
        for r in ex.map(attempt, list(enumerate(ms))[a:b]):
            print(r, flush=True)


if __name__ == '__main__':
    main()
