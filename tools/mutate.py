"""mutate.py [NAME...]  -- tries the small changes of mutants.py in copies of /repo and tells which checks notice.
Works on copies in /tmp (mv: this folder, mr0..: the repository), so it can run next to other work."""
import concurrent.futures as cf, os, queue, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutants
CODE = 'capi/src/implementation/visibility_graphs/code/'
SLOTS = int(os.environ.get('SLOTS', '3'))


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def prepare():
    sh('mkdir -p /tmp/mv && rsync -a --delete --exclude .git --exclude out --exclude evidence --exclude .build /verif/ /tmp/mv/ '
       '|| (rm -rf /tmp/mv/lib /tmp/mv/spec /tmp/mv/harness && cp -a /verif/lib /verif/spec /verif/harness /verif/check.py '
       '/verif/known_findings.txt /verif/properties.jsonl /tmp/mv/)')
    for s in range(SLOTS):
        sh('rm -rf /tmp/mr%d && mkdir /tmp/mr%d && cp -a /repo/capi /tmp/mr%d/' % (s, s, s))


slots = queue.Queue()


def attempt(m):
    name, props, edits = m[:3]
    s = slots.get()
    top = '/tmp/mr%d/' % s
    undo = []
    res = []
    try:
        for f, old, new in edits:
            p = top + (CODE + f if f.endswith(('.cpp', '.hpp')) and not f.startswith('capi/') else f)
            t = open(p).read()
            if old not in t:
                return name + ': does not apply to ' + f
            undo.append((p, t))
            open(p, 'w').write(t.replace(old, new))
        for prop in props.split():
            r = sh('python3 check.py ' + prop, cwd='/tmp/mv', env=dict(os.environ, CAPI_REPO=top.rstrip('/')))
            out = [l for l in r.stdout.strip().split('\n') if not l.startswith('KNOWN')]
            res.append('%s %s (%s)' % (prop, {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'rc %d' % r.returncode), out[0][:160] if out else ''))
    finally:
        for p, t in reversed(undo):
            open(p, 'w').write(t)
        slots.put(s)
    return name + ': ' + '; '.join(res)


def main():
    prepare()
    for s in range(SLOTS):
        slots.put(s)
    todo = [m for m in mutants.M if not sys.argv[1:] or any(m[0].startswith(a) for a in sys.argv[1:])]
    with cf.ThreadPoolExecutor(SLOTS) as ex:
        for r in ex.map(attempt, todo):
            print(r, flush=True)


if __name__ == '__main__':
    main()
