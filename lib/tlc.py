"""Runs TLC on a module of ../spec."""
import json, os, re, shutil, subprocess, tempfile
from build import VERIF, die

SPEC = os.path.join(VERIF, 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class Result:
    def __init__(self):
        self.violated = None   # name of the violated invariant / property, or 'deadlock'
        self.state = {}        # last state printed: variable -> text
        self.generated = self.distinct = 0
        self.printed = []
        self.coverage = {}
        self.out = ''


def cfg_text(init=None, next=None, spec=None, invariants=(), properties=(), constants=None, constraint=None,
             view=None, deadlock=False, post=None, symmetry=None):
    L = []
    if spec:
        L.append('SPECIFICATION ' + spec)
    else:
        L += ['INIT ' + (init or 'Init'), 'NEXT ' + (next or 'Next')]
    for i in invariants:
        L.append('INVARIANT ' + i)
    for p in properties:
        L.append('PROPERTY ' + p)
    for k, v in (constants or {}).items():
        L.append('CONSTANT %s = %s' % (k, v) if not str(v).startswith('<-') else 'CONSTANT %s %s' % (k, v))
    if constraint:
        L.append('CONSTRAINT ' + constraint)
    if view:
        L.append('VIEW ' + view)
    if post:
        L.append('POSTCONDITION ' + post)
    if symmetry:
        L.append('SYMMETRY ' + symmetry)
    L.append('CHECK_DEADLOCK ' + ('TRUE' if deadlock else 'FALSE'))
    return '\n'.join(L) + '\n'


def run(module, cfg, env=None, workers=None, args=(), timeout=800, heap='6g', jvm=(), accept_timeout=False):
    r = Result()
    d = tempfile.mkdtemp(prefix='tlc.')
    try:
        cf = os.path.join(d, 'm.cfg')
        with open(cf, 'w') as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC'] + list(jvm) + [
            '-Djava.io.tmpdir=' + d, '-cp', CP, 'tlc2.TLC', '-workers', str(workers or os.cpu_count()), '-config', cf,
            '-metadir', os.path.join(d, 'md'), '-noGenerateSpecTE', '-coverage', '0'] + list(args) + [module + '.tla']
        cmd = [c for i, c in enumerate(cmd)]
        i = cmd.index('-coverage')
        del cmd[i:i + 2]
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
            out, rc = p.stdout, p.returncode
        except subprocess.TimeoutExpired as t:
            if not accept_timeout:
                die('TLC did not finish %s in %d s' % (module, timeout))
            out, rc = (t.stdout or b'').decode(errors='replace'), 0
        r.out = out
        m = re.findall(r'([\d,]+) states generated.*?([\d,]+) distinct', out)
        if m:
            r.generated, r.distinct = (int(x.replace(',', '')) for x in m[-1])
        m = re.search(r'Error: Invariant (\S+) is violated', out) or \
            re.search(r'Error: Action property (\S+) is violated', out) or \
            re.search(r'Error: Action property (line \d+)', out) or \
            re.search(r'Error: Temporal properties were violated', out) or \
            re.search(r'Error: (Deadlock) reached', out) or \
            re.search(r'(?:POSTCONDITION|Postcondition|post condition) (\S+).*violated', out)
        if m:
            r.violated = m.group(1) if m.groups() else 'temporal property'
            blocks = re.split(r'\nState \d+: ', out)
            if len(blocks) > 1:
                last = blocks[-1].split('\n\n')[0]
                for v in re.split(r'(?:^|\n)/\\ ', last)[1:]:
                    k, _, val = v.partition(' = ')
                    r.state[k.strip()] = val.strip()
                if not r.state:
                    mm = re.search(r'^(\w+) = (.*)', last.split('\n', 1)[-1], re.S)
                    if mm:
                        r.state[mm.group(1)] = mm.group(2)
            m0 = re.search(r'is violated by the initial state:\n((?:.|\n)*?)\n\n', out)
            if m0:
                for v in re.split(r'(?:^|\n)/\\ ', m0.group(1))[1:]:
                    k, _, val = v.partition(' = ')
                    r.state[k.strip()] = val.strip()
        elif rc != 0 or ('Error:' in out):
            die('TLC failed on %s (exit %s)\n%s' % (module, rc, out[-6000:]))
        r.printed = re.findall(r'^"?(@.*?)"?$', out, re.M)
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def validate(module, traces, invariants=('Sound', 'Accepted'), constants=None, timeout=800, workers=None):
    """Checks recorded traces against the trace specification; returns (Result, index of a rejected trace or None)."""
    fd, path = tempfile.mkstemp(prefix='trace.', suffix='.json')
    try:
        with os.fdopen(fd, 'w') as f:
            json.dump(traces, f)
        r = run(module, cfg_text(invariants=invariants, constants=constants, deadlock=True), env={'TRACE': path},
                timeout=timeout, workers=workers)
        bad = None
        if r.violated:
            t = r.state.get('tid')
            if t is None:
                die('cannot read the rejected trace from TLC\n' + r.out[-4000:])
            bad = int(t) - 1
        return r, bad
    finally:
        os.unlink(path)
