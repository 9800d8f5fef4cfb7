"""Talks to the conformance driver (../harness/driver.cpp)."""
import json, os, select, subprocess, tempfile, time


class DriverDied(Exception):
    hung = False


class Drv:
    """One driver process. A call that does not answer within the limit, or a driver that dies,
    raises DriverDied with the commands so far: CAPI hung or crashed."""

    def __init__(self, exe, env=None, limit=120):
        e = dict(os.environ)
        e.setdefault('OMP_NUM_THREADS', '4')
        if env:
            e.update(env)
        self.limit = limit
        self.log = []
        self.failed = None  # the last error that a call reported
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen(exe if isinstance(exe, list) else [exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=e)
        self.buf = b''

    def __call__(self, *a):
        self.send(' '.join(map(str, a)))
        return self.answer()

    def many(self, lines):
        """Sends several commands, then reads their answers."""
        r = []
        for i in range(0, len(lines), 50):
            part = lines[i:i + 50]
            self.send('\n'.join(part))
            r += [self.answer() for _ in part]
        return r

    def send(self, line):
        self.log += line.split('\n')
        try:
            self.p.stdin.write(line.encode() + b'\n')
            self.p.stdin.flush()
        except BrokenPipeError:
            self.dead('broken pipe')

    def answer(self):
        t = time.time() + self.limit
        while b'\n' not in self.buf:
            left = t - time.time()
            if left <= 0:
                self.dead('no answer in %d s' % self.limit)
            r, _, _ = select.select([self.p.stdout], [], [], left)
            if r:
                d = os.read(self.p.stdout.fileno(), 1 << 20)
                if not d:
                    self.dead('terminated')
                self.buf += d
        l, self.buf = self.buf.split(b'\n', 1)
        a = json.loads(l)
        if isinstance(a, dict) and a.get('thrown'):
            self.failed = a['thrown']
        return a

    def dead(self, why):
        try:
            self.p.kill()
        except OSError:
            pass
        rc = self.p.wait()
        err = b''
        try:
            n = self.err.seek(0, os.SEEK_END)
            self.err.seek(max(0, n - 500))
            err = self.err.read()
        except Exception:
            pass
        if rc == 3:
            from build import die
            die('driver: ' + err.decode(errors='replace'))
        e = DriverDied('%s (exit status %s) in: %s\n%s' % (why, rc, self.log[-1][:300], err.decode(errors='replace')))
        e.hung = why.startswith('no answer')
        raise e

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(20)
        except Exception:
            self.p.kill()
