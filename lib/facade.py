"""The Python interface of CAPI: a scratch copy of the package with a module built from the current tree, shapefiles,
and the events of FacadeTrace and ReaderTrace."""
import json, os, shutil, struct, subprocess, tempfile
import build
from drv import Drv

PYPY = '/opt/capi/pypy/bin/python'


def package():
    """A scratch copy of the Python part of /repo/capi"""
    d = tempfile.mkdtemp(prefix='capipy.')
    src = os.path.join(build.REPO, 'capi')
    for top, ds, fs in os.walk(src):
        rel = os.path.relpath(top, build.REPO)
        if rel.split(os.sep)[:2] in (['capi', 'test'], ['capi', 'cpp_libs']):
            ds[:] = []
            continue
        for f in fs:
            if f.endswith('.py'):
                os.makedirs(os.path.join(d, rel), exist_ok=True)
                shutil.copy(os.path.join(top, f), os.path.join(d, rel, f))
    return d


class PyDrv(Drv):
    def __init__(self, pkg, so, limit=120, env=None):
        import time
        e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONNOUSERSITE='1', **dict({'OMP_NUM_THREADS': '4'}, **(env or {})))
        self.limit, self.log, self.buf = limit, [], b''
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([PYPY, os.path.join(build.VERIF, 'harness', 'pydriver.py'), pkg, so],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=e)

    def call(self, op, **q):
        q['op'] = op
        self.send(json.dumps(q))
        return self.answer()


# -- shapefiles -----------------------------------------------------------
NULL, POINT, POLYLINE, POLYGON, MULTIPOINT = 0, 1, 3, 5, 8
POLYGONZ, POLYGONM = 15, 25


def record(kind, parts):
    pts = [p for part in parts for p in part]
    if kind == NULL:
        return struct.pack('<i', 0)
    if kind == POINT:
        return struct.pack('<idd', 1, *(pts or [(0.0, 0.0)])[0])
    box = (min([p[0] for p in pts] or [0.0]), min([p[1] for p in pts] or [0.0]),
           max([p[0] for p in pts] or [0.0]), max([p[1] for p in pts] or [0.0]))
    b = struct.pack('<i4d', kind, *box)
    if kind == MULTIPOINT:
        b += struct.pack('<i', len(pts))
    else:
        b += struct.pack('<ii', len(parts), len(pts))
        i = 0
        for part in parts:
            b += struct.pack('<i', i)
            i += len(part)
    for p in pts:
        b += struct.pack('<dd', *p)
    if kind == POLYGONZ:
        b += struct.pack('<dd', 0, 0) + struct.pack('<%dd' % len(pts), *[0.0] * len(pts))
    if kind in (POLYGONZ, POLYGONM):
        b += struct.pack('<dd', 0, 0) + struct.pack('<%dd' % len(pts), *[0.0] * len(pts))
    return b


def write_shp(path, records, kind=POLYGON, dbf=True):
    """records: [(kind, parts)], parts: [[(lon, lat)]] as they are to stand in the file"""
    body, index = b'', b''
    for i, (k, parts) in enumerate(records):
        r = record(k, parts)
        index += struct.pack('>ii', 50 + len(body) // 2, len(r) // 2)
        body += struct.pack('>ii', i + 1, len(r) // 2) + r
    pts = [p for _, parts in records for part in parts for p in part] or [(0.0, 0.0)]

    def head(n):
        return struct.pack('>7i', 9994, 0, 0, 0, 0, 0, (100 + n) // 2) + struct.pack(
            '<ii8d', 1000, kind, min(p[0] for p in pts), min(p[1] for p in pts), max(p[0] for p in pts),
            max(p[1] for p in pts), 0, 0, 0, 0)
    with open(path + '.shp', 'wb') as f:
        f.write(head(len(body)) + body)
    with open(path + '.shx', 'wb') as f:
        f.write(head(len(index)) + index)
    if dbf:
        with open(path + '.dbf', 'wb') as f:
            f.write(struct.pack('<4BIHH20x', 3, 121, 7, 26, len(records), 65, 11) +
                    struct.pack('<11sc4xBB14x', b'ID', b'N', 10, 0) + b'\r' +
                    b''.join(b' %10d' % i for i in range(len(records))) + b'\x1a')


def deg(k):
    """A number of degrees that stands for k microdegrees however it is converted"""
    return (k + (.3 if k >= 0 else -.3)) * 1e-6


def udeg(x):
    """Degrees handed back, in microdegrees; None if they are not a whole number of them"""
    k = round(x * 1e6)
    return k if abs(x * 1e6 - k) < 1e-3 else None


# -- scenarios ------------------------------------------------------------
class Both:
    """The C++ driver and the Python one side by side"""

    def __init__(self, cpp, py):
        self.cpp, self.py = cpp, py
        self.logs = []

    @property
    def log(self):
        return self.cpp.log + self.py.log

    @property
    def failed(self):
        return self.cpp.failed or self.py.failed

    def close(self):
        self.cpp.close()
        self.py.close()


def noise(r, at):
    """A record that is not a polygon worth reading"""
    k = r.randrange(6)
    p = [(at[0] + .001 * i, at[1] + .002 * i * i) for i in range(6)]
    if k == 0:
        return (NULL, [])
    if k == 1:
        return (POINT, [p[:1]])
    if k == 2:
        return (POLYLINE, [p[:4]])
    if k == 3:
        return (POLYGON, [[p[0], p[1], p[0]]])  # two corners
    if k == 4:
        return (POLYGONZ, [p[:3] + p[:1]])
    return (POLYGONM, [p[:3] + p[:1]])
