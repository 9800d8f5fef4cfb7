"""Scenarios: random worlds in a frame, the driver calls that set them up and the events they yield."""
from frame import Frame, LOCAL, WIDE, PERIOD
import geo


def local_frame(rng):
    k = rng.random()
    ox = 0 if k < .15 else rng.randint(-178000000, 178000000)
    oy = 0 if k < .15 else rng.randint(-60000000, 60000000)
    return Frame(LOCAL, ox, oy)


def wide_frame(rng):
    # phases that put grid points exactly on longitude +180, on -180, on latitude +-90, or none of them
    ox = rng.choice([0, 59543, -59543, rng.randint(-59000, 59000)])
    oy = rng.choice([0, 89315, -89315, rng.randint(-59000, 59000)])
    return Frame(WIDE, ox, oy)


def lat_range(fr):
    return -((90000000 + fr.oy) // fr.S), (90000000 - fr.oy) // fr.S


def cut_frame(rng, S=None):
    """Grid points x < 0 lie west of the antimeridian (near +180), x >= 0 east of it (wrapped to near -180)."""
    S = S or rng.choice([LOCAL, LOCAL, WIDE])
    # lo + W = 0, i.e. the greatest x with ox + S*x <= 180000000 is -1
    ph = rng.choice([0, S - 1, rng.randint(0, S - 1)])
    ox = 180000000 + S - ph
    oy = rng.randint(-20000000, 20000000) if S == LOCAL else rng.randint(-S, S)
    fr = Frame(S, ox, oy)
    assert fr.lo + fr.W in (0, 1), (fr.lo, fr.W)
    fr.cut = fr.lo + fr.W
    return fr


def make_world(rng, kind, npoly=None, kmax=7, size=None, extent=12):
    """-> frame, polygons (grid units, normalised longitudes)"""
    n = npoly or rng.randint(1, 5)
    if kind == 'micro':  # a few microdegrees apart, where every rounding shows
        fr = local_frame(rng)
        fr = Frame(rng.choice([1, 1, 2, 3, 10]), fr.ox, fr.oy)
        fr.W = 0
        extent = rng.choice([10, 30, 100, 1000])
        return fr, geo.world(rng, npoly or rng.randint(1, 6), -extent, extent, -extent, extent, kmax,
                             size or (rng.choice([4, 6, 12, 20]) if extent < 30 else extent))
    if kind == 'local':
        fr = local_frame(rng)
        return fr, geo.world(rng, n, -extent, extent, -extent, extent, kmax, size or rng.choice([4, 6, 12, 20]))
    if kind == 'cut':
        fr = cut_frame(rng)
        c = fr.cut
        ws = geo.world(rng, n, c - extent, c + extent, -extent, extent, kmax, size or rng.choice([4, 6, 12]),
                       keep=lambda P: all(p[0] < c for p in P) or all(p[0] >= c for p in P))
        return fr, [[fr.norm(p) for p in P] for P in ws]
    if kind == 'wide':
        fr = wide_frame(rng)
        a, b = lat_range(fr)
        if rng.random() < .3:
            # aligned coarse grid: many equal distances and collinear points
            q = rng.choice([100, 150, 250])
            ws = geo.world(rng, n, fr.lo // q + 1, (fr.lo + fr.W - 1) // q, a // q + 1, b // q, kmax, rng.choice([3, 6, 12]))
            return fr, [[(x * q, y * q) for x, y in P] for P in ws]
        return fr, geo.world(rng, n, fr.lo, fr.lo + fr.W - 1, a, b, kmax, size or rng.choice([60, 300, 900, 1500]))
    raise ValueError(kind)


def polys_cmd(d, fr, ws, name='p', rng=None, disguise=True):
    Q = [geo.disguise(rng, P) if (rng and disguise) else P for P in ws]
    if rng and rng.random() < .5:
        rng.shuffle(Q)
    return d('polys', name, len(Q), ' '.join(fr.poly(P) for P in Q))


def world_event(fr, ws, routes=0, wide=0, W=None):
    return {'e': 'world', 'W': fr.W if W is None else W, 'lo': fr.lo, 'wide': wide, 'routes': routes,
            'polys': [[list(p) for p in P] for P in ws]}


def graph_event(fr, st, e='gen'):
    fr.off = False
    ev = {'e': e, 'verts': fr.units(st['verts']), 'm': st['m']}
    ev['off'] = 1 if fr.off or len(st['all']) != len(st['verts']) else 0
    return ev


def visible_event(fr, r, o, half):
    fr.off = False
    vis = [fr.unit(v[:2]) + [v[2]] for v in r['vis']]
    return {'e': 'visible', 'o': list(o), 'half': half, 'vis': vis, 'off': 1 if fr.off else 0}


def result(fr, r):
    fr.off = False
    p = fr.units(r['path'])
    return {'ok': r['ok'], 'path': p, 'off': 1 if fr.off else 0, 'haserr': bool(r.get('haserr', 0))}


# ---------------------------------------------------------------- queries
class Scene:
    """A world with its driver objects: polygons p, graph g, path computer c."""

    def __init__(self, d, r, kind, **kw):
        self.d, self.r, self.kind = d, r, kind
        if kind == 'wide':
            kw.setdefault('size', r.choice([10, 25, 50]))
            kw.setdefault('npoly', r.randint(2, 7))
            self.fr = fr = wide_frame(r)
            # confined to low latitudes and small land: the direct answer is decided on the sphere
            half = r.choice([60, 120, 300])
            lat0 = r.randint(-400, 400)
            lon0 = r.randint(fr.lo + half, fr.lo + fr.W - half)
            if r.random() < .5:
                lon0 = fr.lo
            keep = None
            ws = geo.world(r, kw['npoly'], lon0 - half, lon0 + half, lat0 - half, lat0 + half, 6, kw['size'],
                           keep=lambda P: len({(p[0] - fr.lo) // fr.W for p in P}) == 1)
            self.ws = [[fr.norm(p) for p in P] for P in ws]
            self.box = (lon0 - half, lon0 + half, lat0 - half, lat0 + half)
        elif kind == 'tiny':  # a few microdegrees, where the closest points lie on two sides of land
            self.fr = fr = Frame(1, r.randint(-178000000, 178000000), r.randint(-20000000, 20000000))
            fr.W, fr.lo = 0, 0
            n = r.choice([20, 40, 100, 200])
            self.ws = geo.world(r, kw.get('npoly') or r.randint(1, 6), -n, n, -n, n, r.choice([3, 6]), n)
            self.box = (-n - 9, n + 9, -n - 9, n + 9)
        elif kind == 'near':  # microdegrees around the origin, for points on land
            self.fr = fr = Frame(1, 0, 0)
            fr.W, fr.lo = 0, 0
            self.ws = geo.world(r, kw.get('npoly') or r.randint(1, 4), -14000, 14000, -14000, 14000, 6,
                                r.choice([4000, 8000, 14000]))
            self.box = (-15000, 15000, -15000, 15000)
        else:
            self.fr, self.ws = fr, _ = make_world(r, kind, **kw)
            c = getattr(self.fr, 'cut', 0)
            self.box = (c - 14, c + 14, -14, 14)
        self.wide = 1 if kind == 'wide' else 0
        self.verts = [p for P in self.ws for p in P]

    def setup(self, gen=True):
        d, r = self.d, self.r
        polys_cmd(d, self.fr, self.ws, rng=r)
        d('threads', r.choice([1, 2, 4, 8]))
        if gen:
            d('gen', 'g', 'p')
            d('comp', 'c', 'g')
        return world_event(self.fr, self.ws, routes=1 if gen else 0, wide=self.wide)

    def norm(self, p):
        return self.fr.norm(p) if self.fr.W else p

    def copies_of(self, p):
        W = self.fr.W
        return [p, (p[0] + W, p[1]), (p[0] - W, p[1])] if W else [p]

    def on_land(self, p):
        return any(geo.inside(q, P) for q in self.copies_of(p) for P in self.ws)

    def ambiguous(self, p):
        """Close to the shore but not a vertex: the sphere and the map may disagree there."""
        if p in self.verts:
            return False
        tol = 1.5 if self.wide else .02
        if self.wide:
            if self.on_land(p):
                return True
            for q in self.copies_of(p):
                for P in self.ws:
                    if (min(v[0] for v in P) - 3 <= q[0] <= max(v[0] for v in P) + 3 and
                            min(v[1] for v in P) - 3 <= q[1] <= max(v[1] for v in P) + 3):
                        return True
            return False
        if self.kind in ('near', 'tiny'):
            for P in self.ws:
                for a, b in geo.edges(P):
                    L2 = (a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2
                    if (geo.cross(a, b, p) ** 2 < 4 * L2 and min(a[0], b[0]) - 3 <= p[0] <= max(a[0], b[0]) + 3 and
                            min(a[1], b[1]) - 3 <= p[1] <= max(a[1], b[1]) + 3):
                        return True
        return False

    def point(self, land=None):
        r = self.r
        x0, x1, y0, y1 = self.box
        for _ in range(300):
            k = r.random()
            if k < .3 and self.verts and not land:
                p = r.choice(self.verts)
            elif k < .55 and self.verts:
                v = r.choice(self.verts)
                m = {'near': 600, 'tiny': 9}.get(self.kind, 2)
                p = (v[0] + r.randint(-m, m), v[1] + r.randint(-m, m))
            elif land and self.ws:
                P = r.choice(self.ws)
                p = (r.randint(min(v[0] for v in P), max(v[0] for v in P)),
                     r.randint(min(v[1] for v in P), max(v[1] for v in P)))
            else:
                p = (r.randint(x0, x1), r.randint(y0, y1))
            p = self.norm(p)
            if abs(self.fr.oy + self.fr.S * p[1]) > 89000000 or self.ambiguous(p):
                continue
            if land is not None and self.on_land(p) != land:
                continue
            return p
        return None

    def weight(self):
        return self.r.choice([(1, 1), (1, 1), (1, 1), (0, 1), (1, 2), (5, 4), (3, 2), (2, 1), (3, 1)])

    def radius(self, s, d):
        """in 1/1000 units, -1 = unlimited"""
        r = self.r
        if r.random() < .55:
            return -1
        v = r.choice(self.verts + [d])
        W = self.fr.W
        dx = abs(v[0] - s[0])
        dx = min(dx, W - dx) if W else dx
        m = int(1000 * (dx * dx + (v[1] - s[1]) ** 2) ** .5)
        return min(max(0, m + r.choice([-400, -3, 3, 400, r.randint(-5000, 20000)])), 2000000)

    def mx_arg(self, mx):
        return 'inf' if mx < 0 else repr(mx / 1000 * self.fr.S * 1e-6)

    def turned(self, p):
        W = self.fr.W
        k = self.r.choice([0, 0, 1, -1, 2, -2, 3]) if W else 0
        q = (p[0] + k * W, p[1])
        return q if abs(self.fr.mu(q)[0]) < 1900000000 else p

    def ask(self, s, d, mx=-1, w=(1, 1), corr=0, comp='c'):
        a = self.d('path', comp, self.fr.txt(s), self.fr.txt(d), self.mx_arg(mx), corr, repr(w[0] / w[1]))
        res = result(self.fr, a)
        return {'e': 'path', 's': list(s), 'd': list(d), 'mx': mx, 'wn': w[0], 'wd': w[1], 'corr': corr, 'r': res}

    def batch(self, qs, mx=-1, w=(1, 1), corr=0, comp='c'):
        a = self.d('batch', comp, self.mx_arg(mx), corr, repr(w[0] / w[1]), len(qs),
                   ' '.join(self.fr.txt(s) + ' ' + self.fr.txt(d) for s, d in qs))
        return {'e': 'batch', 'qs': [[list(s), list(d)] for s, d in qs], 'mx': mx, 'wn': w[0], 'wd': w[1], 'corr': corr,
                'rs': [result(self.fr, x) for x in a['results']]}

    def pair(self):
        r = self.r
        s = self.point()
        d = s if r.random() < .03 else self.point()
        if s is None or d is None:
            return None
        if self.wide and s not in self.verts and d not in self.verts and r.random() < .5:
            d = r.choice(self.verts)
        return s, d
