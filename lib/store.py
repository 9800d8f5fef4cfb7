"""Scenarios for the graph store: StoreTrace events. Vertices are numbered 1.. in the order they are first named."""
import os

K = 0x9e3779b9
M64 = (1 << 64) - 1


def chash(c):
    lo, la = c[0] & M64, c[1] & M64
    return la ^ ((lo + K + ((la << 6) & M64) + (la >> 2)) & M64)


def colliding(r, c, tries=2000):
    """Another coordinate on the map with the same hash as c (or None)."""
    h = chash(c)
    for _ in range(tries):
        la = r.randint(-90000000, 90000000) if r.random() < .3 else c[1] + r.randint(-3000, 3000)
        if abs(la) > 90000000 or la == c[1]:
            continue
        u = la & M64
        lo = ((h ^ u) - K - ((u << 6) & M64) - (u >> 2)) & M64
        if lo >= 1 << 63:
            lo -= 1 << 64
        if abs(lo) <= 180000000 and chash((lo, la)) == h:
            return (lo, la)
    return None


class Store:
    def __init__(self, d, r, scratch=None):
        self.d, self.r = d, r
        self.ids, self.coords = {}, []
        self.ev = []
        self.texts = {}
        self.scratch = scratch
        self.n = 0

    def num(self, c):
        c = tuple(c)
        if c not in self.ids:
            self.coords.append(c)
            self.ids[c] = len(self.coords)
        return self.ids[c]

    def known(self, c):
        return self.ids.get(tuple(c), 0)

    def txt(self, i):
        return '%d %d' % self.coords[i - 1]

    def add(self, **e):
        self.ev.append(e)
        return e

    # -- making graphs ----------------------------------------------------
    def polys(self, name, ps):
        """Registers polygons with the driver; returns them as the Polygon class notes them."""
        a = self.d('polys', name, len(ps), ' '.join('%d %s' % (len(p), ' '.join('%d %d' % c for c in p)) for p in ps))
        return [[self.num(c) for c in p] for p in a['polys']]

    def new(self, g, pname, polys):
        self.d('graph', g, pname)
        self.add(e='new', id=g, polys=polys)

    def observe(self, g):
        a = self.d('dump', g)
        if a['thrown']:
            return {'thrown': a['thrown'], 'verts': [], 'edges': [], 'nb': [], 'polys': [], 'all': 0}
        vs = [self.known(c) for c in a['verts']]
        return {'thrown': '', 'verts': vs, 'all': a['all'], 'edges': [[vs[i], vs[j], x] for i, j, x in a['edges']],
                'nb': [[self.known(c) for c in n] for n in a['nb']],
                'polys': [[self.known(c) for c in p] for p in a['polys']]}

    def state(self, g, ordered=0):
        self.add(e='state', id=g, ordered=ordered, **self.observe(g))

    def take(self, g):
        a = self.d('dump', g)
        for p in a['polys']:
            for c in p:
                self.num(c)
        o = self.observe(g)
        self.add(e='take', id=g, **o)

    def again(self, g, made):
        """`made` was made like g and must be the same graph"""
        self.add(e='again', id=g, made=made, **self.observe(made))

    # -- operations -------------------------------------------------------
    NAMES = {'add': 'addedge', 'adddir': 'adddir', 'rem': 'remedge', 'remdir': 'remdir'}

    def op(self, o, g, a, b, x=1):
        c = [self.NAMES[o], g, self.txt(a), self.txt(b)] + ([x - 1] if o.startswith('add') else [])
        t = self.d(*c)['thrown']
        self.add(e=o, id=g, a=a, b=b, x=x, thrown=t)

    def addvert(self, g, a):
        self.add(e='addvert', id=g, a=a, thrown=self.d('addvert', g, self.txt(a))['thrown'])

    def edge(self, g, a, b):
        r = self.d('edge', g, self.txt(a), self.txt(b))
        self.add(e='edge', id=g, a=a, b=b, thrown=r['thrown'], v=r.get('v', 0))

    def nbrs(self, g, a):
        r = self.d('nbrs', g, self.txt(a))
        self.add(e='nbrs', id=g, a=a, thrown=r['thrown'], nb=[self.known(c) for c in r.get('nb', [])])

    def hasvert(self, g, a):
        r = self.d('hasvert', g, self.txt(a))
        self.add(e='hasvert', id=g, a=a, thrown=r['thrown'], v=r.get('v', -1))

    def overlay(self, g, base):
        self.add(e='overlay', id=g, base=base, thrown=self.d('overlay', g, base)['thrown'])

    def eq(self, g, h):
        r = self.d('eq', g, h)
        self.add(e='eq', id=g, id2=h, thrown=r['thrown'], eq=r.get('eq', -1), ne=r.get('ne', -1))

    def text(self, g):
        r = self.d('text', g)
        t = self.texts.setdefault(r.get('t'), len(self.texts) + 1)
        self.add(e='text', id=g, thrown=r['thrown'], t=t)

    def merge(self, g, ids):
        self.add(e='merge', id=g, ids=list(ids), thrown=self.d('merge', g, len(ids), *ids)['thrown'])

    def save(self, g, f):
        self.add(e='save', id=g, file=f, thrown=self.d('save', g, os.path.join(self.scratch, f))['thrown'])

    def load(self, g, f):
        self.add(e='load', id=g, file=f, thrown=self.d('load', g, os.path.join(self.scratch, f))['thrown'])

    def scribble(self, f, data):
        with open(os.path.join(self.scratch, f), 'wb') as h:
            h.write(data)
        self.add(e='scribble', file=f, n=len(data))


def small_polys(r, n, kmax=5, collide=.5):
    """n disjoint triangles or more, anywhere on the map (in microdegrees), some vertices with colliding hashes"""
    out = []
    for i in range(n):
        # cells of a coarse grid keep them apart
        x0 = -170000000 + (i % 12) * 28000000
        y0 = -80000000 + (i // 12 % 8) * 20000000 + (i // 96) * 5000
        k = r.randint(3, kmax)
        pts = []
        for j in range(k):  # convex: points on a parabola
            t = -k + 2 * j + r.choice([0, 1])
            pts.append((x0 + t * 3000 + r.randint(0, 20), y0 + t * t * 40))
        out.append(pts)
    r.shuffle(out)
    return out


def pool(r, n, spread=None):
    """n distinct coordinates: small, spread over the map, at its corners, and with equal hashes"""
    out, have = [], set()
    mode = r.random()

    def put(c):
        if c and c not in have and len(out) < n:
            have.add(c)
            out.append(c)
    while len(out) < n:
        k = r.random()
        if mode < .3 or k < .3:
            c = (r.randint(-9, 9), r.randint(-9, 9))
        elif k < .4:
            c = (r.choice([-180000000, 180000000, 0, r.randint(-180000000, 180000000)]),
                 r.choice([-90000000, 90000000, 0, r.randint(-90000000, 90000000)]))
        else:
            c = (r.randint(-180000000, 180000000), r.randint(-90000000, 90000000))
        put(c)
        if r.random() < .25:
            for _ in range(r.randint(1, 2)):
                put(colliding(r, c))
    return out


def rings(r, cs, lo=3, hi=5):
    """Groups coordinates into star-shaped rings without collinear neighbours; leftovers are returned too"""
    import math
    cs = list(cs)
    out, left = [], []
    while cs:
        k = min(len(cs), r.randint(lo, hi))
        part, cs = cs[:k], cs[k:]
        if k < 3:
            left += part
            continue
        mx, my = sum(c[0] for c in part) / k, sum(c[1] for c in part) / k
        part.sort(key=lambda c: math.atan2(c[1] - my, c[0] - mx))
        bad = any((b[0] - a[0]) * (c[1] - a[1]) == (b[1] - a[1]) * (c[0] - a[0])
                  for a, b, c in ((part[i - 2], part[i - 1], part[i]) for i in range(k)))
        if bad or len({math.atan2(c[1] - my, c[0] - mx) for c in part}) < k:
            left += part
        else:
            out.append(part)
    return out, left


def some_graph(st, name, n, density=None, hi=5):
    """A symmetric graph over random rings; returns its vertices and the coordinates left over (unknown to it)"""
    r = st.r
    ps, left = rings(r, pool(r, n), hi=hi)
    polys = st.polys('p' + name, ps)
    st.new(name, 'p' + name, polys)
    vs = [v for p in polys for v in p]
    return vs, [st.num(c) for c in left], polys


def random_edges(st, g, vs, m, symmetric=True):
    r = st.r
    for _ in range(m if len(vs) > 1 else 0):
        a, b = r.sample(vs, 2)
        st.op('add' if symmetric or r.random() < .5 else 'adddir', g, a, b, r.choice([1, 1, 2]))
