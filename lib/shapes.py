"""Inputs for the geometry: rings, point sets and segments in microdegrees."""
import geo

LON, LAT, PER = 180000000, 90000000, 360000001


def place(r, P):
    """Scales and moves a small polygon to somewhere on the map (or a copy of it)"""
    w = max(p[0] for p in P) - min(p[0] for p in P)
    h = max(p[1] for p in P) - min(p[1] for p in P)
    S = min(r.choice([1, 1, 2, 10, 1000, 65536, 65536, 123456, 1000000, 4194304, 5000000, 9999999]), 2 * LON // max(w, 1), 2 * LAT // max(h, 1))
    x0, y0 = min(p[0] for p in P) * S, min(p[1] for p in P) * S
    k = r.random()
    ox = -LON - x0 if k < .1 else LON - x0 - w * S if k < .2 else r.randint(-LON, LON - w * S) - x0
    k = r.random()
    oy = -LAT - y0 if k < .1 else LAT - y0 - h * S if k < .2 else r.randint(-LAT, LAT - h * S) - y0
    t = r.choice([0, 0, 0, 1, -1]) * PER
    return [(p[0] * S + ox + t, p[1] * S + oy) for p in P], S


def bend(r, P):
    """Puts extra corners one or two microdegrees off the middle of sides: as flat as corners get"""
    Q = []
    for a, b in geo.edges(P):
        Q.append(a)
        if r.random() < .3:
            t = r.random()
            m = (a[0] + int((b[0] - a[0]) * t) + r.choice([-1, 0, 1]), a[1] + int((b[1] - a[1]) * t) + r.choice([-1, 0, 1]))
            if m not in (a, b) and geo.cross(a, b, m):
                Q.append(m)
    return Q


def sliver(r):
    """A triangle or quadrangle of next to no area that runs across the map"""
    L = r.choice([1000, 10 ** 6, 10 ** 7, 10 ** 8, 2 * LON])
    dx, dy = r.randint(1, L), r.randint(1, min(L, 2 * LAT))
    g, u, v = _bezout(dx, dy)
    dx, dy = dx // g, dy // g
    t = ((-v) % dx + v) // dx
    near = (t * dx - v, u + t * dy)   # as near to the line to (dx, dy) as points of the grid get
    P = [(0, 0), (dx, dy), near]
    if r.random() < .3:
        P.append((near[0] - r.randint(0, near[0]), r.randint(near[1], dy)))
    ox, oy = r.randint(-LON, LON - dx), r.randint(-LAT, LAT - dy)
    t = r.choice([0, 0, 1, -1]) * PER
    return [(x + ox + t, y + oy) for x, y in P]


def _bezout(a, b):
    if b == 0:
        return a, 1, 0
    g, x, y = _bezout(b, a % b)
    return g, y, x - (a // b) * y


def ring(r):
    for _ in range(200):
        if r.random() < .12:
            P = sliver(r)
            if geo.simple(P) and all(abs(p[1]) <= LAT for p in P):
                return P if geo.area2(P) > 0 else P[::-1]
        n = r.choice([4, 8, 16, 30])
        k = r.random()
        if k < .5:
            P = geo.random_polygon(r, 0, n, 0, n, r.randint(3, 12))
        elif k < .65:
            P = geo.comb(r, 0, n, 0, n)
        elif k < .8:
            P = geo.rectangle(r, 0, n, 0, n)
        else:
            P = geo.triangle(r, 0, n, 0, n)
        if not P:
            continue
        P, S = place(r, P)
        if S >= 1000 and r.random() < .5:
            P = bend(r, P)
        if geo.simple(P):
            return P
    return None


def star(r, n):
    """A ring of many corners, some of them notches"""
    import math
    R = r.choice([1000, 30000, 2000000, 80000000])
    o = (r.randint(-LON + R, LON - R) if R < LON else 0, r.randint(-LAT + R, LAT - R))
    P = []
    for i in range(n):
        t = 2 * math.pi * (i + r.random() * .6) / n
        m = R * r.choice([1, 1, .95, .5, r.uniform(.3, 1)])
        p = (o[0] + round(m * math.cos(t)), o[1] + round(m * math.sin(t)))
        if p not in P:
            P.append(p)
    return P if geo.simple(P) else None


def coord(r):
    k = r.random()
    if k < .3:
        return (r.randint(-LON, LON), r.randint(-LAT, LAT))
    if k < .45:
        return (r.choice([-LON, LON, 0, 1, -1]), r.choice([-LAT, LAT, 0, 1, -1]))
    if k < .6:
        return (r.randint(-LON, LON) + r.choice([-PER, PER]), r.randint(-LAT, LAT))
    return (r.randint(-5, 5), r.randint(-5, 5))


def near(r, c):
    return (c[0] + r.randint(-2, 2), max(-LAT, min(LAT, c[1] + r.randint(-2, 2))))


def on_line(r, a, b):
    """A point on the line through a and b, if there is a grid point besides them"""
    from math import gcd
    g = gcd(abs(b[0] - a[0]), abs(b[1] - a[1]))
    if g < 2:
        return None
    k = r.choice([r.randint(1, g - 1), r.randint(0, g), -1, g + 1])
    p = (a[0] + (b[0] - a[0]) // g * k, a[1] + (b[1] - a[1]) // g * k)
    return p if abs(p[0]) <= LON + PER and abs(p[1]) <= LAT else None


def bezout(a, b):
    """x, y with a*x + b*y = gcd(a, b)"""
    x, y, u, v = 1, 0, 0, 1
    while b:
        q, a, b = a // b, b, a % b
        x, u = u, x - q * u
        y, v = v, y - q * v
    return (x, y) if a > 0 else (-x, -y)


def beside(r, a, b):
    """A point as close to the line through a and b as points get without being on it"""
    u, v = b[0] - a[0], b[1] - a[1]
    if not u and not v:
        return a
    y, x = bezout(u, -v)  # u * y - v * x = gcd
    k = r.choice([1, -1, 1, -1, 2, -2, 5])
    t = r.choice([0, 0, 0, 1, -1])
    g = abs(__import__('math').gcd(u, v))
    p = (a[0] + k * x + t * u // g, a[1] + k * y + t * v // g)
    return p if abs(p[1]) <= LAT and abs(p[0]) <= LON + PER else a


def segments(r):
    a = coord(r)
    b = r.choice([coord(r), coord(r), coord(r), near(r, a)])
    if r.random() < .2:
        b = (a[0] + r.randint(-20, 20) * 100000, max(-LAT, min(LAT, a[1] + r.randint(-20, 20) * 100000)))
    c = r.choice([coord(r), coord(r), coord(r), a, b, near(r, a), on_line(r, a, b) or b])
    d = r.choice([coord(r), coord(r), coord(r), a, b, near(r, b), on_line(r, a, b) or a])
    if r.random() < .2:  # aims at a point of a -- b
        t = r.random()
        m = (a[0] + round((b[0] - a[0]) * t), a[1] + round((b[1] - a[1]) * t))
        d = (max(-LON - PER, min(LON + PER, 2 * m[0] - c[0])), max(-LAT, min(LAT, 2 * m[1] - c[1])))
        d = r.choice([d, near(r, d), near(r, m), m])
    if r.random() < .05:
        c, d = b, a
    if r.random() < .15:
        c = beside(r, a, b)
    if r.random() < .1:
        d = beside(r, a, b)
    if r.random() < .3:
        a, b, c, d = r.choice([(c, d, a, b), (b, a, c, d), (a, b, d, c)])
    return (a, b, c, d) if a != b and c != d else segments(r)


def around(r, many=None):
    """An observer and points around it, some of them in almost the same direction"""
    R = r.choice([3, 5, 12, 100, 5000, 100000, 1000000, 90000000])
    o = r.choice([(0, 0), coord(r)])
    o = (o[0], max(-LAT + 1, min(LAT - 1, o[1])))
    pts = []
    n = many or r.choice([0, 1, 2, 3, 5, 8, 17, 20, 40])
    for _ in range(n):
        k = r.random()
        if k < .1:
            p = o
        elif k < .25 and pts:
            q = r.choice(pts)
            f = r.choice([2, 3, -1, -2])
            p = (o[0] + f * (q[0] - o[0]), o[1] + f * (q[1] - o[1]))
        elif k < .45:
            u = r.choice([(1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (-1, 1), (-1, -1), (1, -1)])
            m = r.randint(1, R)
            p = (o[0] + u[0] * m, o[1] + u[1] * m)
        elif k < .5 and pts:
            p = r.choice(pts)
        elif k < .65 and pts:  # almost in the same direction
            q = r.choice(pts)
            p = beside(r, o, q) if r.random() < .6 else (q[0] + r.choice([1, -1]), q[1] + r.choice([1, 0, -1]))
        else:
            p = (o[0] + r.randint(-R, R), o[1] + r.randint(-R, R))
        if abs(p[1]) > LAT or abs(p[0]) > LON + PER:
            continue
        pts.append(p)
    r.shuffle(pts)
    return o, pts


def _on_map(P, m=1000000):
    return all(abs(p[0]) <= LON and abs(p[1]) <= LAT - m for p in P)


def flat_corner(r):
    """A land with one corner that is straight but for next to nothing, between long shores, and what may be seen past it"""
    from math import gcd
    for _ in range(400):
        L = r.choice([10 ** 5, 10 ** 7, 10 ** 8, LON])
        a, b = r.randint(L // 2, L), r.choice([-1, 1]) * r.randint(1, min(L, 60000000))
        if gcd(a, b) != 1:
            continue
        x, y = bezout(a, b)
        k = r.choice([1, 1, 1, -1, -1, 2, -3])
        c, d = -y * k, x * k           # a * d - b * c = k
        t = r.randint(0, 2) + (-c) // a + 1
        c, d = c + t * a, d + t * b
        if c <= 0 or not (c or d):
            continue
        h = r.choice([-1, 1]) * r.choice([1, 10, 1000, 10 ** 6, 2 * 10 ** 7])
        P = [(-a, -b), (0, 0), (c, d), (r.randint(-9, 9), h)]
        if r.random() < .4:
            P.append((-a // 2, -b // 2 + h))
        far = [(a + c, b + d), (-a - c, -b - d), (2 * a + c, 2 * b + d), (-a - 2 * c, -b - 2 * d)]
        return P, far
    return None


def long_neck(r):
    """A land with a shore that is many degrees long, and the other side of a narrow neck just beyond its end"""
    dx, dy = r.choice([(1, 0), (1, 0), (0, 1), (1, 1), (2, 1), (3, -2), (1, 3), (7, -5)])
    m = r.choice([10 ** 4, 10 ** 6, 10 ** 7, 10 ** 8]) // max(abs(dx), abs(dy)) // r.choice([1, 2, 3])
    k = r.choice([1, 2, 5, 10, max(1, m // 1000000), max(1, m // 600000), max(1, m // 300000), max(1, m // 10000)])
    q = r.choice([1, 5, 1000, max(1, m // 50)])
    w, u = r.randint(1, 2 * k + 9), r.randint(1, 2 * k + 9)
    P = [(0, 0), (m, 0), (m, -q), (m + k + w, -q), (m + k, 0), (m + k + u, q), (0, q)]
    if r.random() < .3:  # the end of the shore is a corner of a headland instead
        P = [(0, 0), (m, 0), (m + r.randint(1, k), q), (0, q)]
    if r.random() < .5:
        P = [(x, -y) for x, y in P]
    if r.random() < .5:
        P = [(-x, y) for x, y in P]
    P = [(x * dx - y * dy, x * dy + y * dx) for x, y in P]
    far = [((m + j) * dx, (m + j) * dy) for j in (k, k + 1, 2 * k + 3)] + [(-j * dx, -j * dy) for j in (1, k)]
    return P, far


def wide_world(r):
    """Lands across the map with details of a microdegree"""
    for _ in range(300):
        k = r.random()
        far = []
        if k < .45:
            P, far = flat_corner(r) or ([], [])
        elif k < .85:
            P, far = long_neck(r)
        else:
            n = r.choice([8, 12, 20])
            P = geo.random_polygon(r, 0, n, 0, n, r.randint(3, 6)) or []
            S = r.choice([10 ** 3, 10 ** 6, 8 * 10 ** 6])
            P = bend(r, [(x * S, y * S) for x, y in P])
        if not P or not geo.simple(P):
            continue
        x0, x1, y0, y1 = min(p[0] for p in P), max(p[0] for p in P), min(p[1] for p in P), max(p[1] for p in P)
        m = r.choice([10, 10 ** 6])
        if x1 - x0 > 2 * LON - 10 or y1 - y0 > 2 * LAT - 2 * m:
            continue
        o = (r.randint(-LON, LON - (x1 - x0)) - x0, r.randint(m - LAT, LAT - m - (y1 - y0)) - y0)
        at = lambda p: (p[0] + o[0], p[1] + o[1])
        ws = [geo.ccw([at(p) for p in P])]
        for f in far:
            v = at(f)
            v = ((v[0] + LON) % PER - LON, v[1])
            e = r.choice([1, 3, 1000, 10 ** 6])
            u, w = r.choice([((1, 1), (1, -1)), ((-1, 1), (1, 1)), ((1, 0), (0, 1)), ((-1, 0), (0, -1)), ((-1, -1), (1, -2))])
            Q = [v, (v[0] + u[0] * e, v[1] + u[1] * e), (v[0] + w[0] * e, v[1] + w[1] * e)]
            if _on_map(Q, m) and geo.simple(Q) and r.random() < .8:
                Q = geo.ccw(Q)
                if all(geo.disjoint(Q, R) for R in ws):
                    ws.append(Q)
        if all(_on_map(Q, m) for Q in ws):
            return ws
    return None
