"""Input generation only: random worlds of simple disjoint polygons on an integer grid.
Nothing here judges CAPI; the verdicts are those of the TLA+ modules in ../spec."""
import random


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def sgn(x):
    return (x > 0) - (x < 0)


def onseg(p, a, b):
    return cross(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])


def proper(a, b, c, d):
    return sgn(cross(a, b, c)) * sgn(cross(a, b, d)) < 0 and sgn(cross(c, d, a)) * sgn(cross(c, d, b)) < 0


def touch(a, b, c, d):
    return proper(a, b, c, d) or onseg(a, c, d) or onseg(b, c, d) or onseg(c, a, b) or onseg(d, a, b)


def edges(P):
    return [(P[i], P[(i + 1) % len(P)]) for i in range(len(P))]


def area2(P):
    return sum(a[0] * b[1] - a[1] * b[0] for a, b in edges(P))


def on_boundary(p, P):
    return any(onseg(p, a, b) for a, b in edges(P))


def inside(p, P):
    if on_boundary(p, P):
        return False
    c = False
    for a, b in edges(P):
        if (a[1] > p[1]) != (b[1] > p[1]):
            if sgn(cross(a, b, p)) == (1 if b[1] > a[1] else -1):
                c = not c
    return c


def simple(P):
    n = len(P)
    if n < 3 or len(set(P)) != n:
        return False
    E = edges(P)
    for i in range(n):
        if cross(P[i - 1], P[i], P[(i + 1) % n]) == 0:
            return False
        for j in range(i + 1, n):
            if j == i + 1 or (i == 0 and j == n - 1):
                continue
            if touch(*E[i], *E[j]):
                return False
    return True


def disjoint(P, Q):
    if max(p[0] for p in P) < min(q[0] for q in Q) or max(q[0] for q in Q) < min(p[0] for p in P):
        return True
    if max(p[1] for p in P) < min(q[1] for q in Q) or max(q[1] for q in Q) < min(p[1] for p in P):
        return True
    for e in edges(P):
        for f in edges(Q):
            if touch(*e, *f):
                return False
    return not inside(P[0], Q) and not inside(Q[0], P)


def ccw(P):
    return P if area2(P) > 0 else P[::-1]


def random_polygon(rng, x0, x1, y0, y1, k):
    for _ in range(200):
        pts = sorted({(rng.randint(x0, x1), rng.randint(y0, y1)) for _ in range(k)})
        if len(pts) < 3:
            continue
        rng.shuffle(pts)
        P = pts
        for _ in range(200):
            changed = False
            n = len(P)
            for i in range(n):
                for j in range(i + 2, n):
                    if i == 0 and j == n - 1:
                        continue
                    if touch(P[i], P[i + 1], P[j], P[(j + 1) % n]):
                        P[i + 1:j + 1] = P[i + 1:j + 1][::-1]
                        changed = True
            if not changed:
                break
        if simple(P):
            return ccw(P)
    return None


def rectangle(rng, x0, x1, y0, y1):
    if x1 - x0 < 1 or y1 - y0 < 1:
        return None
    a, b = sorted(rng.sample(range(x0, x1 + 1), 2))
    c, d = sorted(rng.sample(range(y0, y1 + 1), 2))
    return [(a, c), (b, c), (b, d), (a, d)]


def comb(rng, x0, x1, y0, y1):
    """A comb or C shape: deep bays with parallel sides."""
    teeth = max(1, min(3, (x1 - x0) // 4))
    if x1 - x0 < 3 or y1 - y0 < 3:
        return None
    base = rng.randint(y0 + 1, y1 - 1)
    P = [(x0, y0)]
    x = x0
    step = (x1 - x0) // (2 * teeth + 1)
    if step < 1:
        return None
    P = [(x0, y0), (x0 + step * (2 * teeth + 1), y0)]
    x = x0 + step * (2 * teeth + 1)
    for i in range(2 * teeth + 1):
        top = y1 if i % 2 == 0 else base
        P.append((x, top))
        x -= step
        P.append((x, top))
    m = rng.randint(0, 3)
    if m & 1:
        P = [(x0 + x1 - a, b) for a, b in P]
    if m & 2:
        P = [(a, y0 + y1 - b) for a, b in P]
    P = ccw(P)
    return P if simple(P) else None


def triangle(rng, x0, x1, y0, y1):
    return random_polygon(rng, x0, x1, y0, y1, 3)


def world(rng, npoly, x0, x1, y0, y1, kmax, szmax, kinds=('random', 'random', 'rectangle', 'comb', 'triangle'), keep=None):
    out = []
    for _ in range(npoly * 30):
        if len(out) >= npoly:
            break
        w = rng.randint(2, szmax)
        h = rng.randint(2, szmax)
        cx = rng.randint(x0, max(x0, x1 - w))
        cy = rng.randint(y0, max(y0, y1 - h))
        box = (cx, min(x1, cx + w), cy, min(y1, cy + h))
        kind = rng.choice(kinds)
        if kind == 'random':
            P = random_polygon(rng, *box, rng.randint(3, kmax))
        elif kind == 'rectangle':
            P = rectangle(rng, *box)
        elif kind == 'comb':
            P = comb(rng, *box)
        else:
            P = triangle(rng, *box)
        if P and simple(P) and (keep is None or keep(P)) and all(disjoint(P, Q) for Q in out):
            out.append(P)
    return out


def disguise(rng, P):
    """The same region written differently: rotated, reversed, closed, with vertices repeated or on its sides."""
    from math import gcd
    if rng.random() < .25:
        Q = []
        for a, b in edges(P):
            Q.append(a)
            if rng.random() < .1:
                Q.append(a)
            g = gcd(abs(b[0] - a[0]), abs(b[1] - a[1]))
            if g > 1 and rng.random() < .5:
                ks = sorted(rng.sample(range(1, g), min(g - 1, rng.randint(1, 2))))
                Q += [(a[0] + (b[0] - a[0]) // g * k, a[1] + (b[1] - a[1]) // g * k) for k in ks]
        P = Q
    k = rng.randrange(len(P))
    P = P[k:] + P[:k]
    if rng.random() < .3:
        P = P[::-1]
    if rng.random() < .2:
        P = P + [P[0]]
    return P
