"""Grid frames: grid unit (x, y) <-> microdegrees (ox + S*x, oy + S*y).
The longitude period of CAPI is 360000001 = 3023 * 119087 microdegrees, so with S either
factor the period is a whole number of units and copies of the land fall on the grid."""
PERIOD = 360000001
LOCAL, WIDE = 3023, 119087
assert LOCAL * WIDE == PERIOD


class Frame:
    def __init__(self, S, ox=0, oy=0):
        self.S, self.ox, self.oy = S, ox, oy
        self.W = PERIOD // S if PERIOD % S == 0 else 0
        self.lo = -((180000000 + ox) // S)  # least x with ox + S*x >= -180000000
        self.off = False

    def mu(self, p):
        return (self.ox + self.S * p[0], self.oy + self.S * p[1])

    def txt(self, p):
        return '%d %d' % self.mu(p)

    def poly(self, P):
        return '%d %s' % (len(P), ' '.join(self.txt(p) for p in P))

    def unit(self, q):
        x, y = q[0] - self.ox, q[1] - self.oy
        if x % self.S or y % self.S:
            self.off = True
        return [x // self.S, y // self.S]

    def units(self, qs):
        return [self.unit(q) for q in qs]

    def norm(self, p):
        return (self.lo + (p[0] - self.lo) % self.W, p[1])

    def deg(self, units):
        return repr(units * self.S * 1e-6)
