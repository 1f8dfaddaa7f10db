"""Reference model: geometric algebra over words of generators.

Deliberately naive and independent of the code under test: blades are sorted words of generator indices,
products are computed by bubble-sorting the concatenated word and contracting equal neighbours.
Multivectors are dictionaries {blade bit pattern: coefficient}.
"""

SIGN = {'+': 1, '-': -1, '0': 0}


def word(b):
    return [i for i in range(b.bit_length()) if b >> i & 1]


def bits(w):
    r = 0
    for i in w:
        r |= 1 << i
    return r


class Ref:
    _pool = {}

    def __new__(cls, metric):
        metric = tuple(metric)
        if metric not in cls._pool:
            self = object.__new__(cls)
            self.metric, self.n, self.table = metric, len(metric), {}
            self.I = 2 ** len(metric) - 1
            cls._pool[metric] = self
        return cls._pool[metric]

    def unit(self):
        """Same algebra with null generators replaced by positive ones"""
        return Ref(tuple(1 if m == 0 else m for m in self.metric))

    # --- blades
    def mul(self, a, b):
        k = (a, b)
        r = self.table.get(k)
        if r is None:
            w = word(a) + word(b)
            s = 1
            # bubble sort; every swap of distinct generators is a sign
            done = False
            while not done:
                done = True
                for i in range(len(w) - 1):
                    if w[i] > w[i + 1]:
                        w[i], w[i + 1] = w[i + 1], w[i]
                        s, done = -s, False
            # contract equal neighbours
            out = []
            for g in w:
                if out and out[-1] == g:
                    out.pop()
                    s *= self.metric[g]
                else:
                    out.append(g)
            r = self.table[k] = (bits(out), s)
        return r

    @staticmethod
    def grade(b):
        return bin(b).count('1')

    # --- multivectors
    def gp(self, x, y, keep=None):
        out = {}
        for a, va in x.items():
            for b, vb in y.items():
                c, s = self.mul(a, b)
                if s and (keep is None or keep(self.grade(a), self.grade(b), self.grade(c))):
                    out[c] = out.get(c, 0) + s * va * vb
        return out

    def wedge(self, x, y):
        out = {}
        for a, va in x.items():
            for b, vb in y.items():
                if a & b == 0:
                    c, s = self.mul(a, b)
                    out[c] = out.get(c, 0) + s * va * vb
        return out

    def inner(self, x, y):
        return self.gp(x, y, lambda l, r, o: o == abs(l - r))

    def scalar(self, x, y):
        return self.gp(x, y, lambda l, r, o: o == 0)

    def lc(self, x, y):
        return self.gp(x, y, lambda l, r, o: o == r - l)

    def rc(self, x, y):
        return self.gp(x, y, lambda l, r, o: o == l - r)

    def signed(self, x, f):
        return {b: f(self.grade(b)) * v for b, v in x.items()}

    def rev(self, x):
        return self.signed(x, lambda k: -1 if k % 4 in (2, 3) else 1)

    def inv(self, x):
        return self.signed(x, lambda k: -1 if k % 2 else 1)

    def conj(self, x):
        return self.signed(x, lambda k: -1 if k % 4 in (1, 2) else 1)

    def sneg(self, x):
        return self.signed(x, lambda k: 1 if k == 0 else -1)

    def pneg(self, x):
        return self.signed(x, lambda k: 1 if k in (0, self.n) else -1)

    # complements: products with the pseudoscalar in the metric without null generators
    def rcomp(self, x):
        return self.unit().gp(x, {self.I: 1})

    def lcomp(self, x):
        return self.unit().gp({self.I: 1}, x)

    def rcomp_dual(self, x):
        """linear, e ^ d(e) = I on blades"""
        return {self.I ^ b: v * self.mul(b, self.I ^ b)[1] for b, v in x.items()}

    def lcomp_dual(self, x):
        """linear, d(e) ^ e = I on blades"""
        return {self.I ^ b: v * self.mul(self.I ^ b, b)[1] for b, v in x.items()}

    def neg(self, b):
        s = 1
        for g in word(b):
            if self.metric[g] < 0:
                s = -s
        return s

    def rhodge(self, x):
        return self.rcomp_dual({b: self.neg(b) * v for b, v in x.items()})

    def lhodge(self, x):
        return self.lcomp_dual({b: self.neg(b) * v for b, v in x.items()})

    def rhodge_inv(self, x):
        # every blade is mapped to plus or minus its complement
        out = {}
        for c, v in x.items():
            b = self.I ^ c
            (c2, s), = self.rhodge({b: 1}).items()
            out[b] = v * s
        return out

    def lhodge_inv(self, x):
        out = {}
        for c, v in x.items():
            b = self.I ^ c
            (c2, s), = self.lhodge({b: 1}).items()
            out[b] = v * s
        return out

    def anti(self, f, *xs):
        return self.lcomp(f(*(self.rcomp(x) for x in xs)))

    def anti_wedge(self, x, y):
        return self.anti(self.wedge, x, y)

    def regressive(self, x, y):
        return self.rhodge_inv(self.wedge(self.rhodge(x), self.rhodge(y)))

    def left_interior(self, x, y):
        return self.anti_wedge(self.lcomp(x), y)

    def right_interior(self, x, y):
        return self.anti_wedge(x, self.rcomp(y))

    def add(self, x, y, s=1):
        out = dict(x)
        for b, v in y.items():
            out[b] = out.get(b, 0) + s * v
        return out

    def scale(self, x, s):
        return {b: v * s for b, v in x.items()}

    def comm(self, x, y, s=-1, gp=None):
        gp = gp or self.gp
        d = self.add(gp(x, y), gp(y, x), s)
        return {b: v / 2 for b, v in d.items()}

    def sandwich(self, R, v):
        return self.gp(self.gp(R, v), self.rev(R))
