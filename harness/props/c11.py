import numpy as np
from hypothesis import strategies as st
from ..core import Sub, HarnessError
from .. import gen
from ..nv import *

ID = 'C11'
RULE = ('a generated expression tree over the operator overloads, with (batched) integer multivectors on generated subspaces, plain '
        'numbers and arrays as leaves; non-trivial when it has at least two operators and a nonzero value')

BIN = ['+', '-', '*', '*', '^', '&', '|', '>>', '<<']
NUMBERS = [2, -1, 3, 0, 1, 0.5, -2.5, 4]
DIVISORS = [2, -1, 4, 0.5, -8, 1]


@st.composite
def leaf(draw, n, cap, batch):
    m = draw(gen.mv(n, cap=cap, values=lambda k: gen.ints(k)))
    b = draw(st.sampled_from([1] * 3 + batch))
    if b == 1:
        return ['mv', m[0], m[1], 0]
    v = [draw(gen.ints(len(m[0]))) for _ in range(b)]
    return ['mv', m[0], v, b]


@st.composite
def tree(draw, n, depth, cap, batch):
    if depth == 0 or draw(st.integers(0, 9)) == 9:
        return draw(leaf(n, cap, batch))
    k = draw(st.integers(0, 14))
    sub = lambda d=1: draw(tree(n, depth - d, cap, batch))
    if k < 7:
        return ['bin', draw(st.sampled_from(BIN)), sub(), sub()]
    if k < 9:
        return ['un', draw(st.sampled_from(['-', '+', '~'])), sub()]
    if k < 12:     # with a number or an array, on either side
        kind = draw(st.sampled_from(['int', 'np', 'array0', 'array1', 'list1']))
        size = draw(st.sampled_from(batch)) if batch else 1
        v = draw(st.lists(st.sampled_from(NUMBERS), min_size=size, max_size=size))
        return ['num', draw(st.sampled_from(['+', '-', '*'])), draw(st.booleans()), kind, v, sub()]
    if k == 12:
        kind = draw(st.sampled_from(['int', 'np', 'array0', 'array1']))
        size = draw(st.sampled_from(batch)) if batch else 1
        v = draw(st.lists(st.sampled_from(DIVISORS), min_size=size, max_size=size))
        return ['div', kind, v, sub()]
    if k == 13:
        return ['divs', draw(st.lists(st.sampled_from(DIVISORS), min_size=1, max_size=1)), sub()]
    # quotient by a versor, or of a number by a versor
    return ['divv', draw(st.integers(0, 2 ** n - 1)), draw(st.sampled_from(DIVISORS)),
            draw(st.sampled_from([None, None, 3])), sub()]


def case_(hi, depth, cap, batch):
    @st.composite
    def f(draw, tier):
        s = draw(gen.sig(1, hi, weights=[1, 2, 2, 3, 3, 3, 4, 4, 5][:9 if hi >= 5 else 8]))
        cap_ = cap if len(s) < 5 else min(cap, 8)
        return dict(sig=s, tree=draw(tree(len(s), draw(st.sampled_from(range(1, depth + 1))), cap_, [draw(st.sampled_from(batch))])))
    return f


def mag(x):
    return sum((float(np.max(np.abs(v))) if np.size(v) else 0. for v in x.values()), 0.)


class Ev:
    def __init__(self, case, backend):
        self.c, self.r = ctx(case['sig'], backend), ref(case['sig'])
        self.backend, self.ops, self.too_big = backend, 0, False

    def number(self, kind, v):
        """the object given to the library, and the reference value"""
        b = self.backend
        if kind == 'int':
            return v[0], v[0]
        if kind == 'np':
            return np.float64(v[0]), v[0]
        a = np.array(v[0] if kind == 'array0' else v, dtype=float)
        if b == 'numpy' or kind == 'array0':
            return a, a
        if b == 'jax':
            import jax.numpy as jnp
            return jnp.asarray(a), a
        import torch
        return torch.asarray(a), a

    def run(self, t):
        """(library value, reference value, blades, magnitude)"""
        c, r = self.c, self.r
        k = t[0]
        if k == 'mv':
            v = np.array(t[2], dtype=float).reshape(((t[3],) if t[3] else ()) + (len(t[1]),))
            d = {b: v[..., i] for i, b in enumerate(t[1])}
            return mk(c, [t[1], v]), d, set(t[1]), mag(d)
        if k == 'un':
            x, d, s, m = self.run(t[2])
            self.ops += 1
            if t[1] == '-':
                return -x, r.scale(d, -1), s, m
            if t[1] == '+':
                return +x, d, s, m
            return ~x, r.rev(d), s, m
        if k == 'num':
            x, d, s, m = self.run(t[5])
            a, av = self.number('array1' if t[3] == 'list1' else t[3], t[4])
            self.ops += 1
            op, left = t[1], t[2]
            am = float(np.max(np.abs(av)))
            if op == '*':
                return (a * x if left else x * a), r.scale(d, av), None, m * am
            sc = {0: av * np.ones(np.shape(av))}
            if op == '+':
                y, w = (a + x if left else x + a), r.add(d, sc)
            elif left:
                y, w = a - x, r.add(sc, d, -1)
            else:
                y, w = x - a, r.add(d, sc, -1)
            return y, w, None if s is None else s | {0}, m + am
        if k == 'div':
            x, d, s, m = self.run(t[3])
            a, av = self.number(t[1], t[2])
            self.ops += 1
            return x / a, r.scale(d, 1 / np.asarray(av)), s, m * float(np.max(np.abs(1 / np.asarray(av))))
        if k == 'divs':
            x, d, s, m = self.run(t[2])
            self.ops += 1
            return x / c.multivector.scalar(t[1]), r.scale(d, 1 / t[1][0]), s, m / abs(t[1][0])
        if k == 'divv':
            b, q, num = t[1], t[2], t[3]
            # keep the generators with a square
            for i, g in enumerate(r.metric):
                if not g:
                    b &= ~(1 << i)
            sq = r.mul(b, b)[1]
            y = mk(c, [[b], [q]])
            inv = {b: sq / q}
            self.ops += 1
            if num is not None:
                return num / y, r.scale(inv, num), None, abs(num / q)
            x, d, s, m = self.run(t[4])
            return x / y, r.gp(d, inv), None, m / abs(q)
        x, d, s, m = self.run(t[2])
        y, e, u, k2 = self.run(t[3])
        if self.too_big or len(x.subspace) ** 2 * len(y.subspace) > (300 if t[1] in ('>>', '<<') and r.n > 3 else 10 ** 9):
            self.too_big = True
            return x, d, s, m
        self.ops += 1
        op = t[1]
        if op in '+-':
            z = x + y if op == '+' else x - y
            bl = set(blist(x.subspace)) | set(blist(y.subspace))
            check(set(blist(z.subspace)) == bl, lambda: f'{op}: subspace {blist(z.subspace)}, expected the union {sorted(bl)}')
            return z, r.add(d, e, 1 if op == '+' else -1), bl, m + k2
        if op == '*':
            return x * y, r.gp(d, e), None, m * k2
        if op == '^':
            return x ^ y, r.wedge(d, e), None, m * k2
        if op == '|':
            return x | y, r.inner(d, e), None, m * k2
        if op == '&':
            return x & y, r.regressive(d, e), None, m * k2
        grades = {r.grade(b) for b in blist(y.subspace)}
        on = lambda z: {b: v for b, v in z.items() if r.grade(b) in grades}
        if op == '>>':
            return x >> y, on(r.sandwich(d, e)), None, m * m * k2
        return x << y, on(r.gp(r.gp(r.rev(d), e), d)), None, m * m * k2


def runner(backend):
    def run(case):
        ev = Ev(case, backend)
        x, d, s, m = ev.run(case['tree'])
        same(x, d, 'expression', tol=1e-10, scale=m)
        if s is not None:
            check(set(blist(x.subspace)) == s, f'subspace {blist(x.subspace)}, expected {sorted(s)}')
        lab = [f'ops{min(ev.ops, 6)}', f'd{ev.r.n}']
        return lab + ([] if ev.ops > 1 and nonzero(d) else ['trivial'])
    return run


SUBS = [
    Sub('numpy', case_(5, 4, 16, [2, 3, 2]), runner('numpy'), quick=1500, thorough=40000, about='numpy context'),
    Sub('numpy_high', lambda t: gen.high(case_(5, 3, 6, [2])(t)), runner('numpy'), quick=300, thorough=3000, about='numpy context, d 9 to 11'),
    Sub('torch', case_(4, 3, 8, [2]), runner('torch'), quick=150, thorough=4000, about='torch context'),
    Sub('jax', case_(3, 2, 6, [2]), runner('jax'), quick=64, thorough=1200, shards=8, about='jax context'),
]
