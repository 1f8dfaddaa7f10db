import itertools
import numpy as np
from hypothesis import strategies as st
from ..core import Sub
from .. import gen
from ..nv import *

ID = 'C01'
RULE = ('signatures are strings over +,-,0 in any order; blades are arbitrary bit patterns; a case is non-trivial when '
        'at least one pair of its blades has a nonzero product (tables) or both operands and the result are nonzero')


def all_sigs(d):
    return [''.join(s) for k in range(1, d + 1) for s in itertools.product('+-0', repeat=k)]


# --- blade level, any dimension
@st.composite
def table_case(draw, tier):
    n = draw(st.sampled_from([2, 3, 4, 5, 6, 7, 8, 8, 9, 9, 10, 11, 12, 13, 15, 16, 17, 18, 20, 23, 24, 26]))
    s = draw(gen.sig(n, n))
    b = st.integers(0, 2 ** n - 1) | st.binary(min_size=4, max_size=4).map(lambda x: int.from_bytes(x, 'little') % 2 ** n)
    A = draw(st.lists(b, min_size=1, max_size=6))
    B = draw(st.lists(b, min_size=1, max_size=6))
    return dict(sig=s, a=A, b=B)


def run_table(case):
    from numga.algebra.algebra import Algebra
    n = len(case['sig'])
    alg = Algebra(desc(case['sig']))
    r = ref(case['sig'])
    a, b = np.array(case['a'], dtype=alg.blade_dtype), np.array(case['b'], dtype=alg.blade_dtype)
    check([int(x) for x in a] == case['a'] and [int(x) for x in b] == case['b'], 'blade type too narrow')
    blades, signs = alg.product(a, b)
    check(blades.shape == (len(a), len(b)) == signs.shape, 'shape of table')
    _, swaps = alg.cayley(a[:, None], b[None, :])
    wedge_metric = Ref([1] * n)
    nonzero_seen = False
    for i, x in enumerate(case['a']):
        for j, y in enumerate(case['b']):
            c, s = r.mul(x, y)
            check(int(signs[i, j]) == s, lambda: f'sign of {x:b} * {y:b} is {int(signs[i, j])}, expected {s}')
            check(int(blades[i, j]) == c, lambda: f'blade of {x:b} * {y:b} is {int(blades[i, j]):b}, expected {c:b}')
            check((-1) ** (int(swaps[i, j]) % 2) == wedge_metric.mul(x, y)[1], lambda: f'swap parity of {x:b}, {y:b}')
            nonzero_seen |= s != 0
    for arr_, ints_ in ((a, case['a']), (b, case['b'])):
        g = [Ref.grade(x) for x in ints_]
        check([int(x) for x in alg.grade(arr_)] == g, 'grades')
        check([int(x) for x in alg.involute(arr_)] == [(-1) ** k for k in g], 'involute signs')
        check([int(x) for x in alg.reverse(arr_)] == [(-1) ** (k * (k - 1) // 2) for k in g], 'reverse signs')
        check([int(x) for x in alg.bit_dot(arr_, arr_)] == g, 'bit_dot')
    return [f'bytes{(n - 1) // 8 + 1}', f'd{n}'] + ([] if nonzero_seen else ['trivial'])


# --- full multiplication tables through multivectors
@st.composite
def full_case(draw, tier):
    return dict(sig=draw(gen.sig(4, 6, weights=[4, 5, 5, 6])))


def run_full(case):
    c, r = ctx(case['sig']), ref(case['sig'])
    F = c.subspace.full()
    bl = blist(F)
    N = len(bl)
    check(sorted(bl) == list(range(2 ** r.n)), 'full algebra lists every blade')
    E = np.identity(N)
    w = np.arange(1.0, N + 1)     # distinct weights identify which blade contributed
    P = c.multivector(subspace=F, values=E) * c.multivector(subspace=F, values=w)
    out = np.zeros((N, 2 ** r.n))
    out[..., blist(P.subspace)] = arr(P)
    want = np.zeros_like(out)
    for i, x in enumerate(bl):
        for j, y in enumerate(bl):
            k, s = r.mul(x, y)
            want[i, k] = s * w[j]
    if np.abs(out - want).max() > 1e-9:
        i, k = np.argwhere(np.abs(out - want) > 1e-9)[0]
        check(False, f'{bl[i]:b} * {bl[i] ^ k:b}: component {k:b} is {out[i, k]}, expected {want[i, k]}')
    return [f'd{r.n}']


# --- multivectors on arbitrary subspaces
@st.composite
def mv_case(draw, tier):
    s = draw(gen.sig(1, 8, weights=[1, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 8]))
    n = len(s)
    kinds = None if n <= 6 else ['few', 'few', 'single', 'grade', 'subset']
    return dict(sig=s, x=draw(gen.mv(n, cap=32, kinds=kinds)), y=draw(gen.mv(n, cap=32, kinds=kinds)))


@st.composite
def wide_case(draw, tier):
    n = draw(st.sampled_from([8, 9, 9, 10, 10, 11, 12]))
    s = draw(gen.sig(n, n))
    f = gen.mv(n, kinds=['few', 'few', 'few', 'single'], values=gen.nz_ints, empty=False)
    return dict(sig=s, x=draw(f), y=draw(f))


def run_mv(case):
    c, r = ctx(case['sig']), ref(case['sig'])
    x, y = mk(c, case['x']), mk(c, case['y'])
    want = r.gp(dct(case['x']), dct(case['y']))
    same(x * y, want, 'x * y')
    same(c.operator.geometric_product(x.subspace, y.subspace)(x, y), want, 'geometric_product')
    same(x.product(y), want, 'x.product(y)')
    return [f'd{r.n}'] + ([] if nonzero(want) else ['trivial'])


def run_large(case):
    n = len(case['sig'])
    big, few = gen.large_mv(n, case['kind'], case['seed']), gen.few_mv(case['few'])
    x, y = (big, few) if case['left'] else (few, big)
    return run_mv(dict(sig=case['sig'], x=x, y=y)) + [case['kind']]


# --- algebra laws, on the implementation itself
@st.composite
def law_case(draw, tier):
    s = draw(gen.sig(2, 6))
    n = len(s)
    f = gen.mv(n, cap=24)
    return dict(sig=s, x=draw(f), y=draw(f), z=draw(f), a=draw(st.integers(-3, 3)), b=draw(st.integers(-3, 3)))


def run_law(case):
    c = ctx(case['sig'])
    x, y, z = (mk(c, case[k]) for k in 'xyz')
    a, b = case['a'], case['b']
    l = (x * y) * z
    same(l, x * (y * z), 'associativity')
    same(x * (y * a + z * b), x * y * a + x * z * b, 'right linearity')
    same((x * a + y * b) * z, x * z * a + y * z * b, 'left linearity')
    one = c.multivector.scalar([1])
    same(x * one, x, 'right unit')
    same(one * x, x, 'left unit')
    return [] if nonzero(todict(l)) else ['trivial']


SUBS = [
    Sub('blade_table', table_case, run_table, quick=3000, thorough=60000, about='Algebra.product/cayley/grade on bit patterns, d <= 26, against word reference'),
    Sub('full_table', full_case, run_full, quick=48, thorough=600, fixed=lambda t: [dict(sig=s) for s in all_sigs(4)],
        about='complete multiplication table of every signature order with d <= 4 and random d <= 6'),
    Sub('multivectors', mv_case, run_mv, quick=2000, thorough=60000, about='x * y on arbitrary subspaces, d <= 8'),
    Sub('wide', wide_case, run_mv, quick=250, thorough=5000, about='x * y in 8 to 12 dimensions'),
    Sub('close', lambda t: gen.high(mv_case(t), 9, 11), run_mv, quick=200, thorough=5000, about='x * y on blades that differ in their upper byte'),
    Sub('three_bytes', lambda t: gen.high(mv_case(t), 17, 18), run_mv, quick=24, thorough=600, about='the same in 17 and 18 dimensions'),
    Sub('large', lambda t: gen.large(), run_large, quick=24, thorough=600, about='x * y with 100 to 1024 components on one side, d 8 to 10'),
    Sub('laws', law_case, run_law, quick=800, thorough=20000, about='associativity, bilinearity, unit'),
    Sub('laws_high', lambda t: gen.high(law_case(t), 9, 11), run_law, quick=100, thorough=3000, about='associativity, bilinearity, unit, d 9 to 11'),
]
