import numpy as np
from hypothesis import strategies as st
from ..core import Sub
from .. import gen
from ..nv import *

ID = 'C15'
RULE = ('a multivector with generated components on a union of grades, or on a finer generated subspace, of a generated signature; the '
        'oracle is the solution of x y = 1 in the whole algebra, by the left multiplication matrix of the reference model; non-trivial '
        'when that matrix is well conditioned and the element is not a scalar')
ASSUMPTIONS = ['elements are called invertible when the left multiplication matrix has a condition number below 200']


def left_matrix(r, d):
    """matrix of y -> x y on all blades"""
    N = 2 ** r.n
    M = np.zeros((N, N))
    for b, v in d.items():
        if v:
            for e in range(N):
                for k, w in r.gp({b: v}, {e: 1}).items():
                    M[k, e] += w
    return M


def oracle(r, d, limit=200):
    M = left_matrix(r, d)
    if not np.all(np.isfinite(M)):
        return None, np.inf
    sv = np.linalg.svd(M, compute_uv=False)
    if sv[-1] <= 1e-3 or sv[0] / sv[-1] > limit:
        return None, np.inf
    e = np.zeros(len(M))
    e[0] = 1
    y = np.linalg.solve(M, e)
    return {k: v for k, v in enumerate(y)}, sv[0] / sv[-1]


@st.composite
def case(draw, tier, hi=5, lo=1, kinds=('grades', 'grades', 'even', 'odd', 'grade', 'full'), weights=None, cap=None):
    s = draw(gen.sig(lo, hi, weights=weights or [1, 2, 2, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5]))
    n = len(s)
    b = draw(gen.blades(n, cap=cap, empty=False, kinds=list(kinds)))
    v = draw(st.one_of(gen.floats(len(b), 2.0), gen.ints(len(b))))
    return dict(sig=s, x=[b, v], boost=draw(st.sampled_from([0, 0, 2, 4])), y=draw(gen.mv(n, cap=4, empty=False)))


def scaled(case):
    """an element, scaled to a norm near one; optionally one component is enlarged, as degenerate algebras have few units"""
    b, v = case['x'][0], np.array(case['x'][1], dtype=float)
    sig = case['sig']
    live = [i for i, k in enumerate(b) if all(sig[j] != '0' for j in range(len(sig)) if k >> j & 1)]
    if case['boost'] and live:
        i = live[-1 if case['boost'] == 2 else 0]
        v[i] += np.copysign(case['boost'], v[i])
    nrm = np.sqrt(np.sum(v ** 2))
    return [b, list(v / nrm if nrm > 1e-3 else v)]


def tol(k):
    return 1e-9 + 1e-13 * k ** 3


def two_sided(x, y, want, k, what):
    with np.errstate(all='ignore'):
        same(y, want, f'{what}', tol=tol(k))
        same(x * y, {0: 1.0}, f'x * {what}', tol=tol(k) * k)
        same(y * x, {0: 1.0}, f'{what} * x', tol=tol(k) * k)


def run(case, complete=True):
    c, r = ctx(case['sig']), ref(case['sig'])
    xs = scaled(case)
    want, k = oracle(r, dct(xs))
    if want is None:
        return ['singular', 'trivial']
    x = mk(c, xs)
    before = x.values.copy()
    labels = [f'd{r.n}']
    with np.errstate(all='ignore'):
        try:
            y = x.inverse()
        except Exception as e:
            if complete or 'No matching' not in str(e):
                raise
            y = None
            labels.append('norule')
        if y is not None:
            two_sided(x, y, want, k, 'inverse')
            z = mk(c, case['y'])
            dz = dct(case['y'])
            same(z / x, r.gp(dz, want), 'z / x', tol=tol(k) * 10)
            same(2.0 / x, r.scale(want, 2.0), '2 / x', tol=tol(k) * 10)
            same(x / 4.0, r.scale(dct(xs), 0.25), 'x / 4', tol=1e-12)
            same(x / c.multivector.scalar([-4.0]), r.scale(dct(xs), -0.25), 'x / scalar', tol=1e-12)
            same(y.inverse(), dct(xs), 'inverse of the inverse', tol=tol(k) * k * 10) if complete and k < 30 else None
        same(x, dict(zip(blist(x.subspace), before)), 'input changed', tol=0)
        # factor based; exact where the factor completes x to a scalar
        if r.n < 4:
            two_sided(x, x.inverse_hitzer(), want, k, 'inverse_hitzer')
        la_space = set(blist(c.operator.inverse_factor(x.subspace).output)) if len(x.subspace) <= 16 else None
        if la_space is not None and all(abs(v) < 1e-9 for b, v in want.items() if b not in la_space):
            same(x.inverse_la(), want, 'inverse_la', tol=tol(k) * k * 10)
            labels.append('la')
        if r.n < 6:
            same(x.inverse_shirokov(), want, 'inverse_shirokov', tol=(1e-8 if r.n < 5 else 1e-6) * max(1, k ** 2 / 100))
    if blist(x.subspace) == [0]:
        labels.append('trivial')
    return labels


def run_fine(case):
    return run(case, complete=False)


# ---- Shirokov and linear algebra in higher dimensions; rules which apply in any dimension
@st.composite
def high_case(draw, tier):
    n = draw(st.sampled_from([6, 6, 7, 7, 8] if tier == 'quick' else [6, 7, 7, 8]))
    s = draw(gen.sig(n, n))
    if n > 6 and draw(st.booleans()):
        # many blades, so that the minimal polynomial has its full degree
        rng = np.random.default_rng(draw(st.integers(0, 10 ** 6)))
        b = sorted(int(k) for k in rng.choice(2 ** n, draw(st.integers(8, 32)), replace=False))
        b = sorted(set(b) | {0})
        return dict(sig=s, x=[b, [round(float(v), 2) for v in rng.normal(size=len(b))]], boost=4, y=[[0], [1]])
    b = draw(gen.blades(n, cap=8, empty=False, kinds=['few', 'few', 'grade', 'single', 'even', 'odd', 'grades']))
    if draw(st.booleans()):
        b = sorted(set(b) | {0})
    return dict(sig=s, x=[b, draw(gen.ints(len(b)))], boost=draw(st.sampled_from([0, 2, 4])), y=[[0], [1]])


def run_high(case):
    c, r = ctx(case['sig']), ref(case['sig'])
    xs = scaled(case)
    want, k = oracle(r, dct(xs), 30)
    if want is None:
        return ['singular', 'trivial']
    x = mk(c, xs)
    S = x.subspace
    labels = [f'd{r.n}']
    with np.errstate(all='ignore'):
        # the rules for bivectors and trivectors are documented for fewer dimensions
        if len(S) <= 8 and not ((S.inside.bivector() or S.inside.trivector()) and not (S.is_squared_n_simple(1) or S.is_reverse_n_simple(1))):
            try:
                y = x.inverse()
                labels.append('rule')
            except Exception as e:
                if 'No matching' not in str(e):
                    raise
                y = None
            if y is not None:
                two_sided(x, y, want, k, 'inverse')
        same(x.inverse_shirokov(), want, 'inverse_shirokov', tol=1e-4)
        if r.n == 6:
            if len(S) <= 5:
                sp = set(blist(c.operator.inverse_factor(S).output))
                if all(abs(v) < 1e-9 for b, v in want.items() if b not in sp):
                    same(x.inverse_la(), want, 'inverse_la', tol=tol(k) * k * 10)
    return labels


# ---- normalised motors
@st.composite
def motor_case(draw, tier):
    s = draw(gen.sig(2, 5, weights=[2, 3, 3, 4, 4, 5]))
    n = len(s)
    return dict(sig=s, vs=[draw(gen.ints(n)) for _ in range(draw(st.sampled_from([0, 2, 2, 4])))], cut=draw(st.booleans()))


def run_motor(case):
    c, r = ctx(case['sig']), ref(case['sig'])
    m = {0: 1.0}
    for v in case['vs']:
        d = {1 << i: float(x) for i, x in enumerate(v)}
        q = r.gp(d, d).get(0, 0)
        if abs(q) < 0.5:
            return ['trivial']
        m = r.scale(r.gp(m, d), 1 / np.sqrt(abs(q)))
    N = r.gp(m, r.rev(m)).get(0, 0)
    b = [e for e in range(2 ** r.n) if gen.grade(e) % 2 == 0 and (not case['cut'] or e in m)]
    x = mk(c, [b, [m.get(e, 0.0) for e in b]])
    same(r.gp(todict(x), todict(x.inverse())), {0: 1.0}, 'inverse of a versor', tol=1e-8)
    if N < 0:
        return ['negative']
    same(x.motor_inverse() * x, {0: 1.0}, 'motor inverse', tol=1e-9)
    same(x * x.motor_inverse(), {0: 1.0}, 'motor inverse', tol=1e-9)
    same(x.motor_inverse(), todict(x.inverse()), 'motor inverse and inverse', tol=1e-7)
    return [f'd{r.n}'] + ([] if case['vs'] else ['trivial'])


SUBS = [
    Sub('grades', case, run, quick=700, thorough=25000, about='unions of grades in fewer than six dimensions: two-sided inverse, division, other methods'),
    Sub('fine', lambda t: case(t, kinds=('subset', 'few', 'few', 'single')), run_fine, quick=500, thorough=20000, about='arbitrary subspaces to which a rule applies'),
    Sub('high', high_case, run_high, quick=100, thorough=2000, about='six to eight dimensions'),
    Sub('motors', motor_case, run_motor, quick=150, thorough=5000, about='versors'),
]
