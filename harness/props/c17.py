import numpy as np
from hypothesis import strategies as st
from ..core import Sub
from .. import gen
from ..nv import *
from .c16 import root_exists, study_blades, study_case, element

ID = 'C17'
RULE = ('norms: integer multivectors on any generated subspace, exactly; normalisation: generated even elements and elements whose '
        'squared norm is structurally scalar, with any batch and scale; study norms on generated study numbers; null: subspaces whose '
        'squared norm is structurally zero; non-trivial when the squared norm is positive (or, for null, when the subspace is not empty)')


@st.composite
def square_case(draw, tier):
    s = draw(gen.sig(1, 6, weights=[1, 2, 3, 3, 4, 4, 5, 6]))
    return dict(sig=s, x=draw(gen.mv(len(s), cap=20)))


def run_square(case):
    c, r = ctx(case['sig']), ref(case['sig'])
    x, d = mk(c, case['x']), dct(case['x'])
    want = r.gp(d, r.rev(d))
    y = x.norm_squared()
    same(y, want, 'norm_squared')
    check({b for b, v in want.items() if v} <= set(blist(y.subspace)), 'norm_squared subspace')
    S = x.subspace
    if S.is_study:
        w = {0: r.scalar(d, r.sneg(d)).get(0, 0)}
        same(x.study_norm_squared(), w, 'study_norm_squared')
        if w[0] >= 0:
            same(x.study_norm(), {0: np.sqrt(w[0])}, 'study_norm')
        same(x.study_conjugate(), r.sneg(d), 'study_conjugate')
    else:
        for f in (x.study_norm, x.study_norm_squared):
            try:
                f()
            except Exception:
                continue
            check(False, 'study norm of something which is not a study number')
    # is_study: the square of the nonscalar part is a scalar for all values
    bl = [b for b in d if b]
    st_ = all(not {k for k, v in r.comm({a: 1}, {b: 1}, +1).items() if k and v} for a in bl for b in bl)
    check(S.is_study == st_, lambda: f'is_study is {S.is_study} for blades {sorted(d)}')
    if S.inside.scalar():
        same(x.norm(), {b: abs(v) for b, v in d.items()}, 'norm of a scalar')
    elif y.subspace.is_study:
        ok, _ = root_exists(r, want)
        if ok:
            n = {k: float(v) for k, v in todict(x.norm()).items()}
            same(r.gp(n, n), want, 'square of the norm', tol=1e-7)
            if set(blist(y.subspace)) <= {0}:
                check(n.get(0, 0) >= 0, 'negative norm')
    return [f'd{r.n}'] + ([] if nonzero(want) else ['trivial'])


@st.composite
def unit_case(draw, tier):
    s = draw(gen.sig(2, 5, weights=[2, 3, 3, 4, 4, 4, 5, 5, 5]))
    n = len(s)
    kind = draw(st.sampled_from(['even', 'even', 'even', 'subeven', 'any', 'grade', 'study']))
    if kind == 'even':
        b = [k for k in range(2 ** n) if gen.grade(k) % 2 == 0]
    elif kind == 'subeven':
        b = sorted(set(k for k in draw(gen.blades(n, empty=False)) if gen.grade(k) % 2 == 0) | {0})
    elif kind == 'grade':
        k = draw(st.integers(0, n))
        b = [e for e in range(2 ** n) if gen.grade(e) == k]
    elif kind == 'study':
        b = sorted(study_blades(s, draw(st.lists(st.integers(0, 2 ** n - 1), min_size=1, max_size=5)))) + [0]
    else:
        b = draw(gen.blades(n, cap=8, empty=False, kinds=['few', 'subset', 'single', 'grades']))
    h = draw(st.sampled_from([1, 1, 2, 3]))
    return dict(sig=s, b=b, x=[draw(gen.floats(len(b), 1.0)) for _ in range(h)], boost=draw(st.sampled_from([1.5, 1.5, 0, 3])),
                scale=draw(st.sampled_from([1.0, 2.0, 7.5, 0.125, 1e-3, 1e4, 3e-6, 1e-9, 1e8])))


def run_unit(case):
    c, r = ctx(case['sig']), ref(case['sig'])
    b = case['b']
    V = np.array(case['x'], dtype=float)
    # enlarge one component with a positive square norm
    for i, k in enumerate(b):
        if r.gp({k: 1}, r.rev({k: 1})).get(0, 0) > 0:
            V[:, i] += case['boost']
            break
    S = space(c, b)
    even = all(gen.grade(k) % 2 == 0 for k in b)
    nsq = S.symmetric_reverse()
    if not (even or set(blist(nsq)) == {0}):
        return ['other', 'trivial']
    ds = [dict(zip(b, map(float, v))) for v in V]
    if not blist(nsq):
        return ['null', 'trivial']
    for d in ds:
        N = {k: v for k, v in r.gp(d, r.rev(d)).items() if abs(v) > 1e-14}
        ok, inv = root_exists(r, N)
        if not (ok and inv and N.get(0, 0) > 0.05):
            return ['notpositive', 'trivial']
    x = mk(c, [b, V if len(V) > 1 else V[0]])
    before = x.values.copy()
    u = x.normalized()
    check(np.array_equal(x.values, before), 'input changed')
    check(np.all(np.isfinite(u.values)), lambda: f'not finite: {short(u.values)}')
    check(u.shape == x.shape, 'batch shape')
    one = np.ones(x.shape)
    for idx in np.ndindex(*x.shape):
        e = {k: float(v[idx]) for k, v in todict(u).items()}
        sc = max([1.0] + [abs(v) for v in e.values()]) ** 2
        same(r.gp(e, r.rev(e)), {0: 1.0}, 'u ~u', tol=1e-8 * sc)
        n = {k: float(v[idx]) for k, v in todict(x.norm()).items()}
        f = {k: float(v[idx]) for k, v in todict(x).items()}
        same(r.gp(n, e), f, 'norm times unit', tol=1e-8 * sc)
    m = max(1.0, float(np.max(np.abs(u.values)))) ** 2
    same(u * ~u, {0: one}, 'u ~u', tol=1e-8 * m)
    same(u.normalized(), u, 'normalised again', tol=1e-7 * m)
    same((x * case['scale']).normalized(), u, f"rescaled by {case['scale']}", tol=1e-7 * m)
    # the sign of an element survives
    same((-x).normalized(), -u, 'negated', tol=1e-7 * m)
    return [f'd{r.n}', 'scalarnorm' if set(blist(nsq)) == {0} else 'studynorm']


# ---- structurally null objects
@st.composite
def null_case(draw, tier):
    n = draw(st.integers(1, 5))
    s = draw(st.lists(st.sampled_from('+-00'), min_size=n, max_size=n).map(''.join))
    if '0' not in s:
        i = draw(st.integers(0, n - 1))
        s = s[:i] + '0' + s[i + 1:]
    return dict(sig=s, b=draw(gen.blades(n, cap=6)), x=draw(gen.floats(8, 2.0)), force=draw(st.booleans()))


def run_null(case):
    c, r = ctx(case['sig']), ref(case['sig'])
    z = [i for i, q in enumerate(case['sig']) if q == '0']
    b = case['b']
    if case['force']:      # all blades share one null generator
        b = sorted({k | 1 << z[0] for k in b})
    pairs = any(nonzero(r.add(r.gp({i: 1.0}, r.rev({j: 1.0})), r.gp({j: 1.0}, r.rev({i: 1.0})), 1)) for i in b for j in b)
    x = mk(c, [b, case['x'][:len(b)]])
    if pairs:
        return ['trivial']
    same(x.norm_squared(), {}, 'norm_squared of a null object')
    try:
        u = x.normalized()
    except Exception:
        return [f'd{r.n}'] + ([] if b else ['trivial'])
    check(False, f'a null object was normalised to {u.values}')


def run_study(case):
    c, r = ctx(case['sig']), ref(case['sig'])
    for v in case['v']:
        d = element(case, v)
        x = mk(c, [list(d), list(d.values())])
        ns = {b: w for b, w in d.items() if b}
        want = d.get(0, 0.0) ** 2 - r.gp(ns, ns).get(0, 0.0)
        same(x.study_norm_squared(), {0: want}, 'study_norm_squared', tol=1e-12)
        same(r.gp(d, r.sneg(d)), {0: want}, 'x times its study conjugate', tol=1e-12)
        same(x * x.study_conjugate(), {0: want}, 'x times its study conjugate', tol=1e-12)
        if want >= 0:
            same(x.study_norm(), {0: np.sqrt(want)}, 'study_norm', tol=1e-12)
    return [case['mode']] + ([] if any(case['b']) else ['trivial'])


SUBS = [
    Sub('squares', square_case, run_square, quick=800, thorough=25000, about='squared norms, study norms and norms, exactly'),
    Sub('squares_high', lambda t: gen.high(square_case(t), 9, 10), run_square, quick=100, thorough=3000, about='the same, d 9 and 10'),
    Sub('units', unit_case, run_unit, quick=900, thorough=30000, about='normalisation'),
    Sub('null', null_case, run_null, quick=200, thorough=6000, about='structurally null objects are rejected'),
    Sub('study', study_case, run_study, quick=300, thorough=10000, about='study norms'),
]
