import numpy as np
from hypothesis import strategies as st
from ..core import Sub
from .. import gen
from ..nv import *

ID = 'C16'
RULE = ('study: generated generalised study numbers (a scalar and pairwise anticommuting blades, degenerate ones included, with zero, '
        'numerically scalar and generic values) and the squared norms of even elements; motors: normalised products of unit vectors; '
        'non-trivial when a real root of the returned form exists and the argument is not structurally a scalar')
ASSUMPTIONS = ['roots whose scalar part is below 0.02 of the size of the argument are left out as badly conditioned, unless the argument is zero']


def study_blades(sig, order):
    """Greedy choice of blades which square to a scalar in any combination, in the given order of preference"""
    r = ref(sig)
    out = []
    for b in order:
        if b == 0:
            continue
        if all(not nonzero(r.comm({b: 1}, {e: 1}, +1)) for e in out) and all(e != b for e in out):
            out.append(b)
    return out


@st.composite
def study_case(draw, tier):
    s = draw(gen.sig(1, 5, weights=[1, 2, 2, 3, 3, 4, 4, 5]))
    n = len(s)
    pref = draw(st.lists(st.integers(0, 2 ** n - 1), min_size=0, max_size=8))
    ns = study_blades(s, pref)
    k = draw(st.integers(0, len(ns)))
    ns = ns[:max(k, 1 if ns else 0)]
    b = sorted(ns + ([0] if draw(st.sampled_from([True] * 5 + [False])) else []))
    mode = draw(st.sampled_from(['generic', 'positive', 'positive', 'small', 'noscalar', 'scalar', 'zero', 'large']))
    h = draw(st.sampled_from([1, 1, 2]))
    return dict(sig=s, b=b, mode=mode, v=[draw(gen.floats(len(b), 2.0)) for _ in range(h)])


def root_exists(r, d):
    """(exists, well conditioned): c + ns / (2 c) with c^2 = (s0 + sqrt(s0^2 - ns^2)) / 2"""
    if not nonzero(d):
        return True, False
    s0 = d.get(0, 0.0)
    ns = {b: v for b, v in d.items() if b}
    q = r.gp(ns, ns).get(0, 0.0)
    m = max(abs(v) for v in d.values())
    D = s0 * s0 - q
    if D < 0:
        return False, False
    c2 = (s0 + np.sqrt(D)) / 2
    return bool(c2 > 4e-4 * m), bool(D > 1e-3 * m * m)


def element(case, v):
    mode = case['mode']
    d = dict(zip(case['b'], v))
    for b in d:
        if b == 0:
            d[b] = {'positive': 1 + abs(d[b]), 'noscalar': 0.0, 'scalar': abs(d[b]) + 0.1, 'zero': 0.0, 'large': 1e3 + d[b]}.get(mode, d[b])
        else:
            d[b] = {'scalar': 0.0, 'zero': 0.0, 'small': d[b] * 1e-4, 'positive': d[b] * 0.5, 'large': 1e2 * d[b]}.get(mode, d[b])
    return d


def run_study(case):
    c, r = ctx(case['sig']), ref(case['sig'])
    ds = [element(case, v) for v in case['v']]
    ok = [root_exists(r, d) for d in ds]
    if not case['b'] or not all(o[0] for o in ok):
        return ['noroot', 'trivial']
    b = list(ds[0])
    vals = np.array([[d[k] for k in b] for d in ds], dtype=float)
    if len(ds) == 1:
        vals = vals[0]
    x = mk(c, [b, vals])
    check(x.subspace.is_study, 'a study number is not recognised')
    check_roots(r, c, x, all(o[1] for o in ok))
    same(x, dict(zip(b, np.moveaxis(vals, -1, 0))), 'input changed', tol=0)
    return [case['mode']] + (['degenerate'] if all(case['sig'][j] == '0' for k in b if k for j in [_low(k, case['sig'])]) else []) + ([] if any(b) else ['trivial'])


def _low(k, sig):
    z = [j for j in range(len(sig)) if k >> j & 1 and sig[j] == '0']
    return z[0] if z else [j for j in range(len(sig)) if k >> j & 1][0]


def check_roots(r, c, x, invertible, tol=1e-8):
    with np.errstate(all='ignore'):
        s = x.square_root()
        check(np.all(np.isfinite(s.values)), lambda: f'root is not finite: {short(s.values)}')
        dx = todict(x)
        for idx in np.ndindex(*x.shape):
            m = max([1e-12] + [abs(float(v[idx])) for v in dx.values()])
            at = lambda y: {k: float(v[idx]) / m for k, v in todict(y).items()}
            e = {k: v / np.sqrt(m) for k, v in ((k, float(v[idx])) for k, v in todict(s).items())}
            same(r.gp(e, e), at(x), 'square of the root', tol=tol)
        if len(x.subspace):
            same(s.squared(), dx, 'square of the root', tol=tol)
        if invertible:
            q = x.inverse_square_root()
            for idx in np.ndindex(*x.shape):
                e = {k: float(v[idx]) for k, v in todict(q).items()}
                f = {k: float(v[idx]) for k, v in dx.items()}
                same(r.gp(r.gp(e, f), e), {0: 1.0}, 'r x r', tol=1e-6)
            same(s * q, {0: np.ones(x.shape)}, 'root and inverse root', tol=1e-6)


@st.composite
def norm_case(draw, tier):
    s = draw(gen.sig(2, 5, weights=[2, 3, 4, 4, 4, 5, 5]))
    n = len(s)
    b = draw(gen.blades(n, kinds=['even', 'even', 'grades', 'grade', 'subset', 'few'], empty=False))
    return dict(sig=s, x=[b, draw(gen.floats(len(b), 1.0))], boost=draw(st.sampled_from([0, 1, 2])), unit=draw(st.booleans()))


def run_norm(case):
    """squared norms, as they occur in normalisation, including numerically scalar ones"""
    c, r = ctx(case['sig']), ref(case['sig'])
    d = dct(case['x'])
    if 0 in d:
        d[0] += case['boost']
    x = mk(c, [list(d), list(d.values())])
    N = x.symmetric_reverse_product()
    if not N.subspace.is_study or len(N.subspace) == 0:
        return ['nostudy', 'trivial']
    dn = {k: float(v) for k, v in todict(N).items()}
    ok, inv = root_exists(r, dn)
    if not ok or not inv:
        return ['noroot', 'trivial']
    check_roots(r, c, N, True)
    if case['unit']:      # numerically scalar
        M = (N.square_root().inverse() * x).symmetric_reverse_product()
        if M.subspace.is_study:       # the factor may add blades to those of x
            check_roots(r, c, M, True)
    return [f'd{r.n}'] + ([] if len(N.subspace) > 1 else ['trivial'])


# ---- scalars
@st.composite
def scalar_case(draw, tier):
    return dict(sig=draw(gen.sig(1, 4)), h=draw(st.sampled_from([[], [3], [2, 2], [0]])), e=draw(st.integers(-8, 8)), v=draw(gen.floats(4, 2.0)))


def run_scalar(case):
    c = ctx(case['sig'])
    h = tuple(case['h'])
    v = np.abs(np.array(case['v'][:max(1, int(np.prod(h, dtype=int)))], dtype=float))[:int(np.prod(h, dtype=int))].reshape(h + (1,)) * 10.0 ** case['e']
    x = c.multivector.scalar(v.copy())
    for s in (x.square_root(), x.sqrt()):
        check(s.subspace is x.subspace and s.shape == h, 'subspace or shape')
        check(np.allclose(s.values ** 2, v, rtol=1e-12, atol=0) and np.all(s.values >= 0), 'square root of a scalar')
    pos = np.where(v > 0, v, 1.0)
    y = c.multivector.scalar(pos)
    for q in (y.inverse_square_root(), y.invsqrt()):
        check(q.subspace is x.subspace and np.allclose(q.values ** 2 * pos, 1, rtol=1e-11), 'inverse square root of a scalar')
    check(np.array_equal(x.values, v), 'input changed')
    return ['scalar'] + ([] if np.any(v > 0) else ['trivial'])


# ---- motors
@st.composite
def versor(draw, n, pairs=(1, 2, 2, 3)):
    return [draw(gen.ints(n)) for _ in range(2 * draw(st.sampled_from(pairs)))]


def motor(r, vs):
    """Product of the normalised vectors, and its squared norm; None when a vector has no norm"""
    m = {0: 1.0}
    for v in vs:
        d = {1 << i: float(x) for i, x in enumerate(v)}
        q = r.gp(d, d).get(0, 0)
        if abs(q) < 0.5:
            return None, 0
        m = r.scale(r.gp(m, d), 1 / np.sqrt(abs(q)))
    m = {b: v for b, v in m.items()}
    return m, r.gp(m, r.rev(m)).get(0, 0)


@st.composite
def motor_case(draw, tier):
    s = draw(gen.sig(2, 5, weights=[2, 3, 3, 4, 4, 4, 5, 5]))
    n = len(s)
    return dict(sig=s, l=draw(versor(n)), r=draw(versor(n)), sub=draw(st.sampled_from(['even', 'tight', 'tight', 'even'])))


def on_space(c, m, how):
    n = c.algebra.n_dimensions
    b = sorted(m) if how == 'tight' else [e for e in range(2 ** n) if gen.grade(e) % 2 == 0]
    b = sorted(set(b) | {0})
    return mk(c, [b, [m.get(e, 0.0) for e in b]])


def good_root(r, t):
    """(1 + t) can be normalised"""
    S = r.gp(r.add({0: 1.0}, t), r.add({0: 1.0}, r.rev(t)))
    S = {b: v for b, v in S.items() if abs(v) > 1e-13}
    a, b = root_exists(r, S)
    return a and b and S.get(0, 0) > 0.05


def run_motor(case):
    c, r = ctx(case['sig']), ref(case['sig'])
    l, nl = motor(r, case['l'])
    m, nm = motor(r, case['r'])
    if nl < 0.5 or nm < 0.5 or max(map(abs, list(l.values()) + list(m.values()))) > 20:
        return ['trivial']
    L, R = on_space(c, l, case['sub']), on_space(c, m, 'tight' if case['sub'] == 'tight' else 'even')
    labels = []
    sc = lambda *ds: max(1.0, *(abs(v) for d in ds for v in d.values())) ** 2
    if good_root(r, l):
        s = L.motor_square_root()
        check(all(gen.grade(b) % 2 == 0 for b in blist(s.subspace)), 'root is not even')
        d = {k: float(v) for k, v in todict(s).items()}
        same(r.gp(d, d), l, 'square of the motor root', tol=1e-8, scale=sc(d, l))
        same(r.gp(d, r.rev(d)), {0: 1.0}, 'norm of the motor root', tol=1e-8, scale=sc(d))
        labels.append('root')
    t = r.gp(r.rev(l), m)
    if good_root(r, t):
        g = L.motor_geometric_mean(R)
        d = {k: float(v) for k, v in todict(g).items()}
        k = sc(d, l, m) * 10
        same(r.gp(d, r.rev(d)), {0: 1.0}, 'norm of the mean', tol=1e-8, scale=k)
        a, b = r.gp(r.rev(l), d), r.gp(r.rev(d), m)
        same(a, b, 'steps from and to the mean', tol=1e-8, scale=k)
        same(R.motor_geometric_mean(L), todict(g), 'mean in the other order', tol=1e-8, scale=k)
        labels.append('mean')
    if good_root(r, l) and good_root(r, {0: 1.0}):
        same(L.motor_geometric_mean(L), l, 'mean of a motor and itself', tol=1e-8, scale=sc(l))
    same(L, l, 'input changed', tol=1e-15)
    return labels + ([f'd{r.n}'] if labels and len(l) > 1 else ['trivial'])


SUBS = [
    Sub('study', study_case, run_study, quick=1200, thorough=40000, about='generalised study numbers'),
    Sub('norms', norm_case, run_norm, quick=400, thorough=15000, about='squared norms of generated elements'),
    Sub('scalars', scalar_case, run_scalar, quick=150, thorough=3000, about='scalars'),
    Sub('motors', motor_case, run_motor, quick=400, thorough=15000, about='motor roots and geometric means'),
]
