import numpy as np
from hypothesis import strategies as st
from ..core import Sub
from .. import gen
from ..nv import *
from .c16 import motor, versor, study_blades

ID = 'C29'
RULE = ('motors generated as products of unit vectors, perturbed on the even (or a generated even) subspace and scaled; study numbers with a '
        'dominant scalar part; the oracle is the binomial series of the inverse square root, by the reference product; non-trivial when the '
        'perturbed element has a squared norm which is not a scalar, or is not one')
ASSUMPTIONS = ['near a motor means: the nonscalar part of the squared norm has a sum of absolute values below 0.35 of its scalar part',
               'without the initial scalar normalisation, the scalar part of the squared norm is between 0.5 and 2']


def inverse_root(r, s):
    """s^(-1/2) for s with dominant positive scalar part"""
    s0 = s[0]
    d = {k: -v / s0 for k, v in s.items() if k}
    out, term = {0: 1.0}, {0: 1.0}
    for k in range(1, 120):
        term = r.scale(r.gp(term, d), (2 * k - 1) / (2 * k))
        if not any(abs(v) > 1e-18 for v in term.values()):
            break
        out = r.add(out, term)
    return r.scale(out, s0 ** -0.5)


@st.composite
def motor_case(draw, tier):
    s = draw(gen.sig(1, 5, weights=[1, 2, 3, 3, 4, 4, 4, 4, 5, 5, 5]))
    n = len(s)
    h = draw(st.sampled_from([[], [], [1], [2], [3], [2, 2], [0]]))
    k = max(1, int(np.prod(h, dtype=int)))
    even = [b for b in range(2 ** n) if gen.grade(b) % 2 == 0]
    # a perturbation on fewer blades is on the even subspace all the same
    noise = draw(st.sampled_from([0.0, 0.02, 0.05, 0.1, 0.2, 0.3]))
    return dict(sig=s, h=h, vs=[draw(versor(n)) for _ in range(k)], noise=[noise, draw(gen.floats(len(even) * k, 1.0))],
                scale=draw(st.lists(st.sampled_from([1.0, 1.0, 0.5, 2.0, 8.0, 0.1, 100.0, 1e-3]), min_size=k, max_size=k)),
                inner=draw(st.sampled_from([6, 6, 8])), outer=draw(st.sampled_from([2, 2, 3])), scalar=draw(st.sampled_from([True, True, True, False])),
                backend=draw(st.sampled_from(['default', 'sparse'])))


def run_motor(case):
    from numga.multivector.numerical_normalize import normalize_motor
    from numga.backend.numpy import operator as o
    c = ctx(case['sig'], otype=o.NumpySparseOperator if case['backend'] == 'sparse' else None)
    r = ref(case['sig'])
    n = r.n
    even = gen.order_canonical([b for b in range(2 ** n) if gen.grade(b) % 2 == 0])
    eps, noise = case['noise']
    es, ws = [], []
    size, far = 1.0, False
    for t, vs in enumerate(case['vs']):
        m, q = motor(r, vs)
        if m is None or q < 0.5:
            # replace by the unit, so that the other elements of a batch are still tested
            m = {0: 1.0}
        top = max(map(abs, m.values()))
        e = {b: m.get(b, 0.0) + eps * noise[t * len(even) + i] for i, b in enumerate(even)}
        sc = case['scale'][t] if case['scalar'] else 1.0
        e = r.scale(e, sc)
        N = r.gp(e, r.rev(e))
        n0 = N.get(0, 0.0)
        if n0 <= 0 or sum(abs(v) for k, v in N.items() if k) > 0.35 * n0 or not (case['scalar'] or 0.5 < n0 < 2):
            e = {b: float(b == 0) for b in even}
            N = {0: 1.0}
        w = r.gp(inverse_root(r, N), e)
        size = max([size] + [abs(v) for v in w.values()])
        if any(abs(v) > 1e-6 for k, v in N.items() if k) or abs(N[0] - 1) > 1e-6:
            far = True
        es.append(e)
        ws.append(w)
    h = tuple(case['h'])
    V = np.array([[e[b] for b in even] for e in es])
    V = V.reshape(h + (len(even),)) if int(np.prod(h, dtype=int)) else np.zeros(h + (len(even),))
    x = c.multivector(subspace=c.subspace.even_grade(), values=V)
    before = x.values.copy()
    kw = dict(inner=case['inner'], outer=case['outer'], scalar_norm=case['scalar'])
    if case['inner'] == 6 and case['outer'] == 2 and case['scalar']:
        kw = {}
    y = normalize_motor(x, **kw)
    check(np.array_equal(x.values, before), 'input changed')
    check(tuple(y.shape) == h, lambda: f'batch {y.shape}, expected {h}')
    check(set(blist(y.subspace)) <= set(even) , 'a normalised motor is even')
    if not V.size:
        return ['empty', 'trivial']
    tol = 1e-8 * size ** 2
    z = todict(y)
    cf = todict(x.normalized())
    for t, idx in enumerate(np.ndindex(*h)):
        e = {k: float(v[idx]) for k, v in z.items()}
        same(r.gp(e, r.rev(e)), {0: 1.0}, f'm ~m at {idx}', tol=tol, scale=1)
        same(e, ws[t], f'normalised motor at {idx}', tol=tol, scale=1)
        same(e, {k: float(v[idx]) for k, v in cf.items()}, f'closed form normalisation at {idx}', tol=tol, scale=1)
        if h:
            u = normalize_motor(x[idx], **kw)
            same(e, {k: float(v) for k, v in todict(u).items()}, f'element {idx} of the batch', tol=tol, scale=1)
    # a motor is left as it is
    same(normalize_motor(y, **kw), y, 'normalised again', tol=tol, scale=1)
    return [f'd{n}', 'batch' if h else 'single', 'scalar' if case['scalar'] else 'noscalar'] + ([] if far else ['trivial'])


@st.composite
def sandwich_case(draw, tier):
    s = draw(gen.sig(1, 5, weights=[1, 2, 3, 4, 4, 4, 5, 5, 5]))
    n = len(s)
    kind = draw(st.sampled_from(['mod4', 'mod4', 'mod4', 'even', 'some']))
    if kind == 'mod4':
        b = [k for k in range(2 ** n) if gen.grade(k) in (0, 4)]
    elif kind == 'even':
        b = [k for k in range(2 ** n) if gen.grade(k) in (0, 4) and draw(st.booleans())]
    else:
        one = draw(st.sampled_from([k for k in range(2 ** n) if gen.grade(k) % 4 in (0, 1)]))
        b = [one]
    b = gen.order_canonical(set(b) | {0})
    h = draw(st.sampled_from([[], [], [1], [2], [3], [2, 2]]))
    k = max(1, int(np.prod(h, dtype=int)))
    return dict(sig=s, b=b, h=h, v=[draw(gen.floats(len(b), 1.0)) for _ in range(k)], size=draw(st.sampled_from([0.0, 0.05, 0.2, 0.34])),
                s0=[draw(st.sampled_from([1.0, 0.5, 2.0, 0.8, 1.4, 0.3, 3.0])) for _ in range(k)], it=draw(st.sampled_from([None, 8, 10])))


def run_sandwich(case):
    from numga.multivector.numerical_normalize import inverse_sandwich
    c, r = ctx(case['sig']), ref(case['sig'])
    b = case['b']
    rows, ws = [], []
    for v, s0 in zip(case['v'], case['s0']):
        if case['it'] is None:
            s0 = min(max(s0, 0.5), 2.0)     # six iterations are enough near one
        l1 = sum(abs(q) for q in v[1:]) or 1.0
        d = {k: s0 * case['size'] * q / l1 for k, q in zip(b, v)}
        d[0] = s0
        rows.append([d[k] for k in b])
        ws.append(d)
    h = tuple(case['h'])
    x = c.multivector(subspace=space(c, b), values=np.array(rows).reshape(h + (len(b),)))
    before = x.values.copy()
    y = inverse_sandwich(x) if case['it'] is None else inverse_sandwich(x, n_iter=case['it'])
    check(np.array_equal(x.values, before), 'input changed')
    check(y.subspace is x.subspace and tuple(y.shape) == h, 'subspace or batch shape')
    z = todict(y)
    for t, idx in enumerate(np.ndindex(*h)):
        e = {k: float(v[idx]) for k, v in z.items()}
        same(r.gp(r.gp(e, ws[t]), r.rev(e)), {0: 1.0}, f'x s ~x at {idx}', tol=1e-8)
        same(e, inverse_root(r, ws[t]), f'inverse root at {idx}', tol=1e-8)
        if h:
            u = inverse_sandwich(x[idx]) if case['it'] is None else inverse_sandwich(x[idx], n_iter=case['it'])
            same(e, {k: float(v) for k, v in todict(u).items()}, f'element {idx} of the batch', tol=1e-10)
    return [f'd{r.n}', f'{len(b)} blades'] + ([] if any(abs(d[0] - 1) > 1e-6 or any(v for k, v in d.items() if k) for d in ws) else ['trivial'])


SUBS = [
    Sub('motor', motor_case, run_motor, quick=1200, thorough=30000, about='normalize_motor near motors'),
    Sub('sandwich', sandwich_case, run_sandwich, quick=1200, thorough=30000, about='inverse_sandwich of positive self-reverse study numbers'),
]
