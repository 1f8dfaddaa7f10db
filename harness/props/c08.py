import numpy as np
from hypothesis import strategies as st
from ..core import Sub
from .. import gen
from ..nv import *

ID = 'C08'
RULE = ('definitions: a pair of integer multivectors on generated subspaces; versors: products of 0 to 5 integer vectors of a '
        'generated signature (null vectors and null metrics included), for which the laws hold exactly after multiplying out the '
        'factor R ~R; non-trivial when the transformed value is nonzero')


@st.composite
def def_case(draw, tier):
    s = draw(gen.sig(1, 5, weights=[1, 2, 3, 3, 4, 4, 5]))
    n = len(s)
    cap = 10 if n < 5 else 7
    parity = draw(st.sampled_from([0, 1, 2]))
    R = draw(gen.mv(n, cap=cap))
    if parity < 2:      # an element of one parity
        k = [i for i, b in enumerate(R[0]) if r_par(b) == parity]
        R = [[R[0][i] for i in k], [R[1][i] for i in k]]
    return dict(sig=s, R=R, v=draw(gen.mv(n, cap=10)))


def r_par(b):
    return gen.grade(b) % 2


def run_def(case):
    c, r = ctx(case['sig']), ref(case['sig'])
    R, v = mk(c, case['R']), mk(c, case['v'])
    dR, dv = dct(case['R']), dct(case['v'])
    grades = {r.grade(b) for b in dv}
    on = lambda x: {b: w for b, w in x.items() if r.grade(b) in grades}
    fwd, back = r.sandwich(dR, dv), r.gp(r.gp(r.rev(dR), dv), dR)
    same(c.operator.full_sandwich(R.subspace, v.subspace)(R, v, R), fwd, 'full_sandwich operator')
    same(R.full_sandwich(v), fwd, 'mv.full_sandwich')
    for name, f in dict(sandwich=R.sandwich, rshift=R.__rshift__).items():
        same(f(v), on(fwd), name)
    same(c.operator.sandwich(R.subspace, v.subspace)(R, v, R), on(fwd), 'sandwich operator')
    for name, f in dict(reverse_sandwich=R.reverse_sandwich, lshift=R.__lshift__).items():
        same(f(v), on(back), name)
    same((~R).sandwich(v), on(back), 'sandwich of the reverse')
    par = {r_par(b) for b in dR}
    if len(par) == 1:
        p = par.pop()
        sg = lambda x: {b: w * (-1) ** (p * r.grade(b)) for b, w in x.items()}
        same(R.transform(v), on(r.sandwich(dR, sg(dv))), 'transform')
        same(R.reverse_transform(v), on(r.gp(r.gp(r.rev(dR), sg(dv)), dR)), 'reverse_transform')
        same(c.operator.inverse_transform(R.subspace, v.subspace)(R, v, R), on(r.gp(r.gp(r.rev(dR), sg(dv)), dR)), 'inverse_transform')
    elif len(par) == 2:
        for f in (R.transform, R.reverse_transform):
            try:
                f(v)
            except Exception:
                pass
            else:
                check(False, 'transform accepts an element of mixed parity')
    return [f'd{r.n}'] + ([] if nonzero(fwd) else ['trivial'])


@st.composite
def versor_case(draw, tier):
    s = draw(gen.sig(2, 6, weights=[2, 3, 3, 4, 4, 4, 5, 5, 6] if tier == 'quick' else [2, 3, 3, 4, 4, 5, 5, 6, 6]))
    n = len(s)
    vec = lambda: draw(gen.ints(n))
    k, l = draw(st.integers(0, min(n, 5))), draw(st.integers(0, 3))
    f = gen.mv(n, cap=8, empty=False, kinds=['grade', 'grade', 'few', 'single', 'grades', 'subset'])
    return dict(sig=s, R=[vec() for _ in range(k)], S=[vec() for _ in range(l)], u=draw(f), w=draw(f))


def versor(c, r, vs):
    m = c.multivector.scalar([1])
    d = {0: 1}
    bl = [1 << i for i in range(r.n)]
    N = 1
    for v in vs:
        m = m * mk(c, [bl, v])
        d = r.gp(d, dict(zip(bl, v)))
        N *= sum(g * x * x for g, x in zip(r.metric, v))
    return m, d, N


def run_versor(case):
    c, r = ctx(case['sig']), ref(case['sig'])
    if r.n > 5 and len(case['R']) > 3:
        case = dict(case, R=case['R'][:3])
    R, dR, N = versor(c, r, case['R'])
    S, dS, M = versor(c, r, case['S'])
    u, w = mk(c, case['u']), mk(c, case['w'])
    same(R, dR, 'product of vectors')
    same(R * ~R, {0: N}, 'R ~R is the product of the squares')
    p = len(case['R']) % 2
    # grade preservation
    big = max(1, max([abs(x) for x in dR.values()] + [1])) ** 2 * 64
    f = R.full_sandwich(u)
    same(f, R.sandwich(u), 'full sandwich of a versor preserves grades', scale=big)
    for k in {r.grade(b) for b in case['u'][0]}:
        uk = u.restrict_grade(k)
        fk = R.full_sandwich(uk)
        same({b: x for b, x in todict(fk).items() if r.grade(b) != k}, {}, f'grade {k} is preserved', scale=big)
    # composition
    if len(case['R']) + len(case['S']) <= 6:
        RS = R * S
        same(RS.full_sandwich(u), R.full_sandwich(S.full_sandwich(u)), '(R S)(u) = R(S(u))', scale=big)
        same(RS.sandwich(u), R.sandwich(S.sandwich(u)), 'sandwich composes', scale=big)
    # round trips
    same(R.reverse_sandwich(R.sandwich(u)), u * float(N * N), 'reverse sandwich undoes the sandwich')
    same(R << (R >> u), u * float(N * N), '<< undoes >>')
    same(R >> (R << u), u * float(N * N), '>> undoes <<')
    # products
    Fu, Fw = R.sandwich(u), R.sandwich(w)
    same(Fu * Fw, R.full_sandwich(u * w) * float(N), 'sandwich preserves the geometric product')
    same(Fu ^ Fw, R.sandwich(u ^ w) * float(N), 'sandwich preserves the wedge product')
    same(Fu | Fw, R.sandwich(u | w) * float(N), 'sandwich preserves the inner product')
    # transform
    Tu, Tw = R.transform(u), R.transform(w)
    same(Tu ^ Tw, R.transform(u ^ w) * float(N), 'transform preserves the wedge product')
    same(Tu, {b: x * (-1) ** (p * r.grade(b)) for b, x in todict(Fu).items()}, 'transform is the parity signed sandwich')
    same(R.reverse_transform(Tu), u * float(N * N), 'inverse transform undoes the transform')
    same(R.transform(R.reverse_transform(u)), u * float(N * N), 'transform undoes the inverse transform')
    # as a linear map over the subspace
    same(R.sandwich_map(u.subspace)(u), Fu, 'sandwich_map')
    return [f'k{len(case["R"])}', 'N0' if N == 0 else 'N+' if N > 0 else 'N-'] + ([] if nonzero(todict(Fu)) and len(dR) > 1 else ['trivial'])


@st.composite
def unit_case(draw, tier):
    s = draw(gen.sig(2, 5, weights=[2, 3, 3, 4, 4, 5]))
    n = len(s)
    k = draw(st.integers(1, 5))
    b = draw(st.integers(1, 3))
    return dict(sig=s, R=[[draw(gen.floats(n)) for _ in range(b)] for _ in range(k)], u=draw(gen.blades(n, cap=8, empty=False)),
                x=draw(gen.floats(8 * b)))


def run_unit(case):
    """Batches of normalised versors"""
    c, r = ctx(case['sig']), ref(case['sig'])
    V = c.subspace.vector()
    R = c.multivector.scalar([1])
    k = 0
    for vs in case['R']:
        v = np.array(vs, dtype=float)
        q = (v * v * np.array(r.metric)).sum(-1)
        if np.all(q > 0.05):
            R = R * c.multivector(subspace=V, values=v / np.sqrt(q)[..., None])
            k += 1
    if k == 0:
        return ['trivial']
    u = space(c, case['u'])
    x = np.array(case['x']).reshape(-1, 8)[:, :len(u)]
    u = c.multivector(subspace=u, values=x)
    same(R * ~R, {0: 1.0}, 'R ~R = 1', tol=1e-8, scale=np.max(np.abs(R.values)) ** 2)
    big = (1 + np.max(np.abs(R.values))) ** 4 * 10
    same(R << (R >> u), u, 'undone by the reverse sandwich', tol=1e-10, scale=big)
    same(R.reverse_transform(R.transform(u)), u, 'undone by the inverse transform', tol=1e-10, scale=big)
    f, g = R.sandwich(u), R.full_sandwich(u)
    same(f, g, 'grades are preserved', tol=1e-10, scale=big)
    # element by element
    for i in range(len(case['R'][0])):
        Ri = c.multivector(subspace=R.subspace, values=np.broadcast_to(R.values, f.values.shape[:1] + R.values.shape[-1:])[i])
        same(Ri.sandwich(u[i]), f[i], 'batch element', tol=1e-10, scale=big)
    return [f'k{k}']


SUBS = [
    Sub('definitions', def_case, run_def, quick=1000, thorough=30000, about='sandwich and transform operators against their definitions'),
    Sub('definitions_high', lambda t: gen.high(def_case(t), 9, 10), run_def, quick=160, thorough=2000, about='sandwich and transform operators, d 9 and 10'),
    Sub('versors', versor_case, run_versor, quick=700, thorough=20000, about='structure preservation for exact integer versors'),
    Sub('unit', unit_case, run_unit, quick=300, thorough=8000, about='normalised versors, batched'),
]
