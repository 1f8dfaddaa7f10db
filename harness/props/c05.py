import numpy as np
from hypothesis import strategies as st
from ..core import Sub
from .. import gen
from ..nv import *
from .c02 import DEF as BINARY
from .c04 import DEF as ANTI
from .c03 import SIGNS, DUALS

ID = 'C05'
RULE = ('an operator name, input subspaces (grades, unions of grades, arbitrary blade sets) and a generated signature; the '
        'operator is evaluated on every combination of input basis blades; non-trivial when some output is nonzero')

UNARY = {k: (lambda r, x, f=f: getattr(r, f)(x)) for k, f in {**SIGNS, **DUALS}.items()}
UNARY['identity'] = lambda r, x: x
UNARY['degenerate'] = lambda r, x: {b: v for b, v in x.items() if any(b >> i & 1 and m == 0 for i, m in enumerate(r.metric))}
UNARY['nondegenerate'] = lambda r, x: {b: v for b, v in x.items() if not any(b >> i & 1 and m == 0 for i, m in enumerate(r.metric))}
BIN = dict(BINARY)
BIN.update(ANTI)
SUBSPACE_PRODUCT = {'geometric_product': 'product', 'wedge_product': 'wedge', 'inner_product': 'inner',
                    'reverse_product': 'reverse_product', 'involute_product': 'involute_product',
                    'conjugate_product': 'conjugate_product', 'scalar_negation_product': 'scalar_negation_product',
                    'pseudoscalar_negation_product': 'pseudoscalar_negation_product',
                    'anti_reverse_product': 'anti_reverse_product'}


def basis_inputs(c, spaces, batch=False):
    """One multivector per input, holding all of its basis blades along its own batch axis"""
    import numpy as np
    k = len(spaces)
    out = []
    for i, s in enumerate(spaces):
        v = np.eye(len(s)).reshape((1,) * i + (len(s),) + (1,) * (k - 1 - i) + (len(s),))
        out.append(c.multivector(subspace=s, values=v))
    return out


def support(mv):
    v = arr(mv)
    return {b for i, b in enumerate(blist(mv.subspace)) if np.any(v[..., i] != 0)}


def expand(mv, n):
    """values on the whole algebra"""
    v = arr(mv)
    out = np.zeros(v.shape[:-1] + (2 ** n,))
    out[..., blist(mv.subspace)] = v
    return out


@st.composite
def binary_case(draw, tier):
    s = draw(gen.sig(2, 5, weights=[2, 2, 2, 3, 3, 3, 4, 4, 4, 5]))
    n = len(s)
    return dict(sig=s, op=draw(st.sampled_from(sorted(BIN))), l=draw(gen.blades(n, cap=20)), r=draw(gen.blades(n, cap=20)))


def run_binary(case):
    c, r = ctx(case['sig']), ref(case['sig'])
    L, R = space(c, case['l']), space(c, case['r'])
    op = getattr(c.algebra.operator, case['op'])(L, R)
    check(op.inputs == (L, R), 'declared inputs')
    out = c.operator(op)(*basis_inputs(c, [L, R]))
    check(out.subspace is op.output, 'result lives in the reported output subspace')
    got = expand(out, r.n)
    # the reference decides which blades can occur
    want = set()
    for i, l in enumerate(blist(L)):
        for j, m in enumerate(blist(R)):
            w = BIN[case['op']](r, {l: 1}, {m: 1})
            w = {b: v for b, v in w.items() if v}
            want |= set(w)
            g = {int(b): got[i, j, b] for b in np.flatnonzero(got[i, j])}
            check(g == w, lambda: f'{case["op"]} of blades {l:b}, {m:b}: got {g} expected {w}')
    check(set(blist(op.output)) == want,
          lambda: f'output of {case["op"]} is {sorted(blist(op.output))}, blades that can occur are {sorted(want)}')
    # sliced from the whole algebra, or what is feasible of it
    F = c.subspace.full() if r.n < 8 else space(c, sorted({b ^ f for b in case['l'] + case['r'] for f in (0, 1, r.I)}))
    full = getattr(c.algebra.operator, case['op'])(F, F)
    for sliced in (full[L, R], full.slice((L, R)), full.slice((L, R)).squeeze()):
        g2 = expand(c.operator(sliced)(*basis_inputs(c, [L, R])), r.n)
        check(np.array_equal(g2, got), f'{case["op"]}: construction on subspaces differs from slicing')
    check(full.slice((L, R)).squeeze().output is op.output, f'{case["op"]}: output differs from the squeezed slice')
    p = SUBSPACE_PRODUCT.get(case['op'])
    if p:
        check(getattr(L, p)(R) is op.output, f'subspace.{p}')
    return [case['op']] + ([] if want else ['trivial'])


@st.composite
def unary_case(draw, tier):
    s = draw(gen.sig(1, 6))
    n = len(s)
    return dict(sig=s, op=draw(st.sampled_from(sorted(UNARY))), l=draw(gen.blades(n)))


def run_unary(case):
    c, r = ctx(case['sig']), ref(case['sig'])
    L = space(c, case['l'])
    op = getattr(c.algebra.operator, case['op'])(L)
    out = c.operator(op)(*basis_inputs(c, [L]))
    check(out.subspace is op.output, 'result lives in the reported output subspace')
    got = expand(out, r.n)
    want = set()
    for i, l in enumerate(blist(L)):
        w = {b: v for b, v in UNARY[case['op']](r, {l: 1}).items() if v}
        want |= set(w)
        g = {int(b): got[i, b] for b in np.flatnonzero(got[i])}
        check(g == w, lambda: f'{case["op"]} of blade {l:b}: got {g} expected {w}')
    check(set(blist(op.output)) == want, f'output of {case["op"]}')
    F = c.subspace.full() if r.n < 8 else space(c, sorted({b ^ f for b in case['l'] for f in (0, 1, r.I)}))
    full = getattr(c.algebra.operator, case['op'])(F)
    g2 = expand(c.operator(full[L])(*basis_inputs(c, [L])), r.n)
    check(np.array_equal(g2, got), f'{case["op"]}: construction on subspaces differs from slicing')
    return [case['op']] + ([] if want else ['trivial'])


def run_large(case):
    """Hundreds of blades in one input: every pair of blades, and the reported output"""
    n = len(case['sig'])
    c, r = ctx(case['sig']), ref(case['sig'])
    big, few = gen.large_blades(n, case['kind'], case['seed']), sorted(case['few'])
    l, m = (big, few) if case['left'] else (few, big)
    L, R = space(c, l), space(c, m)
    names = sorted(BINARY)
    for i in range(2):
        name = names[(case['seed'] * 7 + i * 5) % len(names)]
        op = getattr(c.algebra.operator, name)(L, R)
        K = np.asarray(op.kernel)
        pos = {b: i for i, b in enumerate(blist(op.output))}
        W = np.zeros((len(L), len(R), 2 ** n))
        for i, a in enumerate(blist(L)):
            for j, b in enumerate(blist(R)):
                for k, v in BINARY[name](r, {a: 1}, {b: 1}).items():
                    W[i, j, k] = v
        want = {int(b) for b in np.flatnonzero(np.any(W, axis=(0, 1)))}
        check(set(blist(op.output)) == want, lambda: f'{name}: output differs from the blades that can occur: '
              f'{sorted(want ^ set(blist(op.output)))[:20]}')
        check(np.array_equal(K, W[:, :, blist(op.output)]), f'{name}: kernel')
    name = sorted(UNARY)[case['seed'] % len(UNARY)]
    B = space(c, big)
    op = getattr(c.algebra.operator, name)(B)
    for i, b in enumerate(blist(B)):
        w = {k: v for k, v in UNARY[name](r, {b: 1}).items() if v}
        row = np.asarray(op.kernel[i])
        g = {blist(op.output)[j]: row[j] for j in np.flatnonzero(row)}
        check(g == w, lambda: f'{name} of blade {b:b}: {g} expected {w}')
    return [f'd{n}', case['kind']]


SYMMETRIC = {'squared': 'squared', 'cubed': 'cubed', 'symmetric_reverse_product': 'symmetric_reverse',
             'symmetric_involute_product': 'symmetric_involute', 'symmetric_conjugate_product': 'symmetric_conjugate',
             'symmetric_scalar_negation_product': 'symmetric_scalar_negation',
             'symmetric_pseudoscalar_negation_product': 'symmetric_pseudoscalar_negation'}
SYM_DEF = {
    'squared': lambda r, x: r.gp(x, x), 'cubed': lambda r, x: r.gp(r.gp(x, x), x),
    'symmetric_reverse_product': lambda r, x: r.gp(x, r.rev(x)),
    'symmetric_involute_product': lambda r, x: r.gp(x, r.inv(x)),
    'symmetric_conjugate_product': lambda r, x: r.gp(x, r.conj(x)),
    'symmetric_scalar_negation_product': lambda r, x: r.gp(x, r.sneg(x)),
    'symmetric_pseudoscalar_negation_product': lambda r, x: r.gp(x, r.pneg(x)),
}


@st.composite
def symmetric_case(draw, tier):
    s = draw(gen.sig(1, 5))
    n = len(s)
    name = draw(st.sampled_from(sorted(SYMMETRIC)))
    b = draw(gen.blades(n, cap=8 if name == 'cubed' else 20, empty=False))
    return dict(sig=s, op=name, l=b, x=draw(gen.nz_ints(len(b))))


def run_symmetric(case):
    c, r = ctx(case['sig']), ref(case['sig'])
    L = space(c, case['l'])
    op = getattr(c.algebra.operator, case['op'])(L)
    check(getattr(L, SYMMETRIC[case['op']])() is op.output, f'subspace.{SYMMETRIC[case["op"]]}')
    # a multivector without zero components meets no accidental cancellation in general, so the reported subspace
    # has to cover everything that is nonzero for it
    want = SYM_DEF[case['op']](r, dict(zip(case['l'], case['x'])))
    nz = {b for b, v in want.items() if v}
    check(nz <= set(blist(op.output)), lambda: f'{case["op"]}: {sorted(nz)} occur, reported {sorted(blist(op.output))}')
    # tight for quadratic forms: a blade is possible when its polar form is nonzero for some pair of basis blades
    if case['op'] != 'cubed':
        f = SYM_DEF[case['op']]
        possible = set()
        bl = blist(L)
        q = {b: f(r, {b: 1}) for b in bl}
        for i, a in enumerate(bl):
            possible |= {k for k, v in q[a].items() if v}
            for b in bl[i + 1:]:
                p = r.add(r.add(f(r, {a: 1, b: 1}), q[a], -1), q[b], -1)
                possible |= {k for k, v in p.items() if v}
        check(set(blist(op.output)) == possible,
              lambda: f'{case["op"]}: reported {sorted(blist(op.output))}, possible {sorted(possible)}')
    return [case['op']] + ([] if nz else ['trivial'])


@st.composite
def ternary_case(draw, tier):
    s = draw(gen.sig(1, 4, weights=[1, 2, 2, 3, 3, 3, 4]))
    n = len(s)
    f = gen.mv(n, cap=8 if n < 4 else 6)
    return dict(sig=s, R=draw(f), v=draw(f))


def run_ternary(case):
    c, r = ctx(case['sig']), ref(case['sig'])
    R, v = mk(c, case['R']), mk(c, case['v'])
    dR, dv = dct(case['R']), dct(case['v'])
    want = r.sandwich(dR, dv)
    op = c.algebra.operator.full_sandwich(R.subspace, v.subspace)
    same(call(c, op, R, v, R), want, 'full_sandwich')
    nz = {b for b, x in want.items() if x}
    check(nz <= set(blist(op.output)), 'full_sandwich output is sound')
    if r.n <= 3:
        F = c.subspace.full()
        full = c.algebra.operator.full_sandwich(F, F)
        same(call(c, full.slice((R.subspace, v.subspace, R.subspace)), R, v, R), want, 'sliced full_sandwich')
        g = full[R.subspace, v.subspace, R.subspace].squeeze()
        same(call(c, g, R, v, R), want, 'sliced and squeezed full_sandwich')
    # restricting to the grades of v afterwards or in advance
    grades = {r.grade(b) for b in dv}
    keep = {b: x for b, x in want.items() if r.grade(b) in grades}
    op = c.algebra.operator.sandwich(R.subspace, v.subspace)
    same(call(c, op, R, v, R), keep, 'sandwich')
    check({r.grade(b) for b in blist(op.output)} <= grades, 'sandwich output has the grades of its argument')
    return [] if nonzero(want) else ['trivial']


SUBS = [
    Sub('binary', binary_case, run_binary, quick=2400, thorough=20000, about='28 bilinear operators: output exactly the possible blades; equals the slice of the full operator'),
    Sub('binary_close', lambda t: gen.high(binary_case(t), 9, 10), run_binary, quick=100, thorough=3000, about='the same on blades that differ in their upper byte'),
    Sub('unary', unary_case, run_unary, quick=800, thorough=8000, about='unary operators: output and slicing'),
    Sub('unary_close', lambda t: gen.high(unary_case(t), 9, 10), run_unary, quick=100, thorough=3000, about='the same on blades that differ in their upper byte'),
    Sub('large', lambda t: gen.large(dims=(8, 9, 9), few=2), run_large, quick=10, thorough=300, about='operators with 100 to 512 blades in one input, d 8 and 9: kernel and output'),
    Sub('symmetric', symmetric_case, run_symmetric, quick=1200, thorough=15000, about='operators on equal arguments: output sound and, for quadratic forms, tight'),
    Sub('symmetric_close', lambda t: gen.high(symmetric_case(t), 9, 10), run_symmetric, quick=100, thorough=3000, about='the same on blades that differ in their upper byte'),
    Sub('ternary', ternary_case, run_ternary, quick=800, thorough=8000, about='sandwich operators: output sound; slicing'),
    Sub('ternary_close', lambda t: gen.high(ternary_case(t), 9, 10), run_ternary, quick=100, thorough=3000, about='the same on blades that differ in their upper byte'),
]
