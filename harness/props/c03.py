import itertools
import numpy as np
from hypothesis import strategies as st
from ..core import Sub
from .. import gen
from ..nv import *

ID = 'C03'
RULE = ('a multivector with small integer components on a generated subspace of a generated signature (any order, up to '
        '8 dimensions); non-trivial when it has a nonzero component')

SIGNS = {'reverse': 'rev', 'involute': 'inv', 'conjugate': 'conj', 'scalar_negation': 'sneg',
         'pseudoscalar_negation': 'pneg', 'study_conjugate': 'sneg'}
DUALS = {'right_complement': 'rcomp', 'left_complement': 'lcomp', 'right_complement_dual': 'rcomp_dual',
         'left_complement_dual': 'lcomp_dual', 'right_hodge': 'rhodge', 'left_hodge': 'lhodge', 'dual': 'rhodge',
         'right_hodge_inverse': 'rhodge_inv', 'left_hodge_inverse': 'lhodge_inv', 'dual_inverse': 'rhodge_inv'}


@st.composite
def case(draw, tier):
    s = draw(gen.sig(1, 8, weights=[1, 2, 3, 3, 4, 4, 4, 5, 5, 5, 6, 6, 7, 8]))
    n = len(s)
    return dict(sig=s, x=draw(gen.mv(n, cap=40)))


def run(case):
    c, r = ctx(case['sig']), ref(case['sig'])
    x, d = mk(c, case['x']), dct(case['x'])
    S = x.subspace
    check(np.array_equal(np.ravel(c.algebra.complement(np.asarray(S.blades))), [r.I ^ b for b in blist(S)]), 'algebra.complement of the blades')
    for name, f in {**SIGNS, **DUALS}.items():
        want = getattr(r, f)(d)
        y = getattr(c.operator, name)(S)(x)
        same(y, want, name)
        if name in SIGNS:
            check(y.subspace is S, f'{name} changes the subspace')
        else:
            check(y.subspace is S.complement() and set(blist(y.subspace)) == {r.I ^ b for b in case['x'][0]},
                  f'{name} does not map to the complementary subspace')
    return [f'd{r.n}', f'nulls{case["sig"].count("0")}'] + ([] if nonzero(d) else ['trivial'])


def run_laws(case):
    """Round trips and defining equations within the implementation, and the multivector methods"""
    c, r = ctx(case['sig']), ref(case['sig'])
    x, d = mk(c, case['x']), dct(case['x'])
    o = c.operator
    for m in SIGNS:
        y = getattr(x, m)()
        same(y, getattr(r, SIGNS[m])(d), f'mv.{m}')
        same(getattr(y, m)(), d, f'{m} is an involution')
    same(~x, r.rev(d), '~x')
    same(x.dual(), r.rhodge(d), 'mv.dual')
    same(x.dual_inverse(), r.rhodge_inv(d), 'mv.dual_inverse')
    same(x.dual().dual_inverse(), d, 'dual then inverse')
    same(x.dual_inverse().dual(), d, 'inverse then dual')
    lh = o.left_hodge(x.subspace)(x)
    same(o.left_hodge_inverse(lh.subspace)(lh), d, 'left hodge then inverse')
    li = o.left_hodge_inverse(x.subspace)(x)
    same(o.left_hodge(li.subspace)(li), d, 'inverse then left hodge')
    # defining equations blade by blade
    I = c.subspace.pseudoscalar()
    for b in case['x'][0][:12]:
        e = c.multivector.blade(b)
        S = e.subspace
        one = {r.I: 1}
        same(e ^ o.right_complement_dual(S)(e), one, f'e ^ rdual(e), e={b:b}')
        same(o.left_complement_dual(S)(e) ^ e, one, f'ldual(e) ^ e, e={b:b}')
        sg = {r.I: r.neg(b)}
        same(e ^ o.right_hodge(S)(e), sg, f'e ^ hodge(e), e={b:b}')
        same(o.left_hodge(S)(e) ^ e, sg, f'lefthodge(e) ^ e, e={b:b}')
        if '0' not in case['sig']:
            i = c.multivector.pseudoscalar([1])
            same(o.right_complement(S)(e), e * i, 'right complement is e * I')
            same(o.left_complement(S)(e), i * e, 'left complement is I * e')
    return [] if nonzero(d) else ['trivial']


def run_large(case):
    n = len(case['sig'])
    c, r = ctx(case['sig']), ref(case['sig'])
    m = gen.large_mv(n, case['kind'], case['seed'])
    x, d = mk(c, m), dct(m)
    names = sorted({**SIGNS, **DUALS})
    for i in range(4):
        name = names[(case['seed'] + i * 5) % len(names)]
        want = getattr(r, {**SIGNS, **DUALS}[name])(d)
        same(getattr(c.operator, name)(x.subspace)(x), want, name)
    return [f'd{n}', case['kind']]


SUBS = [
    Sub('signs_and_duals', case, run, quick=1200, thorough=30000, about='16 unary operators against the reference, output subspaces',
        fixed=lambda t: [dict(sig=''.join(s), x=[list(range(2 ** n)), [1 + i for i in range(2 ** n)]])
                         for n in range(1, 5) for s in itertools.product('+-0', repeat=n)]),
    Sub('close', lambda t: gen.high(case(t), 9, 11), run, quick=150, thorough=3000, about='the same on blades that differ in their upper byte'),
    Sub('three_bytes', lambda t: gen.high(case(t), 17, 17), run, quick=16, thorough=300, about='the same in 17 dimensions'),
    Sub('large', lambda t: gen.large(dims=(8, 9, 9)), run_large, quick=24, thorough=500, about='four of the operators on 100 to 1024 components, d 8 and 9'),
    Sub('laws', case, run_laws, quick=500, thorough=10000, about='involutivity, hodge round trips both ways, defining products'),
    Sub('laws_high', lambda t: gen.high(case(t), 9, 10), run_laws, quick=60, thorough=2000, about='laws, d 9 and 10'),
]
