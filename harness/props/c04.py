import itertools
from hypothesis import strategies as st
from ..core import Sub
from .. import gen
from ..nv import *

ID = 'C04'
RULE = ('two multivectors with small integer components on generated subspaces of a generated signature (any order); '
        'non-trivial when one of the products under test is nonzero')

DEF = {
    'anti_geometric_product': lambda r, x, y: r.anti(r.gp, x, y),
    'anti_wedge_product': lambda r, x, y: r.anti(r.wedge, x, y),
    'anti_inner_product': lambda r, x, y: r.anti(r.inner, x, y),
    'anti_scalar_product': lambda r, x, y: r.anti(r.scalar, x, y),
    'anti_left_interior_product': lambda r, x, y: r.anti(r.left_interior, x, y),
    'anti_right_interior_product': lambda r, x, y: r.anti(r.right_interior, x, y),
    'anti_reverse_product': lambda r, x, y: r.anti(lambda a, b: r.gp(a, r.rev(b)), x, y),
    'left_interior_product': lambda r, x, y: r.left_interior(x, y),
    'right_interior_product': lambda r, x, y: r.right_interior(x, y),
    'regressive_product': lambda r, x, y: r.regressive(x, y),
    'cross_product': lambda r, x, y: r.rhodge(r.wedge(x, y)),
    'commutator_anti_product': lambda r, x, y: r.comm(x, y, -1, lambda a, b: r.anti(r.gp, a, b)),
    'anti_commutator_anti_product': lambda r, x, y: r.comm(x, y, +1, lambda a, b: r.anti(r.gp, a, b)),
}
ALIAS = {
    'anti_geometric_product': ['agp', 'anti_product'],
    'anti_wedge_product': ['aop', 'anti_outer', 'anti_wedge', 'anti_outer_product'],
    'anti_inner_product': ['aip', 'anti_inner'],
    'anti_scalar_product': ['asp', 'adp', 'anti_dot', 'anti_dot_product', 'anti_scalar'],
    'anti_left_interior_product': ['alip', 'anti_left_interior'],
    'anti_right_interior_product': ['arip', 'anti_right_interior'],
    'left_interior_product': ['lip', 'left_interior'],
    'right_interior_product': ['rip', 'right_interior'],
    'regressive_product': ['rp', 'regressive'],
    'commutator_anti_product': ['commutator_anti'],
    'anti_commutator_anti_product': ['anti_commutator_anti'],
}
METHOD = {
    'anti_geometric_product': ['anti_product'], 'anti_wedge_product': ['anti_wedge'],
    'anti_inner_product': ['anti_inner'], 'regressive_product': ['regressive', '__and__'],
    'cross_product': ['cross'], 'anti_reverse_product': ['anti_reverse_product'],
    'commutator_anti_product': ['commutator_anti', 'commutator_anti_product'],
    'anti_commutator_anti_product': ['anti_commutator_anti', 'anti_commutator_anti_product'],
}


@st.composite
def case(draw, tier):
    s = draw(gen.sig(1, 6, weights=[1, 2, 3, 3, 4, 4, 4, 5, 5, 6]))
    n = len(s)
    return dict(sig=s, x=draw(gen.mv(n, cap=16)), y=draw(gen.mv(n, cap=16)))


def run(case):
    c, r = ctx(case['sig']), ref(case['sig'])
    x, y = mk(c, case['x']), mk(c, case['y'])
    dx, dy = dct(case['x']), dct(case['y'])
    seen = False
    for name, f in DEF.items():
        want = f(r, dx, dy)
        same(getattr(c.operator, name)(x.subspace, y.subspace)(x, y), want, name)
        seen |= nonzero(want)
    return [f'd{r.n}'] + ([] if seen else ['trivial'])


def run_large(case):
    r, n = ref(case['sig']), len(case['sig'])
    c = ctx(case['sig'])
    big, few = gen.large_mv(n, case['kind'], case['seed']), gen.few_mv(case['few'])
    X, Y = (big, few) if case['left'] else (few, big)
    x, y = mk(c, X), mk(c, Y)
    names = sorted(DEF)
    seen = False
    for i in range(2):
        name = names[(case['seed'] * 7 + i * 5) % len(names)]
        want = DEF[name](r, dct(X), dct(Y))
        same(getattr(c.operator, name)(x.subspace, y.subspace)(x, y), want, name)
        seen |= nonzero(want)
    return [f'd{n}'] + ([] if seen else ['trivial'])


@st.composite
def alias_case(draw, tier):
    s = draw(gen.sig(2, 5))
    n = len(s)
    return dict(sig=s, x=draw(gen.mv(n, cap=16)), y=draw(gen.mv(n, cap=16)), op=draw(st.sampled_from(sorted(DEF))))


def run_alias(case):
    c, r = ctx(case['sig']), ref(case['sig'])
    x, y = mk(c, case['x']), mk(c, case['y'])
    name = case['op']
    want = DEF[name](r, dct(case['x']), dct(case['y']))
    for a in ALIAS.get(name, []):
        same(getattr(c.operator, a)(x.subspace, y.subspace)(x, y), want, f'operator.{a}')
    for a in METHOD.get(name, []):
        same(getattr(x, a)(y), want, f'mv.{a}')
    # through the implementation's own pieces
    if name == 'regressive_product':
        same((x.dual() ^ y.dual()).dual_inverse(), want, 'dual_inverse(dual ^ dual)')
    if name == 'cross_product':
        same((x ^ y).dual(), want, '(x ^ y).dual()')
    return [name] + ([] if nonzero(want) else ['trivial'])


@st.composite
def law_case(draw, tier):
    s = draw(gen.sig(2, 5))
    n = len(s)
    f = gen.mv(n, cap=16, empty=False)
    return dict(sig=s, x=draw(f), y=draw(f), z=draw(f))


def run_law(case):
    c, r = ctx(case['sig']), ref(case['sig'])
    x, y, z = (mk(c, case[k]) for k in 'xyz')
    l = (x & y) & z
    same(l, x & (y & z), 'regressive product is associative')
    i = c.multivector.pseudoscalar([1])
    sg = r.neg(r.I)
    same(x & i, x * sg, 'pseudoscalar is the right unit up to sign')
    same(i & x, x * sg, 'pseudoscalar is the left unit up to sign')
    # De Morgan
    same((x & y).dual(), x.dual() ^ y.dual(), 'dual of the regressive product')
    return [] if nonzero(todict(l)) else ['trivial']


SUBS = [
    Sub('anti_products', case, run, quick=700, thorough=20000, about='thirteen products against the reference, d <= 6',
        fixed=lambda t: [dict(sig=''.join(s), x=[list(range(2 ** n)), [1 + i for i in range(2 ** n)]],
                              y=[list(range(2 ** n)), [3 - i for i in range(2 ** n)]])
                         for n in range(1, 4) for s in itertools.product('+-0', repeat=n)]),
    Sub('close', lambda t: gen.high(case(t), 9, 10), run, quick=60, thorough=2000, about='the same on blades that differ in their upper byte'),
    Sub('large', lambda t: gen.large(dims=(8, 9)), run_large, quick=12, thorough=300, about='two of the products with 100 to 512 components on one side, d 8 and 9'),
    Sub('spellings', alias_case, run_alias, quick=600, thorough=10000, about='aliases, methods, overload &'),
    Sub('regressive_laws', law_case, run_law, quick=400, thorough=10000, about='associativity, unit, duality with the wedge'),
]
