from hypothesis import strategies as st
from ..core import Sub
from .. import gen
from ..nv import *

ID = 'C02'
RULE = ('two multivectors with small integer components on generated subspaces (grades, unions of grades, arbitrary blade '
        'sets) of a generated signature in any generator order; non-trivial when at least one product other than the '
        'plain geometric one is nonzero')


def bi(k):
    return lambda l, r, o: o == k


DEF = {
    'geometric_product': lambda r, x, y: r.gp(x, y),
    'wedge_product': lambda r, x, y: r.wedge(x, y),
    'inner_product': lambda r, x, y: r.inner(x, y),
    'scalar_product': lambda r, x, y: r.scalar(x, y),
    'left_contraction_product': lambda r, x, y: r.lc(x, y),
    'right_contraction_product': lambda r, x, y: r.rc(x, y),
    'bivector_product': lambda r, x, y: r.gp(x, y, bi(2)),
    'commutator_product': lambda r, x, y: r.comm(x, y, -1),
    'anti_commutator_product': lambda r, x, y: r.comm(x, y, +1),
    'reverse_product': lambda r, x, y: r.gp(x, r.rev(y)),
    'involute_product': lambda r, x, y: r.gp(x, r.inv(y)),
    'conjugate_product': lambda r, x, y: r.gp(x, r.conj(y)),
    'scalar_negation_product': lambda r, x, y: r.gp(x, r.sneg(y)),
    'pseudoscalar_negation_product': lambda r, x, y: r.gp(x, r.pneg(y)),
    'study_conjugate_product': lambda r, x, y: r.gp(x, r.sneg(y)),
}
ALIAS = {
    'geometric_product': ['gp', 'product'],
    'wedge_product': ['op', 'outer', 'wedge', 'outer_product'],
    'inner_product': ['ip', 'inner'],
    'scalar_product': ['sp', 'dp', 'dot', 'scalar', 'dot_product'],
    'left_contraction_product': ['lc', 'left_contract'],
    'right_contraction_product': ['rc', 'right_contract'],
    'commutator_product': ['commutator'],
    'anti_commutator_product': ['anti_commutator'],
}
METHOD = {
    'geometric_product': ['product', '__mul__'],
    'wedge_product': ['wedge', 'outer', '__xor__'],
    'inner_product': ['inner', '__or__'],
    'scalar_product': ['scalar_product'],
    'left_contraction_product': ['left_contract'],
    'right_contraction_product': ['right_contract'],
    'bivector_product': ['bivector_product'],
    'commutator_product': ['commutator', 'commutator_product'],
    'anti_commutator_product': ['anti_commutator', 'anti_commutator_product'],
    'reverse_product': ['reverse_product'], 'involute_product': ['involute_product'],
    'conjugate_product': ['conjugate_product'], 'scalar_negation_product': ['scalar_negation_product'],
    'pseudoscalar_negation_product': ['pseudoscalar_negation_product'],
}


@st.composite
def case(draw, tier):
    s = draw(gen.sig(2, 6, weights=[2, 3, 3, 4, 4, 4, 5, 5, 6]))
    n = len(s)
    return dict(sig=s, x=draw(gen.mv(n, cap=20)), y=draw(gen.mv(n, cap=20)))


@st.composite
def big_case(draw, tier):
    n = draw(st.sampled_from([7, 8, 9, 10]))
    s = draw(gen.sig(n, n))
    f = gen.mv(n, kinds=['few'], values=gen.nz_ints, empty=False)
    return dict(sig=s, x=draw(f), y=draw(f))


def run(case):
    c, r = ctx(case['sig']), ref(case['sig'])
    x, y = mk(c, case['x']), mk(c, case['y'])
    dx, dy = dct(case['x']), dct(case['y'])
    seen = False
    for name, f in DEF.items():
        want = f(r, dx, dy)
        same(getattr(c.operator, name)(x.subspace, y.subspace)(x, y), want, name)
        seen |= name != 'geometric_product' and nonzero(want)
    return [f'd{r.n}'] + ([] if seen else ['trivial'])


def run_large(case):
    r, n = ref(case['sig']), len(case['sig'])
    c = ctx(case['sig'])
    big, few = gen.large_mv(n, case['kind'], case['seed']), gen.few_mv(case['few'])
    X, Y = (big, few) if case['left'] else (few, big)
    x, y = mk(c, X), mk(c, Y)
    names = sorted(DEF)
    seen = False
    for i in range(3):
        name = names[(case['seed'] * 7 + i * 5) % len(names)]
        want = DEF[name](r, dct(X), dct(Y))
        same(getattr(c.operator, name)(x.subspace, y.subspace)(x, y), want, name)
        seen |= nonzero(want)
    return [f'd{n}'] + ([] if seen else ['trivial'])


@st.composite
def alias_case(draw, tier):
    s = draw(gen.sig(3, 5))
    n = len(s)
    return dict(sig=s, x=draw(gen.mv(n, cap=16)), y=draw(gen.mv(n, cap=16)), op=draw(st.sampled_from(sorted(DEF))),
                out=draw(gen.blades(n)))


def run_alias(case):
    c, r = ctx(case['sig']), ref(case['sig'])
    x, y = mk(c, case['x']), mk(c, case['y'])
    dx, dy = dct(case['x']), dct(case['y'])
    name = case['op']
    want = DEF[name](r, dx, dy)
    for a in ALIAS.get(name, []):
        same(getattr(c.operator, a)(x.subspace, y.subspace)(x, y), want, f'operator.{a}')
        same(call(c, getattr(c.algebra.operator, a)(x.subspace, y.subspace), x, y), want, f'algebra.operator.{a}')
    for a in METHOD.get(name, []):
        same(getattr(x, a)(y), want, f'mv.{a}')
    g = r.gp(dx, dy)
    o = space(c, case['out'])
    keep = {b: v for b, v in g.items() if b in set(case['out'])}
    p = c.operator.n_product(x.subspace, y.subspace, o)(x, y)
    same(p, keep, 'n_product')
    check(p.subspace in o, 'n_product output outside of the requested subspace')
    same(x.trivector_product(y), r.gp(dx, dy, bi(3)), 'trivector_product')
    return [name] + ([] if nonzero(want) else ['trivial'])


SUBS = [
    Sub('products', case, run, quick=900, thorough=30000, about='fifteen products on one pair of multivectors, d <= 6'),
    Sub('products_wide', big_case, run, quick=100, thorough=2000, about='the same in 7 to 10 dimensions, few blades'),
    Sub('products_close', lambda t: gen.high(case(t), 9, 10), run, quick=100, thorough=3000, about='the same on blades that differ in their upper byte'),
    Sub('twelve', lambda t: gen.high(case(t), 12, 12), run, quick=16, thorough=200, about='the same in 12 dimensions'),
    Sub('large', lambda t: gen.large(), run_large, quick=16, thorough=400, about='three of the products with 100 to 1024 components on one side, d 8 to 10'),
    Sub('spellings', alias_case, run_alias, quick=900, thorough=20000, about='aliases, methods and overloads; chosen-output product'),
    Sub('spellings_high', lambda t: gen.high(alias_case(t), 9, 10), run_alias, quick=100, thorough=3000, about='aliases, methods and overloads, d 9 and 10'),
]
