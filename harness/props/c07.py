import numpy as np
from hypothesis import strategies as st
from ..core import Sub
from .. import gen
from ..nv import *
from .c05 import SYM_DEF

ID = 'C07'
RULE = ('a multivector with small integer components on a generated subspace of a generated signature, passed to every argument '
        'slot of the simplified operator; non-trivial when the value is nonzero')

QUAD = dict(SYM_DEF)
QUAD.pop('cubed')
QUAD['symmetric_study_conjugate_product'] = lambda r, x: r.gp(x, r.sneg(x))
QUAD['study_norm_squared'] = lambda r, x: r.scalar(x, r.sneg(x))


def rfac(r, x, f):
    return r.gp(r.rev(x), f(r.gp(x, r.rev(x))))


HIGH = {
    'cubed': (3, lambda r, x: r.gp(r.gp(x, x), x)),
    'inverse_factor': (3, lambda r, x: rfac(r, x, r.conj)),
    'inverse_factor_alt': (3, lambda r, x: rfac(r, x, r.sneg)),
    'inverse_factor_completed': (4, lambda r, x: r.gp(r.gp(x, r.rev(x)), r.conj(r.gp(x, r.rev(x))))),
    'inverse_factor_completed_alt': (4, lambda r, x: r.gp(r.gp(x, r.rev(x)), r.sneg(r.gp(x, r.rev(x))))),
}
METHOD2 = ['squared', 'symmetric_reverse_product', 'symmetric_involute_product', 'symmetric_conjugate_product',
           'symmetric_scalar_negation_product', 'symmetric_pseudoscalar_negation_product']


def sound(op, want):
    check({b for b, v in want.items() if v} <= set(blist(op.output)), 'a component that can be nonzero is missing from the output')


@st.composite
def quad_case(draw, tier):
    s = draw(gen.sig(1, 6, weights=[1, 2, 3, 3, 4, 4, 5, 5, 6]))
    n = len(s)
    return dict(sig=s, x=draw(gen.mv(n, cap=24, values=lambda k: st.one_of(gen.ints(k), gen.nz_ints(k)))))


def run_quad(case):
    c, r = ctx(case['sig']), ref(case['sig'])
    x, d = mk(c, case['x']), dct(case['x'])
    seen = False
    for name, f in QUAD.items():
        want = f(r, d)
        op = getattr(c.operator, name)(x.subspace)
        sound(op, want)
        same(op(x, x), want, name)
        seen |= nonzero(want)
    for m in METHOD2:
        same(getattr(x, m)(), QUAD[m](r, d), f'mv.{m}')
    same(x * x, QUAD['squared'](r, d), 'x * x')
    # an element equal in value, as another object
    y = x.copy()
    same(c.operator.squared(x.subspace)(x, y), QUAD['squared'](r, d), 'squared of equal objects')
    return [f'd{r.n}'] + ([] if seen else ['trivial'])


@st.composite
def high_case(draw, tier):
    name = draw(st.sampled_from(sorted(HIGH)))
    s = draw(gen.sig(1, 5, weights=[1, 2, 3, 3, 4, 4, 5]))
    n = len(s)
    cap = (8 if len(s) < 5 else 7) if HIGH[name][0] == 4 else (16 if len(s) < 5 else 11)
    return dict(sig=s, op=name, x=draw(gen.mv(n, cap=cap, values=lambda k: st.one_of(gen.ints(k), gen.nz_ints(k)))))


def run_high(case):
    c, r = ctx(case['sig']), ref(case['sig'])
    x, d = mk(c, case['x']), dct(case['x'])
    name = case['op']
    k, f = HIGH[name]
    want = f(r, d)
    op = getattr(c.operator, name)(x.subspace)
    check(op.arity == k, f'{name} arity')
    sound(op, want)
    same(op(*[x] * k), want, name)
    if name == 'inverse_factor':
        same(x.inverse_factor(), want, 'mv.inverse_factor')
    if name == 'inverse_factor_completed_alt':
        check(x.subspace.symmetric_alt_product() is op.output, 'subspace.symmetric_alt_product')
    if name in ('inverse_factor', 'inverse_factor_alt') and len(d) <= 8:
        # completed on the left: x * factor(x)
        o = c.algebra.operator
        q = getattr(o, name)(x.subspace)
        full = o.complete_op(x.subspace, q)
        sound(full, r.gp(d, want))
        same(call(c, full, x, x, x, x), r.gp(d, want), f'complete_op of {name}')
    return [name, f'd{r.n}'] + ([] if nonzero(want) else ['trivial'])


OPS = {'reverse': 'rev', 'conjugate': 'conj', 'involute': 'inv', 'scalar_negation': 'sneg', 'pseudoscalar_negation': 'pneg'}


@st.composite
def compose_case(draw, tier):
    s = draw(gen.sig(1, 5, weights=[1, 2, 3, 3, 4, 4, 5]))
    n = len(s)
    f = st.sampled_from(sorted(OPS))
    return dict(sig=s, a=draw(f), b=draw(f), x=draw(gen.mv(n, cap=10, values=gen.nz_ints)))


def run_compose(case):
    c, r = ctx(case['sig']), ref(case['sig'])
    x, d = mk(c, case['x']), dct(case['x'])
    o = c.algebra.operator
    ra, rb = (getattr(r, OPS[k]) for k in (case['a'], case['b']))
    oa, ob = getattr(o, case['a']), getattr(o, case['b'])
    want = r.gp(ra(d), rb(r.gp(d, ra(d))))
    op = o.compose_symmetry_ops(x.subspace, oa, ob)
    sound(op, want)
    same(call(c, op, x, x, x), want, f'compose_symmetry_ops({case["a"]}, {case["b"]})')
    return [case['a'], case['b']] + ([] if nonzero(want) else ['trivial'])


@st.composite
def inertia_case(draw, tier):
    s = draw(gen.sig(2, 4, weights=[2, 3, 3, 4, 4, 4]))
    n = len(s)
    return dict(sig=s, l=draw(gen.mv(n, cap=8, values=gen.nz_ints, kinds=['grade', 'grade', 'grade', 'grades', 'subset', 'few'])),
                r=draw(gen.mv(n, cap=8, values=gen.nz_ints, kinds=['grade', 'grade', 'grade', 'grades', 'subset', 'few'])))


def run_inertia(case):
    c, r = ctx(case['sig']), ref(case['sig'])
    x, y = mk(c, case['l']), mk(c, case['r'])
    dx, dy = dct(case['l']), dct(case['r'])
    want = r.regressive(dx, r.comm(dx, dy))
    op = c.operator.inertia(x.subspace, y.subspace)
    sound(op, want)
    same(op(x, x, y), want, 'inertia')
    same(x & x.commutator(y), want, 'x & x.commutator(y)')
    if all(r.grade(b) == 2 for b in dy):
        im = x.inertia_map(y.subspace)
        same(im(y), want, 'inertia_map')
    nul = [i for i, m in enumerate(case['sig']) if m == '0']
    deg = lambda b: any(b >> i & 1 for i in nul)
    w2 = {b: v for b, v in r.gp(dx, r.rev({b: v for b, v in dx.items() if not deg(b)})).items() if r.grade(b) == 2 and deg(b)}
    f = c.operator.euclidian_factorization(x.subspace)
    sound(f, w2)
    same(f(x, x), w2, 'euclidian_factorization')
    return [] if nonzero(want) else ['trivial']


@st.composite
def manual_case(draw, tier):
    s = draw(gen.sig(2, 4, weights=[2, 3, 3, 4]))
    n = len(s)
    f = st.sampled_from(['geometric_product', 'wedge_product', 'inner_product', 'regressive_product', 'reverse_product',
                         'commutator_product', 'conjugate_product'])
    return dict(sig=s, p=draw(f), q=draw(f), x=draw(gen.mv(n, cap=8, values=gen.nz_ints)),
                y=draw(gen.mv(n, cap=6)), axes=draw(st.sampled_from(['01', '02', '12', '012'])))


def run_manual(case):
    """Operator.symmetry on an arbitrary trilinear operator"""
    from .c02 import DEF
    from .c04 import DEF as ANTI
    D = {**DEF, **ANTI}
    c, r = ctx(case['sig']), ref(case['sig'])
    x, y = mk(c, case['x']), mk(c, case['y'])
    dx, dy = dct(case['x']), dct(case['y'])
    axes = tuple(int(i) for i in case['axes'])
    args = [x if i in axes else y for i in range(3)]
    ds = [dx if i in axes else dy for i in range(3)]
    o = c.algebra.operator
    sp = [a.subspace for a in args]
    op = getattr(o, case['q'])(getattr(o, case['p'])(sp[0], sp[1]), sp[2])
    want = D[case['q']](r, D[case['p']](r, ds[0], ds[1]), ds[2])
    s = op.symmetry(axes)
    sound(s, want)
    check(s.output in op.output, 'symmetry enlarges the output')
    same(call(c, s, *args), want, f'symmetry{axes}')
    same(call(c, op, *args), want, 'operator without symmetry')
    return [case['axes']] + ([] if nonzero(want) else ['trivial'])


SUBS = [
    Sub('quadratic', quad_case, run_quad, quick=1500, thorough=40000, about='squares and involution norms, operators and methods'),
    Sub('higher', high_case, run_high, quick=700, thorough=20000, about='cube, inverse factors and completed forms'),
    Sub('higher_high', lambda t: gen.high(high_case(t), 9, 10), run_high, quick=60, thorough=2000, about='the same, d 9 and 10'),
    Sub('composed', compose_case, run_compose, quick=400, thorough=10000, about='compose_symmetry_ops for every pair of involutions'),
    Sub('inertia', inertia_case, run_inertia, quick=500, thorough=10000, about='point inertia and euclidian factorisation'),
    Sub('symmetry', manual_case, run_manual, quick=500, thorough=10000, about='Operator.symmetry over any argument positions of trilinear operators'),
    Sub('quadratic_high', lambda t: gen.high(quad_case(t)), run_quad, quick=200, thorough=3000, about='squares and involution norms, d 9 to 11'),
    Sub('symmetry_high', lambda t: gen.high(manual_case(t), 9, 10), run_manual, quick=60, thorough=2000, about='Operator.symmetry, d 9 and 10'),
]
