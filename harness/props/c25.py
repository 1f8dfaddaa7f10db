import numpy as np
from hypothesis import strategies as st
from ..core import Sub
from .. import gen
from ..nv import *
from .c02 import DEF as BINARY
from .c04 import DEF as ANTI
from .c03 import SIGNS, DUALS
from .c21 import BINF, UNF

ID = 'C25'
RULE = ('an algebra next to the same algebra with its generators declared in another order and under other names; inputs are carried over '
        'blade by blade (with the sign of the reordering), operations are done on both sides, and results carried back; non-trivial '
        'when the order differs and the result has a nonzero component that is not a scalar')
ASSUMPTIONS = ['nonlinear functions are compared up to a tolerance derived from their response to small perturbations of the input, '
               'and not at all where that response is not finite']

LINEAR = {**{k: 0 for k in SIGNS}, **{k: 1 for k in DUALS}, 'degenerate': 0, 'nondegenerate': 0, 'identity': 0}
ORIENTED = {k for k in ANTI if k.startswith('anti_') or k in ('regressive_product', 'cross_product', 'commutator_anti_product')}
BIN = {**{k: 0 for k in BINARY}, **{k: int(k in ORIENTED) for k in ANTI}}


class Map:
    """From an algebra to the one with generators in the order given by perm: generator i is declared at place perm[i]"""
    def __init__(self, perm):
        self.p = perm
        self.n = len(perm)
        self.t = {}
        for b in range(2 ** self.n):
            seq = [perm[i] for i in range(self.n) if b >> i & 1]
            inv = sum(x > y for k, x in enumerate(seq) for y in seq[k + 1:])
            self.t[b] = (sum(1 << k for k in seq), -1 if inv % 2 else 1)
        self.eps = self.t[2 ** self.n - 1][1]

    def fwd(self, d, s=1):
        return {self.t[b][0]: v * self.t[b][1] * s for b, v in d.items()}

    def blades(self, bl):
        return {self.t[b][0] for b in bl}


@st.composite
def setup(draw, lo, hi, weights):
    s = draw(gen.sig(lo, hi, weights=weights))
    n = len(s)
    perm = list(draw(st.permutations(range(n))))
    names = list(draw(st.permutations(gen.NAMES)))[:n]
    return s, perm, names


def pair(case):
    sig, perm = case['sig'], case['perm']
    other = [None] * len(sig)
    for i, p in enumerate(perm):
        other[p] = sig[i]
    other = ''.join(other)
    return ctx(sig), ctx(other, names=case['names']), Map(perm)


def carry(c2, m, d):
    e = m.fwd(d)
    b = list(e)
    if not b:
        return c2.multivector(subspace=c2.subspace.empty())
    return mk(c2, [b, np.stack(np.broadcast_arrays(*[np.asarray(e[k], dtype=float) for k in b]), axis=-1)])


@st.composite
def linear_case(draw, tier):
    s, perm, names = draw(setup(1, 6, [2, 2, 3, 3, 4, 4, 5, 6]))
    n = len(s)
    kind = draw(st.sampled_from(['u', 'b', 'b', 'b', 's']))
    op = draw(st.sampled_from({'u': sorted(LINEAR), 'b': sorted(BIN), 's': ['sandwich', 'full_sandwich', 'reverse_sandwich', 'inverse_factor', 'squared',
                               'transform', 'inverse_transform']}[kind]))
    cap = 12 if kind != 's' else 6
    return dict(sig=s, perm=perm, names=names, kind=kind, op=op, x=draw(gen.mv(n, cap=cap)), y=draw(gen.mv(n, cap=cap)))


def run_linear(case):
    c, c2, m = pair(case)
    n = len(case['sig'])
    op, kind = case['op'], case['kind']
    if n == 1 and op == 'bivector_product':
        return ['trivial']
    dx, dy = dct(case['x']), dct(case['y'])

    def f(c, x, y):
        o = getattr(c.operator, op)
        if kind == 'u':
            return o(x.subspace)(x) if op != 'identity' else x
        if kind == 'b':
            return o(x.subspace, y.subspace)(x, y)
        if op == 'squared':
            return o(x.subspace)(x, x)
        if op == 'inverse_factor':
            return o(x.subspace)(*[x] * o(x.subspace).arity)
        return o(x.subspace, y.subspace)(x, y, x)
    try:
        want = f(c, mk(c, case['x']), mk(c, case['y']))
    except Exception as e:
        want = type(e).__name__
    x2, y2 = carry(c2, m, dx), carry(c2, m, dy)
    try:
        got = f(c2, x2, y2)
    except Exception as e:
        got = type(e).__name__
    if isinstance(want, str) or isinstance(got, str):
        check(isinstance(got, str) and isinstance(want, str), lambda: f'{op}: {want if isinstance(want, str) else "gives a result"}, reordered: {got}')
        check(kind == 's', lambda: f'{op}: {want}')
        return ['trivial']
    k = {**LINEAR, **BIN}.get(op, 0)
    w = m.fwd(todict(want), m.eps if k else 1)
    same(got, w, op, tol=1e-9)
    check(set(blist(got.subspace)) == m.blades(blist(want.subspace)), lambda: f'{op}: subspace {blist(got.subspace)}, expected {sorted(m.blades(blist(want.subspace)))}')
    moved = any(p != i for i, p in enumerate(case['perm']))
    return [kind] + ([] if moved and any(v and b for b, v in w.items()) else ['trivial'])


NONLINEAR = sorted(k for k in UNF if k not in ('basis', 'mixed', 'dual', 'dual_inverse', 'repeat', 'flatten', 'first', 'sum', 'mean', 'set', 'set_mv',
                                               'concat', 'shift', 'copy', 'neg', 'cos', 'sin', 'sqrt', 'abs', 'scale'))
NB = ['div', 'motor_split', 'geometric_mean', 'rshift', 'lshift']
# functions whose domain is all motors get motors more often
MOTORS = ['motor_log', 'motor_log_quadratic', 'motor_log_linear_normalized', 'motor_square_root', 'motor_translator', 'motor_rotor', 'norm', 'normalized',
          'normalize_motor', 'inverse']
BIVS = ['exp', 'exp_quadratic', 'exp_linear_normalized', 'invariant0', 'invariant1', 'polar0', 'inverse', 'norm']


@st.composite
def nonlinear_case(draw, tier):
    s, perm, names = draw(setup(2, 5, [2, 2, 3, 3, 3, 4, 4, 4, 5]))
    n = len(s)
    form = draw(st.sampled_from(['motor', 'motor', 'biv', 'biv', 'any', 'any', 'pair']))
    out = dict(sig=s, perm=perm, names=names, form=form)
    if form in ('motor', 'pair'):
        k = draw(st.sampled_from([2, 2, 4]))
        out['vs'] = [draw(gen.floats(n, 1.0)) for _ in range(k)]
        out['ws'] = [draw(gen.floats(n, 1.0)) for _ in range(2)]
        out['op'] = draw(st.sampled_from(MOTORS)) if form == 'motor' else draw(st.sampled_from(NB))
        out['y'] = draw(gen.mv(n, cap=8, values=lambda k: gen.floats(k, 2.0), kinds=['grade', 'grade', 'even']))
    elif form == 'biv':
        out['op'] = draw(st.sampled_from(BIVS))
        b = [b for b in range(2 ** n) if gen.grade(b) == 2]
        if draw(st.booleans()):
            b = draw(st.lists(st.sampled_from(b), min_size=1, max_size=4, unique=True))
        out['x'] = [sorted(b), draw(gen.floats(len(b), 2.0))]
    else:
        out['op'] = draw(st.sampled_from(NONLINEAR))
        out['x'] = draw(gen.mv(n, cap=10, values=lambda k: gen.floats(k, 2.0), kinds=['grade'] * 3 + ['even'] * 3 + ['few', 'few', 'subset', 'odd', 'single', 'grades']))
    return out


def attempt(f, *a):
    try:
        with np.errstate(all='ignore'):
            return f(*a)
    except Exception as e:
        return type(e).__name__


def run_nonlinear(case):
    c, c2, m = pair(case)
    r, n = ref(case['sig']), len(case['sig'])
    form, op = case['form'], case['op']
    args = []
    if form in ('motor', 'pair'):
        x = {0: 1.0}
        for v in case['vs']:
            x = r.gp(x, {1 << i: (v[i] or 0.5) for i in range(n)})
        even = [b for b in range(2 ** n) if gen.grade(b) % 2 == 0]
        nn = r.gp(x, r.rev(x)).get(0, 0)
        if nn < 0.05:
            return ['trivial']
        x = {b: x.get(b, 0.0) / np.sqrt(nn) for b in even}
        args.append(x)
        if op == 'geometric_mean':
            y = {0: 1.0}
            for v in case['ws']:
                y = r.gp(y, {1 << i: (v[i] or 0.5) for i in range(n)})
            nn = r.gp(y, r.rev(y)).get(0, 0)
            if nn < 0.05:
                return ['trivial']
            args.append({b: y.get(b, 0.0) / np.sqrt(nn) for b in even})
        elif op == 'motor_split':
            full = 2 ** n - 1
            null = case['sig'].find('0')
            args.append({full ^ (1 << (null if null >= 0 else 0)): 1.0})
        elif op in NB:
            args.append(dct(case['y']))
    else:
        args.append(dct(case['x']))
    f = BINF[op] if op in NB else UNF[op]
    xs = [mk(c, [list(d), list(d.values())]) for d in args]
    want = attempt(f, *xs)
    got = attempt(f, *[carry(c2, m, d) for d in args])
    if isinstance(want, str) or isinstance(got, str):
        if 'LinAlgError' in (want, got):
            return ['singular', 'trivial']
        check(isinstance(want, str) and isinstance(got, str),
              lambda: f'{op}: {"raises " + want if isinstance(want, str) else "gives a result"}, reordered it {"raises " + got if isinstance(got, str) else "gives a result"}')
        return ['rejected', 'trivial']
    check(set(blist(got.subspace)) == m.blades(blist(want.subspace)), lambda: f'{op}: subspace {blist(got.subspace)}, expected {sorted(m.blades(blist(want.subspace)))}')
    w = todict(want)
    if not all(np.all(np.isfinite(v)) for v in w.values()):
        return ['nonfinite', 'trivial']
    # response to perturbations
    resp = 0
    rng = np.random.RandomState(7)
    for k in range(4):
        ys = [x.copy(values=x.values + 1e-6 * (rng.randint(-8, 9, size=x.values.shape) / 8) * max(1, np.max(np.abs(x.values), initial=0))) for x in xs]
        z = attempt(f, *ys)
        if isinstance(z, str) or not np.all(np.isfinite(z.values)):
            return ['nonfinite', 'trivial']
        resp = max(resp, np.max(np.abs(z.values - want.values), initial=0))
    if resp > 1e-3:
        return ['illconditioned', 'trivial']
    big = max([1.0] + [float(np.max(np.abs(v))) for v in w.values()])
    same(got, m.fwd(w), op, tol=1e-8 * big + 1e-3 * resp, scale=1)
    moved = any(p != i for i, p in enumerate(case['perm']))
    return [op] + ([] if moved and any(abs(v) > 1e-3 and b for b, v in w.items()) else ['trivial'])


PRED = ['is_subalgebra', 'simplicity', 'is_study', 'is_even', 'is_odd', 'is_empty', 'is_degenerate', 'is_degenerate_scalar', 'is_blade', 'in_even', 'in_odd']
SETS = {k: (lambda s, t, k=k: getattr(s, k)(t)) for k in ('union', 'intersection', 'difference', 'product', 'wedge', 'inner')}
SETS.update({k: (lambda s, t, k=k: getattr(s, k)()) for k in ('complement', 'dual', 'nondegenerate', 'degenerate', 'scalar_degenerate', 'squared',
                                                              'symmetric_reverse', 'symmetric_scalar_negation')})
SETS['minimal_exponential'] = lambda s, t: s.minimal_exponential
FAMS = ['scalar', 'vector', 'bivector', 'even_grade', 'odd_grade', 'pseudoscalar', 'antivector', 'rotor', 'motor', 'translator', 'self_reverse',
        'nondegenerate', 'degenerate', 'bireflection', 'scalar_pseudoscalar']


@st.composite
def predicate_case(draw, tier):
    s, perm, names = draw(setup(2, 5, [2, 3, 3, 4, 4, 5]))
    n = len(s)
    return dict(sig=s, perm=perm, names=names, x=draw(gen.blades(n, cap=16)), y=draw(gen.blades(n, cap=16)))


def run_predicates(case):
    c, c2, m = pair(case)
    s, t = space(c, case['x']), space(c, case['y'])
    s2, t2 = space(c2, sorted(m.blades(case['x']))), space(c2, sorted(m.blades(case['y'])))
    for p in PRED:
        if not hasattr(type(s), p):
            continue
        a, b = attempt(getattr, s, p), attempt(getattr, s2, p)
        a, b = (a() if callable(a) else a), (b() if callable(b) else b)
        check(a == b, lambda: f'{p} of {case["x"]}: {a}, reordered {b}')
    for p in FAMS:
        for k in ('inside', 'equals'):
            a, b = attempt(lambda: getattr(getattr(s, k), p)()), attempt(lambda: getattr(getattr(s2, k), p)())
            check(a == b, lambda: f'{k} {p} of {case["x"]}: {a}, reordered {b}')
    for p, f in SETS.items():
        a, b = attempt(f, s, t), attempt(f, s2, t2)
        if isinstance(a, str) or isinstance(b, str):
            check(isinstance(a, str) and isinstance(b, str), lambda: f'{p}: {a}, reordered {b}')
            continue
        check(set(blist(b)) == m.blades(blist(a)), lambda: f'{p} of {case["x"]} and {case["y"]}: {blist(b)}, expected {sorted(m.blades(blist(a)))}')
    moved = any(p != i for i, p in enumerate(case['perm']))
    return [] if moved and len(case['x']) > 1 else ['trivial']


SUBS = [
    Sub('linear', linear_case, run_linear, quick=1500, thorough=40000, about='products, involutions and duals'),
    Sub('linear_high', lambda t: gen.high(linear_case(t), 9, 10), run_linear, quick=250, thorough=2000, about='products, involutions and duals, d 9 and 10'),
    Sub('nonlinear', nonlinear_case, run_nonlinear, quick=1300, thorough=25000, about='inverses, roots, norms, exponentials, logarithms, decompositions'),
    Sub('predicates', predicate_case, run_predicates, quick=250, thorough=6000, about='subspace predicates and operations'),
    Sub('predicates_high', lambda t: gen.high(predicate_case(t), 9, 10), run_predicates, quick=60, thorough=2000, about='predicates, d 9 and 10'),
]
