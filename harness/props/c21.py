import numpy as np
from hypothesis import strategies as st
from ..core import Sub
from .. import gen
from ..nv import *

ID = 'C21'
RULE = ('a session of generated steps over contexts that differ in signature, precision and execution strategy (some sharing one algebra '
        'object): arithmetic, products, sandwiches, nonlinear functions, selection, functional updates, concrete and symbolic operators '
        'that are stored and used later, subspace operations, and changes of the strategy of a context.  Every stored object is compared '
        'with a copy taken when it appeared, every step is repeated at the end of the session, and some are computed first thing in a '
        'fresh algebra and context; non-trivial when at least four steps gave results')

BINF = {
    'mul': lambda a, b: a * b, 'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'xor': lambda a, b: a ^ b, 'and': lambda a, b: a & b,
    'or': lambda a, b: a | b, 'rshift': lambda a, b: a >> b, 'lshift': lambda a, b: a << b, 'commutator': lambda a, b: a.commutator_product(b),
    'anti_commutator': lambda a, b: a.anti_commutator_product(b), 'reverse_product': lambda a, b: a.reverse_product(b),
    'left_contract': lambda a, b: a.left_contract(b), 'anti_product': lambda a, b: a.anti_product(b), 'sandwich': lambda a, b: a.sandwich(b),
    'full_sandwich': lambda a, b: a.full_sandwich(b), 'reverse_sandwich': lambda a, b: a.reverse_sandwich(b), 'div': lambda a, b: a / b,
    'scalar_product': lambda a, b: a.scalar_product(b), 'motor_split': lambda a, b: a.motor_split(b)[0],
    'geometric_mean': lambda a, b: a.motor_geometric_mean(b), 'eq_add': lambda a, b: (a + a) - b,
    'select': lambda a, b: a.select_subspace(b.subspace), 'restrict': lambda a, b: a.restrict_subspace(b.subspace),
}
UNF = {k: (lambda a, k=k: getattr(a, k)()) for k in (
    'reverse', 'involute', 'conjugate', 'dual', 'dual_inverse', 'scalar_negation', 'pseudoscalar_negation', 'squared',
    'symmetric_reverse_product', 'inverse_factor', 'degenerate', 'nondegenerate', 'inverse', 'inverse_shirokov', 'inverse_la', 'norm_squared',
    'norm', 'normalized', 'exp', 'exp_quadratic', 'exp_linear_normalized', 'motor_log', 'motor_log_quadratic', 'motor_log_linear_normalized',
    'motor_square_root', 'square_root', 'inverse_square_root', 'study_norm', 'study_norm_squared', 'motor_translator', 'motor_rotor', 'sqrt',
    'abs', 'cos', 'sin', 'copy', 'flatten')}
UNF.update({
    'neg': lambda a: -a, 'invert': lambda a: ~a, 'scale': lambda a: a * 2.5, 'rscale': lambda a: 0.5 * a, 'shift': lambda a: 1 + a,
    'rsub': lambda a: 1 - a, 'halve': lambda a: a / 2, 'invariant0': lambda a: a.decompose_invariant()[0],
    'invariant1': lambda a: a.decompose_invariant()[1], 'polar0': lambda a: a.decompose_polar()[0], 'sum': lambda a: a.sum(0),
    'mean': lambda a: a.mean(0), 'first': lambda a: a[0], 'set': lambda a: a.at[0].set(3.0), 'set_mv': lambda a: a.at[0].set(a[-1]),
    'concat': lambda a: a.concatenate(a, 0), 'select1': lambda a: a.select[1], 'restrict2': lambda a: a.restrict[2],
    'repeat': lambda a: a.repeat('i c -> i j c', j=2), 'mixed': lambda a: a.context.multivector.vector() * a,
    'nan_to_num': lambda a: a.nan_to_num(0.0), 'recip': lambda a: a.sqrt().nan_to_num(2.0),
    'unit': lambda a: a.context.multivector(subspace=a.subspace), 'basis': lambda a: a.context.multivector.basis()[-1] * a,
    'normalize_motor': lambda a: __import__('numga.multivector.numerical_normalize', fromlist=['x']).normalize_motor(a),
})
CONC = ['product', 'wedge', 'inner', 'reverse_product', 'commutator_product', 'regressive', 'anti_product', 'scalar_product', 'left_contract']
SYM = {
    'product': lambda F, s, t: F.product(s, t), 'rev_of_product': lambda F, s, t: F.reverse(F.product(s, t)),
    'dual_wedge': lambda F, s, t: F.right_hodge(F.wedge(s, t)), 'product3': lambda F, s, t: F.product(F.product(s, t), s),
    'sandwich': lambda F, s, t: F.sandwich(s, t), 'swapped': lambda F, s, t: F.product(s, t).swapaxes(0, 1),
    'neg': lambda F, s, t: -F.product(s, t), 'sum': lambda F, s, t: F.product(s, t) + F.product(s, t),
    'minus': lambda F, s, t: F.product(s, t) - F.wedge(s, t).select_subspace(F.product(s, t).output),
    'symmetry': lambda F, s, t: F.product(s, F.product(t, s)).symmetry((0, 2)), 'squeeze': lambda F, s, t: F.wedge(s, t).squeeze(),
    'scaled': lambda F, s, t: F.product(s, t) * 3, 'selected': lambda F, s, t: F.product(s, t).select_grade(1),
    'bound': lambda F, s, t: F.product(s, t).bind({1: F.reverse(t)}), 'fused': lambda F, s, t: F.reverse(s).fuse(F.product(s, t), axis=0),
}
SUBS_ = {
    'union': lambda s, t: s.union(t), 'intersection': lambda s, t: s.intersection(t), 'difference': lambda s, t: s.difference(t),
    'product': lambda s, t: s.product(t), 'wedge': lambda s, t: s.wedge(t), 'reject': lambda s, t: s.reject(t), 'dual': lambda s, t: s.dual(),
    'complement': lambda s, t: s.complement(), 'even': lambda s, t: s.algebra.subspace.even_grade(), 'nondegenerate': lambda s, t: s.nondegenerate(),
}


def oper_eval(kind, k, c, a, b, stored=None):
    """evaluate a stored concrete operator, or a freshly built one.  a: operands of its subspaces"""
    op = stored() if callable(stored) else stored
    if kind == 'partial0':
        return op.partial({0: a})(b)
    if kind == 'partial1':
        return op.partial({1: b})(a)
    return op(a, b)


def otypes():
    from numga.backend.numpy.operator import NumpyEinsumOperator, NumpySparseOperator
    return [NumpyEinsumOperator, NumpySparseOperator]


@st.composite
def values(draw, k):
    v = draw(gen.floats(k, 2.0))
    if k and draw(st.integers(0, 9)) == 0:
        v[draw(st.integers(0, k - 1))] = draw(st.sampled_from([float('nan'), float('nan'), float('inf')]))
    return v


@st.composite
def case(draw, tier):
    k = draw(st.sampled_from([1, 2, 2, 3]))
    cs = []
    for i in range(k):
        share = draw(st.sampled_from([None, 0])) if i else None
        s = cs[0][0] if share == 0 else draw(gen.sig(1, 4, weights=[2, 2, 3, 3, 3, 4]))
        # [signature, dtype, strategy, context whose algebra it shares]
        cs.append([s, draw(st.sampled_from([64, 64, 32])), draw(st.sampled_from([0, 0, 1])), share])
    pool = []
    for i, (s, d, o, sh) in enumerate(cs):
        for _ in range(draw(st.integers(2, 3))):
            b = draw(gen.blades(len(s), cap=8, kinds=['grade'] * 4 + ['even'] * 4 + ['subset', 'few', 'grades', 'odd', 'full', 'single', 'empty']))
            h = draw(st.sampled_from([[], [], [2], [1], [2, 2]]))
            pool.append([i, b, h, draw(values(len(b) * int(np.prod(h, dtype=int))))])
    ix = st.integers(0, 63)
    step = st.one_of(
        st.tuples(st.just('b'), st.sampled_from(sorted(BINF)), ix, ix, ix), st.tuples(st.just('b'), st.sampled_from(sorted(BINF)), ix, ix, ix),
        st.tuples(st.just('u'), st.sampled_from(sorted(UNF)), ix, ix, ix), st.tuples(st.just('u'), st.sampled_from(sorted(UNF)), ix, ix, ix),
        st.tuples(st.just('o'), st.sampled_from(CONC), ix, ix, ix), st.tuples(st.just('s'), st.sampled_from(sorted(SYM)), ix, ix, ix),
        st.tuples(st.just('x'), st.sampled_from(sorted(SUBS_)), ix, ix, ix), st.tuples(st.just('t'), st.just(''), ix, ix, ix),
        st.tuples(st.just('r'), st.just(''), ix, ix, ix)).map(list)
    steps = draw(st.lists(step, min_size=draw(st.sampled_from([3, 6, 8])), max_size=12))
    probe = draw(st.lists(st.integers(0, 11), min_size=2, max_size=4))
    return dict(cs=cs, pool=pool, steps=steps, probe=probe, seq=draw(st.booleans()))


def make_ctxs(cs):
    from numga.backend.numpy.context import NumpyContext
    out = []
    for s, d, o, share in cs:
        alg = gen.desc(s) if share is None else out[share].algebra
        out.append(NumpyContext(alg, dtype=np.float64 if d == 64 else np.float32, otype=otypes()[o]))
    return out


def load(c, b, h, v):
    b = gen.order_canonical(b)
    return c.multivector(subspace=space(c, b), values=np.array(v, dtype=float).reshape(tuple(h) + (len(b),)))


def outcome(f):
    try:
        with np.errstate(all='ignore'):
            return f()
    except (RecursionError, ImportError):
        raise
    except Exception as e:
        return type(e).__name__


def eq(a, b, tol=0.0):
    if isinstance(a, str) or isinstance(b, str):
        return a == b if isinstance(a, str) and isinstance(b, str) else False
    if blist(a.subspace) != blist(b.subspace):
        return False
    x, y = arr(a), arr(b)
    if x.dtype != y.dtype or x.shape != y.shape:
        return False
    m = np.max(np.abs(y[np.isfinite(y)]), initial=1.0)
    return np.array_equal(x, y, equal_nan=True) or bool(np.allclose(x, y, rtol=0, atol=tol * m, equal_nan=True))


def show(a):
    return f'raised {a}' if isinstance(a, str) else f'blades {blist(a.subspace)}, {arr(a).dtype} values {short(arr(a))}'


def run(case):
    cs = make_ctxs(case['cs'])
    cfg = case['cs']
    pool = [(i, load(cs[i], b, h, v)) for i, b, h, v in case['pool']]
    seen = [(x, arr(x).copy(), blist(x.subspace)) for _, x in pool]
    ops = []        # stored operators: (context, function taking operands, description)
    done = []       # (description, thunk, result, otype of the context)
    subs = []
    good = 0

    def pick(i, ctx_=None):
        p = [x for x in pool if ctx_ is None or x[0] == ctx_]
        return p[i % len(p)]

    def fresh(ci, how, args):
        """the same computation in a new session, from the recorded inputs"""
        f = make_ctxs([cfg[k][:3] + [cfg[k][3] if k else None] for k in range(len(cfg))])[ci]
        f.otype = cs[ci].otype
        xs = [f.multivector(subspace=space(f, b), values=v) for b, v in args]
        return outcome(lambda: how(f, *xs))

    def check_inputs(what):
        for x, v, b in seen:
            check(blist(x.subspace) == b and arr(x).shape == v.shape and np.array_equal(arr(x), v, equal_nan=True),
                  lambda: f'{what} changed a multivector: blades {b} values {short(v)} became {short(arr(x))}')

    for n, (kind, name, i, j, k) in enumerate(case['steps']):
        how = None
        if case['seq'] and kind in 'bu':
            i = len(pool) - 1
        ci, a = pick(i)
        _, b = pick(j, ci)
        c = cs[ci]
        if kind == 't':
            c.otype = otypes()[j % 2]
            continue
        if kind == 'b':
            args, how = (a, b), lambda c, x, y, f=BINF[name]: f(x, y)
        elif kind == 'u':
            args, how = (a,), lambda c, x, f=UNF[name]: f(x)
        elif kind == 'o':
            how2 = ['call', 'partial0', 'partial1'][k % 3]
            s, t = a.subspace, b.subspace
            stored = outcome(lambda: getattr(c.operator, name)(s, t))
            if isinstance(stored, str):
                continue
            args = (a, b)
            how = lambda c, x, y, name=name, how2=how2: oper_eval(how2, k, c, x, y, getattr(c.operator, name)(x.subspace, y.subspace))
            ops.append((ci, lambda x, y, stored=stored, how2=how2: oper_eval(how2, 0, None, x, y, stored), args, f'{name} operator'))
        elif kind == 's':
            s, t = a.subspace, b.subspace
            if len(s) * len(t) > 64 or (name in ('product3', 'sandwich', 'symmetry') and len(s) * len(t) * len(s) > 200):
                continue
            sym = outcome(lambda: SYM[name](c.algebra.operator, s, t))
            if isinstance(sym, str):
                continue
            args = (a, b)
            build = lambda c, x, y, name=name: use(c.operator(SYM[name](c.algebra.operator, x.subspace, y.subspace)), name, x, y)
            how = build
            ops.append((ci, lambda x, y, sym=sym, c=c, name=name: use(c.operator(sym), name, x, y), args, f'{name} symbolic operator'))
        elif kind == 'x':
            r1 = outcome(lambda: SUBS_[name](a.subspace, b.subspace))
            subs.append((name, a.subspace, b.subspace, r1, None if isinstance(r1, str) else blist(r1)))
            continue
        elif kind == 'r':
            # use a stored operator
            if not ops:
                continue
            ci, f, args, what = ops[j % len(ops)]
            got, again = outcome(lambda: f(*args)), outcome(lambda: f(*args))
            check(eq(got, again), f'{what}: {show(got)}, then {show(again)}')
            check_inputs(what)
            continue
        recorded = [(blist(x.subspace), arr(x).copy()) for x in args]
        got = outcome(lambda: how(c, *args))
        what = f'step {n}, {name}'
        check_inputs(what)
        if n in case['probe']:
            want = fresh(ci, how, recorded)
            check(eq(got, want, 1e-12 if cfg[ci][1] == 64 else 1e-5), lambda: f'{what}: in the session {show(got)}, first thing in a fresh algebra {show(want)}')
        # the same in another context over the same algebra
        for cj, o in enumerate(cs):
            if cj != ci and o.algebra is c.algebra:
                xs = [o.multivector(subspace=x.subspace, values=arr(x).copy()) for x in args]
                other = outcome(lambda: how(o, *xs))
                if not isinstance(other, str):
                    check(other.context is o, f'{what}: result belongs to another context over the same algebra')
                    check(arr(other).dtype == np.dtype(o.dtype), lambda: f'{what}: result in {arr(other).dtype} in a context of {np.dtype(o.dtype)} over the algebra of the first')
                    if n in case['probe']:
                        want = fresh(cj, how, recorded)
                        check(eq(other, want, 1e-12 if cfg[cj][1] == 64 else 1e-5), lambda: f'{what}: in another context {show(other)}, first thing in a fresh algebra {show(want)}')
        if isinstance(got, str):
            done.append((what, ci, how, args, got, c.otype))
            continue
        check(got.context is c, f'{what}: result belongs to another context')
        check(arr(got).dtype == np.dtype(c.dtype), lambda: f'{what}: result in {arr(got).dtype} in a context of {np.dtype(c.dtype)}')
        good += 1
        done.append((what, ci, how, args, got, c.otype))
        seen.append((got, arr(got).copy(), blist(got.subspace)))
        v = arr(got)
        if v.size and v.size <= 64 and np.all(np.isfinite(v)) and np.max(np.abs(v)) < 50:
            pool.append((ci, got))
    # everything again, last step first
    for what, ci, how, args, got, ot in reversed(done):
        c = cs[ci]
        c.otype = ot
        again = outcome(lambda: how(c, *args))
        check(eq(again, got), lambda: f'{what}: {show(got)}, at the end of the session {show(again)}')
    check_inputs('repeating the session')
    for ci, f, args, what in ops:
        c = cs[ci]
        x = outcome(lambda: f(*args))
    for name, s, t, r1, bl in subs:
        r2 = outcome(lambda: SUBS_[name](s, t))
        check(r1 == r2 if isinstance(r1, str) else r2 is r1 and blist(r2) == bl, f'{name} of subspaces changed during the session')
    return [f'contexts{len(cs)}'] + ([] if good > 3 else ['trivial'])


def use(op, name, x, y):
    xs = {'product3': (x, y, x), 'sandwich': (x, y, x), 'symmetry': (x, y, x), 'swapped': (y, x)}.get(name, (x, y))
    return op(*xs)


# ---- backends over one algebra
@st.composite
def backend_case(draw, tier):
    s = draw(gen.sig(2, 3))
    n = len(s)
    pool = [draw(gen.mv(n, cap=4, values=lambda k: gen.ints(k), kinds=['grade', 'even', 'few', 'subset'])) for _ in range(2)]
    names = ['product', 'wedge', 'reverse_product', 'sandwich', 'add', 'neg', 'reverse', 'set', 'set', 'set_batch', 'set_batch', 'concat', 'sum', 'copy', 'copy']
    steps = draw(st.lists(st.tuples(st.sampled_from(['numpy', 'sparse', 'jax', 'torch', 'single', 'python']), st.sampled_from(names),
                                    st.integers(0, 1), st.integers(0, 1)).map(list), min_size=4, max_size=8))
    return dict(sig=s, pool=pool, steps=steps)


def run_backends(case):
    import torch
    import jax.numpy as jnp
    from numga.backend.numpy.context import NumpyContext
    from numga.backend.jax.context import JaxContext
    from numga.backend.torch.context import TorchContext
    from numga.backend.python.context import PythonContext
    new_ctx('+', 'jax')
    r = ref(case['sig'])
    base = NumpyContext(gen.desc(case['sig']))
    alg = base.algebra
    cs = dict(numpy=base, sparse=NumpyContext(alg, otype=otypes()[1]), single=NumpyContext(alg, dtype=np.float32),
              jax=JaxContext(alg, dtype=jnp.float64), torch=TorchContext(alg, dtype=torch.float64), python=PythonContext(alg))
    dt = dict(numpy='float64', sparse='float64', single='float32', jax='float64', torch='float64')
    ds = [dct(m) for m in case['pool']]
    fs = dict(product=lambda x, y: r.gp(x, y), wedge=lambda x, y: r.wedge(x, y), reverse_product=lambda x, y: r.gp(x, r.rev(y)),
              sandwich=lambda x, y: r.gp(r.gp(x, y), r.rev(x)), add=lambda x, y: r.add(x, y))
    nz = 0
    # the multivectors are made once per context, and used by every later step: none of them may change
    made = {be: [mk(c, m) for m in case['pool']] for be, c in cs.items()}
    stack = {be: [c.multivector(subspace=m.subspace, values=np.array([arr(m)] * 3)) for m in made[be]] for be, c in cs.items() if be != 'python'}
    plain = lambda be, m: np.array([float(v) for v in m.values]) if be == 'python' else np.array(arr(m))
    first = {be: [plain(be, m) for m in made[be] + stack.get(be, [])] for be in cs}

    def untouched(what):
        for be in cs:
            for m, v in zip(made[be] + stack.get(be, []), first[be]):
                check(np.array_equal(plain(be, m), v), lambda: f'{what} changed a multivector of the {be} context: {short(plain(be, m))}, it was {short(v)}')
    for be, name, i, j in case['steps']:
        c = cs[be]
        x, y = made[be][i], made[be][j]
        if be == 'python' and name not in fs:
            continue
        if be == 'python' and name == 'add':
            continue
        if name == 'copy':
            # a copy shares no storage: overwriting its values leaves the original alone, and the other way around
            for X in (x, stack[be][i]):
                Y = X.copy()
                v = plain(be, X)
                check(Y.subspace is X.subspace and Y.context is c and np.array_equal(plain(be, Y), v), f'copy in {be}: {short(plain(be, Y))}')
                if be != 'jax' and v.size:
                    Y.values[...] = 7
                    Z = X.copy()
                    Z.values[...] *= -2
            nz += bool(np.any(arr(stack[be][i])))
            untouched(f'writing to a copy in the {be} context')
            continue
        if name not in fs:
            X = stack[be][i]
            v = arr(X)
            if name in ('set', 'set_batch'):
                q = j if name == 'set' else slice(j, None)
                got, want = X.at[q].set(x * 0 if name == 'set' else -x), v.copy()
                want[q] = 0 if name == 'set' else -arr(x)
            elif name == 'concat':
                got, want = X.concatenate(X, 0), np.concatenate([v, v])
            elif name == 'sum':
                got, want = X.sum(0), v.sum(0)
            elif name == 'neg':
                got, want = -X, -v
            else:
                got, want = ~X, v * np.array([-1.0 if gen.grade(b) % 4 in (2, 3) else 1.0 for b in blist(X.subspace)])
            check(got.subspace is X.subspace and np.allclose(arr(got), want, atol=1e-6), f'{name} in {be}: {short(arr(got))}, expected {short(want)}')
            check(str(arr(got).dtype) == dt[be], f'{name} in {be}: {arr(got).dtype}')
            nz += bool(np.any(v))
            untouched(f'{name} in the {be} context')
            continue
        if name == 'add':
            got = x + y
        elif name == 'sandwich':
            got = c.operator.full_sandwich(x.subspace, y.subspace)(x, y, x)
        else:
            got = getattr(c.operator, name)(x.subspace, y.subspace)(x, y)
        want = fs[name](ds[i], ds[j])
        nz += nonzero(want)
        v = np.asarray(got.values, dtype=float) if be == 'python' else arr(got)
        same({b: v[k] for k, b in enumerate(blist(got.subspace))}, want, f'{name} in {be}', tol=1e-6)
        if be != 'python':
            check(str(v.dtype) == dt[be], f'{name} in {be}: {v.dtype}')
        check(got.context is c and got.subspace.algebra is alg, 'context of the result')
        untouched(f'{name} in the {be} context')
    return [s[0] for s in case['steps']] + ([] if nz > 1 else ['trivial'])


SUBS = [
    Sub('session', case, run, quick=2200, thorough=20000, about='sessions of operations'),
    Sub('session_high', lambda t: gen.high(case(t), 9, 10), run, quick=60, thorough=2000, about='sessions, d 9 and 10'),
    Sub('backends', backend_case, run_backends, quick=80, thorough=600, about='contexts of all backends over one algebra'),
]
