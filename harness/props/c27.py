import os
import numpy as np
from hypothesis import strategies as st
from ..core import Sub
from .. import gen
from ..nv import *
from .c02 import DEF as BINARY
from .c05 import UNARY

ID = 'C27'
RULE = ('generated polynomial expressions over generated subspaces of a generated signature, for each evaluation strategy of jax; the oracles '
        'are the reference model evaluated with dual numbers (values and gradients), eager evaluation, and evaluation element by element; '
        'non-trivial when the result (for gradients: the derivative) is not zero')
ASSUMPTIONS = ['jax runs on the cpu in double precision, with most compiler optimisations disabled to keep compilation short',
               'bound operators are captured by the transformed functions, not passed as arguments']

OTYPES = ['einsum', 'dense', 'sparse']


def jctx(sig, otype='einsum', names=None):
    import jax
    key = (sig, otype, names)
    if key not in _ctxs:
        jax.config.update('jax_disable_most_optimizations', True)
        from numga.backend.jax import operator as o
        _ctxs[key] = new_ctx(sig, 'jax', names=names, otype=dict(einsum=o.JaxEinsumOperator, dense=o.JaxDenseOperator, sparse=o.JaxSparseOperator)[otype])
    return _ctxs[key]


_ctxs = {}


# ---- dual numbers over the inputs
class Dual:
    __slots__ = 'v', 'd'
    __array_ufunc__ = None

    def __init__(self, v, d):
        self.v, self.d = v, d

    def __add__(self, o):
        return Dual(self.v + o.v, self.d + o.d) if isinstance(o, Dual) else Dual(self.v + o, self.d)
    __radd__ = __add__

    def __mul__(self, o):
        return Dual(self.v * o.v, self.d * o.v + self.v * o.d) if isinstance(o, Dual) else Dual(self.v * o, self.d * o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return Dual(self.v / o, self.d / o)

    def __neg__(self):
        return Dual(-self.v, -self.d)


# ---- programs: a list of steps [name, i, j, parameter], each adds a value to the pool
BIN = ['mul', 'mul', 'wedge', 'inner', 'and', 'add', 'sub', 'commutator', 'left_contract', 'reverse_product', 'sandwich', 'bound', 'symbolic']
UN = ['neg', 'reverse', 'dual', 'scale', 'shift', 'select', 'even', 'divide', 'srp', 'involute', 'dual_inverse', 'at', 'bound1']


def apply_mv(c, step, pool):
    op, i, j, p = step
    x, y = pool[i % len(pool)], pool[j % len(pool)]
    n = c.algebra.n_dimensions
    if op == 'mul': return x * y
    if op == 'wedge': return x ^ y
    if op == 'inner': return x | y
    if op == 'and': return x & y
    if op == 'add': return x + y
    if op == 'sub': return x - y
    if op == 'commutator': return x.commutator(y)
    if op == 'left_contract': return x.left_contract(y)
    if op == 'reverse_product': return x.reverse_product(y)
    if op == 'sandwich': return c.operator.full_sandwich(x.subspace, y.subspace)(x, y, x)
    if op == 'bound':    # bind one side of a product first, and evaluate the bound operator
        return c.operator.product(x.subspace, y.subspace).partial({0: x})(y)
    if op == 'bound1':
        return c.operator.product(x.subspace, x.subspace).partial({1: x})(x)
    if op == 'symbolic':
        o = c.algebra.operator
        return c.operator(o.wedge(x.subspace, y.subspace) - o.wedge(x.subspace, y.subspace).mul(2))(x, y)
    if op == 'neg': return -x
    if op == 'reverse': return ~x
    if op == 'involute': return x.involute()
    if op == 'dual': return x.dual()
    if op == 'dual_inverse': return x.dual_inverse()
    if op == 'scale': return p * x
    if op == 'shift': return x - p
    if op == 'select': return x.select[abs(p) % (n + 1)]
    if op == 'even': return x.restrict.even_grade()
    if op == 'divide': return x / (p or 2)
    if op == 'srp': return x.symmetric_reverse_product()
    if op == 'at': return x.at[..., :1].set(float(p)) if len(x.subspace) else x
    raise KeyError(op)


def apply_ref(r, step, pool):
    op, i, j, p = step
    (x, xs), (y, ys) = pool[i % len(pool)], pool[j % len(pool)]
    n = r.n
    if op in ('mul', 'bound'): return r.gp(x, y)
    if op == 'bound1': return r.gp(x, x)
    if op == 'wedge': return r.wedge(x, y)
    if op == 'symbolic': return r.scale(r.wedge(x, y), -1)
    if op == 'inner': return r.inner(x, y)
    if op == 'and': return r.regressive(x, y)
    if op == 'add': return r.add(x, y)
    if op == 'sub': return r.add(x, y, -1)
    if op == 'commutator': return r.comm(x, y)
    if op == 'left_contract': return r.lc(x, y)
    if op == 'reverse_product': return r.gp(x, r.rev(y))
    if op == 'sandwich': return r.sandwich(x, y)
    if op == 'neg': return r.scale(x, -1)
    if op == 'reverse': return r.rev(x)
    if op == 'involute': return r.inv(x)
    if op == 'dual': return r.rhodge(x)
    if op == 'dual_inverse': return r.rhodge_inv(x)
    if op == 'scale': return r.scale(x, p)
    if op == 'shift': return r.add(x, {0: -p})
    if op == 'select': return {b: v for b, v in x.items() if gen.grade(b) == abs(p) % (n + 1)}
    if op == 'even': return {b: v for b, v in x.items() if gen.grade(b) % 2 == 0}
    if op == 'divide': return r.scale(x, 1 / (p or 2))
    if op == 'srp': return r.gp(x, r.rev(x))
    if op == 'at':
        x = dict(x)
        if xs:
            x[xs[0]] = float(p)
        return x
    raise KeyError(op)


def evaluate(c, prog, inputs):
    pool = list(inputs)
    for step in prog:
        pool.append(apply_mv(c, step, pool))
    return pool


def evaluate_ref(r, prog, inputs, spaces):
    """spaces: first blade of every value is only needed by functional updates"""
    pool = [(x, s) for x, s in zip(inputs, spaces)]
    for k, step in enumerate(prog):
        pool.append((apply_ref(r, step, pool), spaces[len(inputs) + k]))
    return [p[0] for p in pool]


@st.composite
def program(draw, k, lo=1, hi=4):
    m = draw(st.integers(lo, hi))
    prog, size = [], k
    for t in range(m):
        op = draw(st.sampled_from(BIN + UN))
        # prefer recent values, so that most of the program contributes
        i = size - 1 if draw(st.booleans()) else draw(st.integers(0, size - 1))
        prog.append([op, i, draw(st.integers(0, size - 1)), draw(st.sampled_from([1, -1, 2, 3, -2, 0]))])
        size += 1
    return prog


def case_for(batch, hi=4, cap=7, otypes=OTYPES, steps=4):
    @st.composite
    def f(draw, tier):
        s = draw(gen.sig(1, hi, weights=[1, 2, 2, 3, 3, 3, 4, 4][:8 if hi >= 4 else 6]))
        k = draw(st.sampled_from([1, 2, 2]))
        h = draw(batch)
        xs = []
        for _ in range(k):
            b = gen.order_canonical(draw(gen.blades(len(s), cap=cap, empty=False)))
            xs.append([b, draw(gen.ints(len(b) * int(np.prod(h, dtype=int))))])
        return dict(sig=s, otype=draw(st.sampled_from(otypes)), h=h, xs=xs, prog=draw(program(k, 1, steps)), pick=draw(st.integers(0, 7)), w=draw(gen.ints(16)))
    return f


def inputs(c, case):
    return [c.multivector(subspace=space(c, b), values=np.array(v, dtype=float).reshape(tuple(case['h']) + (len(b),))) for b, v in case['xs']]


def refs(case, pool):
    """reference values per element of the batch; value dictionaries of arrays"""
    r = ref(case['sig'])
    spaces = [blist(p.subspace) for p in pool]
    ins = [{k: np.array(v, dtype=float).reshape(tuple(case['h']) + (len(b),))[..., i] for i, k in enumerate(b)} for b, v in case['xs']]
    return evaluate_ref(r, case['prog'], ins, spaces)


def magnitude(vals):
    return max([1.0] + [float(np.max(np.abs(v))) for d in vals for v in d.values() if np.size(v)])


def equal(a, b, what, big=1.0):
    check(a.subspace is b.subspace, lambda: f'{what}: subspace {blist(a.subspace)}, expected {blist(b.subspace)}')
    check(a.context is b.context, f'{what}: context')
    va, vb = arr(a), arr(b)
    check(va.dtype == vb.dtype, lambda: f'{what}: dtype {va.dtype}, expected {vb.dtype}')
    check(va.shape == vb.shape, lambda: f'{what}: shape {va.shape}, expected {vb.shape}')
    check(not va.size or np.max(np.abs(va - vb)) <= 1e-9 * big, lambda: f'{what}: {short(va)}, expected {short(vb)}')


def labels(case, out):
    return [case['otype']] + sorted(set(s[0] for s in case['prog'])) + ([] if any(np.any(arr(o) != 0) for o in out) else ['trivial'])


# ---- compiled
def run_jit(case):
    import jax
    c = jctx(case['sig'], case['otype'])
    xs = inputs(c, case)
    before = [arr(x).copy() for x in xs]
    k = len(xs)

    def f(*xs):
        return evaluate(c, case['prog'], xs)[k:]
    got = jax.jit(f)(*xs)
    want = refs(case, xs + got)
    big = magnitude(want)
    for i, (g, w) in enumerate(zip(got, want[k:])):
        check(isinstance(g, type(xs[0])), 'compiled results are multivectors')
        check(g.context is c, 'context of a compiled result')
        same(g, w, f'compiled step {i}, {case["prog"][i]}', tol=1e-9, scale=big)
    if case['pick'] < 2:
        for i, (g, e) in enumerate(zip(got, f(*xs))):
            check(np.shape(arr(e)) == np.shape(arr(g)), 'shape of compiled and eager results')
            equal(g, e, f'compiled and eager step {i}, {case["prog"][i]}', big)
        # captured rather than passed
        for g, e in zip(jax.jit(lambda: f(*xs))(), got):
            equal(g, e, 'captured inputs', big)
    for x, v, s in zip(xs, before, case['xs']):
        check(np.array_equal(arr(x), v) and blist(x.subspace) == s[0], 'input changed')
    return labels(case, got)


# ---- a compiled function serves several algebras and subspaces
@st.composite
def reuse_case(draw, tier):
    n = draw(st.sampled_from([2, 3, 3]))
    k = draw(st.integers(1, 3))
    m = draw(st.integers(2, 4))
    calls = []
    for _ in range(m):
        b = sorted(draw(st.permutations(range(2 ** n)))[:k])
        calls.append([''.join(draw(st.sampled_from('++-0')) for _ in range(n)), gen.order_canonical(b)])
    if draw(st.booleans()):
        calls.append(calls[0])
    return dict(calls=calls, otype=draw(st.sampled_from(OTYPES)), op=draw(st.sampled_from(['squared', 'dual', 'reverse', 'wedge'])), v=draw(gen.nz_ints(k)))


def run_reuse(case):
    import jax
    fns = dict(squared=lambda x: x * x, dual=lambda x: x.dual(), reverse=lambda x: ~x, wedge=lambda x: (x + 1.0) ^ x)
    refs_ = dict(squared=lambda r, x: r.gp(x, x), dual=lambda r, x: r.rhodge(x), reverse=lambda r, x: r.rev(x), wedge=lambda r, x: r.wedge(r.add(x, {0: 1}), x))
    f = jax.jit(fns[case['op']])
    some = False
    for i, (s, b) in enumerate(case['calls']):
        c = jctx(s, case['otype'])
        x = c.multivector(subspace=space(c, b), values=np.array(case['v'], dtype=float))
        y = f(x)
        check(y.context is c and y.subspace.algebra is c.algebra, f'call {i}: context')
        w = refs_[case['op']](ref(s), dict(zip(b, case['v'])))
        same(y, w, f'call {i}: {case["op"]} in {s} of blades {b}', tol=1e-12)
        some |= nonzero(w)
    return [case['op']] + ([] if some and len({(s, tuple(b)) for s, b in case['calls']}) > 1 else ['trivial'])


# ---- mapped
def run_vmap(case):
    import jax
    c = jctx(case['sig'], case['otype'])
    xs = inputs(c, case)
    k = len(xs)
    one = case['pick'] % 3 == 0 and k > 1      # one argument is shared

    def f(*xs):
        return evaluate(c, case['prog'], xs)[k:]
    args = list(xs)
    if one:
        args[1] = xs[1][0]
    g = jax.vmap(f, in_axes=(0,) + ((None,) if one else (0,)) * (k - 1))
    if len(case['h']) > 1:
        g = jax.vmap(g, in_axes=(0,) * k) if not one else jax.vmap(lambda x, y: jax.vmap(f, in_axes=(0, None))(x, y), in_axes=(0, None))
        if one:
            args[1] = xs[1][0, 0]
    got = g(*args)
    r = ref(case['sig'])
    spaces = [blist(p.subspace) for p in list(xs) + list(got)]
    H = tuple(case['h'])
    vals = [np.array(v, dtype=float).reshape(H + (len(b),)) for b, v in case['xs']]
    if one:
        vals[1] = np.broadcast_to(vals[1][(0,) * len(H)], vals[1].shape)
    want = evaluate_ref(r, case['prog'], [{q: v[..., i] for i, q in enumerate(b)} for (b, _), v in zip(case['xs'], vals)], spaces)
    big = magnitude(want)
    for i, (y, w) in enumerate(zip(got, want[k:])):
        check(y.context is c, 'context of a mapped result')
        check(tuple(y.shape) == H, lambda: f'mapped step {i}, {case["prog"][i]}: batch {y.shape}, expected {H}')
        same(y, {b: np.broadcast_to(v, H) for b, v in w.items()}, f'mapped step {i}, {case["prog"][i]}', tol=1e-9, scale=big)
    return labels(case, got)


# ---- gradients
def run_grad(case):
    import jax
    import jax.numpy as jnp
    c = jctx(case['sig'], case['otype'])
    xs = inputs(c, case)
    k = len(xs)
    w = np.array(case['w'], dtype=float)
    meta = []

    def f(*xs):
        pool = evaluate(c, case['prog'], xs)
        meta[:] = [blist(p.subspace) for p in pool]
        y = pool[-1].values
        return jnp.sum(y * w[:y.shape[-1]])if y.shape[-1] <= 16 else jnp.sum(y * np.resize(w, y.shape[-1]))
    arg = case['pick'] % k
    fn = jax.value_and_grad(f, argnums=arg)
    if case['pick'] >= 4:
        fn = jax.jit(fn)
    value, g = fn(*xs)
    check(isinstance(g, type(xs[0])) and g.subspace is xs[arg].subspace and g.context is c, 'a gradient is a multivector on the subspace of the argument')
    check(g.values.shape == xs[arg].values.shape, 'shape of a gradient')
    # dual numbers
    r = ref(case['sig'])
    m = len(xs[arg].subspace)
    ins = []
    for t, (b, v) in enumerate(case['xs']):
        ins.append({q: Dual(float(v[i]), np.eye(m)[i] if t == arg else np.zeros(m)) for i, q in enumerate(b)})
    out = evaluate_ref(r, case['prog'], ins, meta)[-1]
    total, d, big = 0.0, np.zeros(m), 1.0
    ww = w if len(meta[-1]) <= 16 else np.resize(w, len(meta[-1]))
    for i, b in enumerate(meta[-1]):
        o = out.get(b, 0.0)
        if isinstance(o, Dual):
            total, d = total + ww[i] * o.v, d + ww[i] * o.d
            big = max(big, abs(o.v), float(np.max(np.abs(o.d))))
        else:
            total += ww[i] * o
    check(abs(float(value) - total) <= 1e-9 * big * 16, lambda: f'value {float(value)}, expected {total}')
    check(np.max(np.abs(arr(g) - d)) <= 1e-9 * big * 16, lambda: f'gradient {short(arr(g))}, the derivative is {short(d)}')
    if case['pick'] in (3, 6):
        h = jax.jacfwd(lambda x: f(*xs[:arg], x, *xs[arg + 1:]))(xs[arg])
        check(np.max(np.abs(arr(h) - d)) <= 1e-9 * big * 16, lambda: f'forward derivative {short(arr(h))}, the derivative is {short(d)}')
    return [case['otype'], 'jit' if case['pick'] >= 4 else 'eager'] + sorted(set(s[0] for s in case['prog'])) + ([] if np.any(d) else ['trivial'])


# ---- containers
@st.composite
def tree_case(draw, tier):
    s = draw(gen.sig(1, 5))
    b = gen.order_canonical(draw(gen.blades(len(s), cap=12)))
    h = draw(gen.shape())
    return dict(sig=s, b=b, h=h, otype=draw(st.sampled_from(OTYPES)), v=draw(gen.ints(len(b) * int(np.prod(h, dtype=int)))),
                how=draw(st.sampled_from(['made', 'product', 'index', 'at', 'plus', 'derived', 'map'])), u=draw(gen.ints(3)))


def run_tree(case):
    import jax
    import jax.numpy as jnp
    from jax import tree_util as tu
    c = jctx(case['sig'], case['otype'])
    b = case['b']
    x = c.multivector(subspace=space(c, b), values=np.array(case['v'], dtype=float).reshape(tuple(case['h']) + (len(b),)))
    how = case['how']
    if how == 'product':
        x = ~(~x)
    elif how == 'index' and case['h']:
        x = x[0]
    elif how == 'at' and len(b):
        x = x.at[..., 0].set(5.0)
    elif how == 'plus':
        x = x.copy(x.values + 1)
    elif how == 'derived':      # touch lazily computed attributes before flattening
        x.shape, x.select, x.at, repr(x), x.algebra
    elif how == 'map':
        x = tu.tree_map(lambda v: v + 1, x)
    v = arr(x).copy()
    leaves, tree = tu.tree_flatten(x)
    check(len(leaves) == 1 and np.array_equal(np.asarray(leaves[0]), v), lambda: f'leaves of a multivector: {short(leaves)}')
    y = tu.tree_unflatten(tree, leaves)
    check(type(y) is type(x) and y.subspace is x.subspace and y.context is x.context and np.array_equal(arr(y), v), 'flattening and rebuilding changes a multivector')
    check(tu.tree_structure(y) == tree, 'structure of a rebuilt multivector')
    y = tu.tree_unflatten(tree, [leaves[0] * 2])
    check(np.array_equal(arr(y), 2 * v) and np.array_equal(arr(x), v), 'rebuilding from other leaves')
    same(y * y, {k: 4 * q for k, q in todict(x * x).items()}, 'rebuilt multivectors compute')
    # containers of multivectors
    box = dict(a=x, b=[x, (y, None)], c=jnp.zeros(2))
    ls, t = tu.tree_flatten(box)
    check(len(ls) == 4, 'leaves of a container')
    z = tu.tree_unflatten(t, ls)
    check(z['b'][1][0].subspace is x.subspace and np.array_equal(arr(z['b'][1][0]), 2 * v) and np.array_equal(arr(z['a']), v), 'a container of multivectors')
    d = tu.tree_map(lambda p, q: p - q, y, x)
    check(d.subspace is x.subspace and np.array_equal(arr(d), v), 'tree_map over two multivectors')
    # other structure: another subspace of equal size, in the same or another algebra
    n = len(case['sig'])
    other = [2 ** n - 1 - q for q in b]
    o = c.multivector(subspace=space(c, other), values=np.zeros(v.shape))
    check((tu.tree_structure(o) == tree) == (sorted(other) == sorted(b)), 'structures of different subspaces compare equal')
    # functional updates
    if len(b):
        i = case['u'][0] % len(b)
        w = x.at[..., i].set(7.0)
        e = v.copy()
        e[..., i] = 7.0
        check(np.array_equal(arr(w), e) and np.array_equal(arr(x), v), 'functional update')
        k = x.copy()
        check(np.array_equal(arr(k), v) and k.subspace is x.subspace and k.context is c, 'copy')
    # values round trip through a compiled identity
    q = jax.jit(lambda m: m)(x)
    check(q.subspace is x.subspace and q.context is x.context and np.array_equal(arr(q), v) and arr(q).dtype == v.dtype, 'compiled identity')
    return [how, 'batch' if case['h'] else 'single'] + ([] if np.any(v) else ['trivial'])


# ---- loops
@st.composite
def loop_case(draw, tier):
    s = draw(gen.sig(1, 4))
    n = len(s)
    b = gen.order_canonical(draw(gen.blades(n, cap=6, empty=False)))
    m = gen.order_canonical(draw(gen.blades(n, cap=6, empty=False)))
    k = draw(st.integers(0, 4))
    return dict(sig=s, b=b, m=m, otype=draw(st.sampled_from(OTYPES)), k=k, loop=draw(st.sampled_from(['scan', 'scan', 'fori', 'while', 'cond'])),
                op=draw(st.sampled_from(['product', 'sandwich', 'bound', 'operator'])), x=draw(gen.ints(len(b))), y=draw(gen.ints(len(m) * max(k, 1))))


def run_loop(case):
    import jax
    import jax.numpy as jnp
    c = jctx(case['sig'], case['otype'])
    S, M = space(c, case['b']), space(c, case['m'])
    x = c.multivector(subspace=S, values=np.array(case['x'], dtype=float))
    k = case['k']
    ys = c.multivector(subspace=M, values=np.array(case['y'], dtype=float).reshape(-1, len(M)))
    bound = c.operator.product(M, S).partial({0: ys[0]}) if case['op'] in ('bound', 'operator') else None

    def step(x, y):
        if case['op'] == 'product':
            z = y * x
        elif case['op'] == 'sandwich':
            z = c.operator.full_sandwich(M, S)(y, x, y)
        else:
            z = bound(x)
        return x * 0.5 + z.select_subspace(S) * 0.25
    r = ref(case['sig'])
    cur = dict(zip(case['b'], map(float, case['x'])))
    hist = []
    yr = [dict(zip(case['m'], v)) for v in arr(ys).tolist()]
    fixed = case['loop'] != 'scan' or case['op'] in ('bound', 'operator')
    for i in range(k):
        y = yr[0] if fixed else yr[i]
        z = r.sandwich(y, cur) if case['op'] == 'sandwich' else r.gp(y, cur)
        cur = {b: 0.5 * cur[b] + 0.25 * z.get(b, 0.0) for b in case['b']}
        hist.append(cur)
    if case['loop'] == 'scan':
        if k == 0:
            return ['trivial']
        end, tr = jax.lax.scan(lambda x, y: (lambda z: (z, z * 2.0))(step(x, y)), x, ys)
        check(tr.subspace is S and tuple(tr.shape) == (k,), 'collected results of a scan')
        same(tr, {b: np.array([2 * h[b] for h in hist]) for b in case['b']}, 'collected results of a scan')
    elif case['loop'] == 'fori':
        end = jax.lax.fori_loop(0, k, lambda i, x: step(x, ys[0]), x)
    elif case['loop'] == 'while':
        end, n = jax.lax.while_loop(lambda s: s[1] < k, lambda s: (step(s[0], ys[0]), s[1] + 1), (x, 0))
    else:
        end = x
        for i in range(k):
            end = jax.lax.cond(i % 2 == 0, lambda e: step(e, ys[0]), lambda e: step(e, ys[0]), end)
    check(end.subspace is S and end.context is c and end.shape == (), 'the state of a loop')
    same(end, cur, f'{case["loop"]} of {k} steps')
    return [case['loop'], case['op'], case['otype']] + ([] if k and nonzero(cur) else ['trivial'])


SUBS = [Sub('jit', case_for(st.sampled_from([[], [], [2], [2, 1]])), run_jit, quick=240, thorough=6000, about='compiled expressions against the reference model and eager evaluation'),
        Sub('reuse', reuse_case, run_reuse, quick=100, thorough=2500, about='one compiled function applied to several algebras and subspaces of equal size'),
        Sub('vmap', case_for(st.sampled_from([[2], [3], [1], [2, 2]])), run_vmap, quick=200, thorough=5000, about='mapped expressions against evaluation element by element'),
        Sub('grad', case_for(st.just([])), run_grad, quick=200, thorough=5000, about='gradients of expressions against dual numbers in the reference model'),
        Sub('tree', tree_case, run_tree, quick=240, thorough=6000, about='flattening, rebuilding, tree maps and functional updates'),
        Sub('loop', loop_case, run_loop, quick=120, thorough=3000, about='scan, for, while and conditional with multivectors as state')]
