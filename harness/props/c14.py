import numpy as np
from hypothesis import strategies as st
from ..core import Sub
from .. import gen
from ..nv import *
from .c12 import lazy, shapes
from .c13 import spec, make, contract, inputs as equal_inputs, STRATEGIES

ID = 'C14'
RULE = ('bind: operators of arity one to four with any batch shapes, bound to an ordered selection of arguments in one or more stages; '
        'maps: a history of indexing, functional assignment, summing, concatenation, squeezing, transposition and inversion of a '
        'unary map against the same operations on matrices; direct: sandwich and inertia maps against the products; non-trivial when '
        'the result is nonzero')


@st.composite
def bind_case(draw, tier):
    s = draw(gen.sig(1, 4))
    n = len(s)
    sp = draw(spec(n, 8, ['un', 'bin', 'bin', 'bin', 'tern', 'tern', 'tern', 'self', 'self', 'raw', 'raw', 'raw', 'tree', 'tree']))
    return dict(sig=s, spec=sp, shape=draw(shapes(4, zero=False)), x=draw(gen.ints(96)), off=draw(st.integers(0, 95)),
                order=list(draw(st.permutations([0, 1, 2, 3]))), sizes=draw(st.lists(st.sampled_from([1, 1, 1, 2, 3]), min_size=1, max_size=3)),
                call=draw(st.booleans()))


def bind_runner(name):
    backend, otype, _ = STRATEGIES[name]

    def run(case):
        c = ctx(case['sig'], backend, otype=otype())
        op, sym, _ = make(c, case['spec'])
        k = sym.arity
        vals = equal_inputs(case, sym, list(range(k)))
        want = contract(sym, vals)
        mvs = [c.multivector(subspace=S, values=v.copy()) for S, v in zip(sym.inputs, vals)]
        order = [i for i in case['order'] if i < k]
        left = list(range(k))        # original positions of the arguments that are not bound yet
        cur = op
        stages = 0
        if backend == 'numpy' and 'einsum' in name and case['call'] and k > 1:
            # a subspace in the place of an argument leaves that argument open
            first, order = order[:-1][:case['sizes'][0]], order[len(order[:-1][:case['sizes'][0]]):]
            cur = op(*(mvs[i] if i in first else sym.inputs[i] for i in range(k)))
            left = [i for i in left if i not in first]
            stages += 1
        else:
            for sz in case['sizes']:
                take = order[:min(sz, len(order))]
                if not take:
                    break
                order = order[len(take):]
                cur = cur.partial({left.index(i): mvs[i] for i in take})
                left = [i for i in left if i not in take]
                stages += 1
                check(cur.output is sym.output, 'output of a bound operator')
                check(cur.inputs == tuple(sym.inputs[i] for i in left) and cur.arity == len(left), 'remaining inputs of a bound operator')
                bs = np.broadcast_shapes(*(tuple(mvs[i].shape) for i in range(k) if i not in left))
                check(tuple(cur.shape) == bs, lambda: f'batch shape of a bound operator: {tuple(cur.shape)}, expected {bs}')
        got = arr(cur(*(mvs[i] for i in left))) if left else np.asarray(cur.kernel)
        scale = max(1.0, np.max(np.abs(want), initial=0))
        check(got.shape == want.shape, lambda: f'shape {got.shape}, expected {want.shape}')
        check(np.all(np.abs(got - want) <= 1e-9 * scale), lambda: f'bound in {stages} stages: {short(got)}, expected {short(want)}')
        for m, v in zip(mvs, vals):
            check(np.array_equal(arr(m), v), 'input changed')
        check(np.array_equal(np.asarray(op.kernel), np.asarray(sym.kernel)), 'operator changed')
        # the original operator is still what it was
        check(np.allclose(arr(op(*mvs)), want, rtol=0, atol=1e-9 * scale), 'the operator after binding')
        return [f'arity{k}', f'left{len(left)}', f'stages{stages}'] + ([] if np.any(want) else ['trivial'])
    return run


# ---- unary maps as matrices
@st.composite
def map_case(draw, tier):
    s = draw(gen.sig(1, 4))
    n = len(s)
    square = draw(st.booleans())
    a = draw(gen.blades(n, cap=5, empty=False))
    b = draw(gen.blades(n, cap=5, empty=False))
    h = draw(st.lists(st.sampled_from([1, 2, 3, 2]), min_size=0, max_size=3))
    if square:
        b = (b + [x for x in range(2 ** n) if x not in b])[:len(a)]
    i = st.integers(0, 1000)
    ops = draw(st.lists(st.tuples(st.sampled_from(MOVES), i, i), min_size=1, max_size=6))
    return dict(sig=s, a=sorted(a), b=sorted(b), shape=h, k=draw(gen.ints(int(np.prod(h, dtype=int)) * len(a) * len(b))),
                x=draw(gen.ints(12)), ops=[list(o) for o in ops])


MOVES = ['int', 'slice', 'tuple', 'array', 'mask', 'newaxis', 'set', 'set_array', 'sum', 'sum_last', 'concat', 'concat_last', 'squeeze',
         'transpose', 'inverse', 'inverse', 'at_copy']


def map_runner(backend):
    def run(case):
        c = ctx(case['sig'], backend)
        A, B = space(c, case['a']), space(c, case['b'])
        p, q = len(A), len(B)
        from numga.operator.operator import Operator
        M = np.array(case['k'], dtype=float).reshape(tuple(case['shape']) + (p, q))
        # as a raw kernel; the array type of the backend
        if backend == 'torch':
            import torch
            ker = torch.asarray(M)
        elif backend == 'jax':
            import jax.numpy as jnp
            ker = jnp.asarray(M)
        else:
            ker = M.copy()
        cur = c.operator(Operator(ker, (A, B)))
        hist = [(cur, M.copy(), list(case['a']), list(case['b']))]
        ia, ib = blist(A), blist(B)
        used = []
        for op, i, j in case['ops']:
            h = M.shape[:-2]
            r = len(h)
            if M.size > 3000 or 0 in M.shape:
                break
            if r == 0 and op in ('int', 'slice', 'tuple', 'array', 'mask', 'set', 'set_array', 'sum', 'sum_last', 'concat', 'concat_last'):
                continue
            used.append(op)
            if op == 'int':
                cur, M = cur[i % h[0]], M[i % h[0]]
            elif op == 'slice':
                t = slice(i % h[0], None) if j % 2 else slice(None, None, 1 + i % 2)
                cur, M = cur[t], M[t]
            elif op == 'tuple':
                t = tuple((i + m * j) % h[m] if (j >> m) % 2 else slice(None) for m in range(1 + i % r))
                cur, M = cur[t], M[t]
            elif op == 'array':
                t = np.array([(i + 2 * m) % h[0] for m in range(1 + j % 3)])
                cur, M = cur[t], M[t]
            elif op == 'mask':
                t = np.array([(i >> m) % 2 == 1 or m == j % h[0] for m in range(h[0])])
                cur, M = cur[t], M[t]
            elif op == 'newaxis':
                if r > 3:
                    continue
                cur, M = cur[None], M[None]
            elif op == 'set':
                old = M
                M = M.copy()
                M[i % h[0]] = j % 5
                cur = cur.at[i % h[0]].set(float(j % 5))
            elif op == 'set_array':
                v = np.arange(p * q).reshape(p, q) - j % 5 + 0.0
                M = M.copy()
                M[i % h[0]] = v
                cur = cur.at[i % h[0]].set(__import__('torch').asarray(v) if backend == 'torch' else v)
            elif op == 'at_copy':
                continue
            elif op in ('sum', 'sum_last'):
                t = i % r if op == 'sum' else r - 1
                cur, M = cur.sum(t), M.sum(t)
            elif op in ('concat', 'concat_last'):
                t = i % r if op == 'concat' else r - 1
                o, W = cur, M
                for (o2, W2, a2, b2) in hist[j % len(hist):]:
                    if (a2, b2) == (ia, ib) and W2.ndim == M.ndim and all(x == y for m, (x, y) in enumerate(zip(W2.shape, M.shape)) if m != t):
                        o, W = o2, W2
                        break
                cur, M = cur.concatenate(o, t), np.concatenate([M, W], axis=t)
            elif op == 'squeeze':
                if backend == 'torch':
                    continue
                keep = [m for m in range(len(ib)) if np.any(np.abs(M[..., m]) > 1e-6)]
                cur, M = cur.squeeze(), M[..., keep]
                ib = [ib[m] for m in keep]
            elif op == 'transpose':
                if backend != 'numpy':
                    continue
                cur, M = cur.transpose(), np.swapaxes(M, -1, -2)
                ia, ib = ib, ia
            elif op == 'inverse':
                if M.shape[-1] != M.shape[-2]:
                    continue
                dets = np.abs(np.linalg.det(M))
                if not np.all(dets > 1e-2) or np.max(np.linalg.cond(M), initial=0) > 1e4:
                    continue
                cur, M = cur.inverse(), np.linalg.inv(M)
                ia, ib = ib, ia
            p, q = len(ia), len(ib)
            scale = max(1.0, np.max(np.abs(M), initial=0))
            check(blist(cur.inputs[0]) == ia and blist(cur.output) == ib, f'{op}: axes')
            check(tuple(cur.shape) == M.shape[:-2], lambda: f'{op}: batch shape {tuple(cur.shape)}, expected {M.shape[:-2]}')
            x = np.array([case['x'][m % 12] for m in range(p)], dtype=float)
            X = c.multivector(subspace=cur.inputs[0], values=x)
            want = np.einsum('...ij,i->...j', M, x)
            got = arr(cur(X))
            check(got.shape == want.shape, lambda: f'{op}: result of shape {got.shape}, expected {want.shape}')
            check(np.all(np.abs(got - want) <= 1e-7 * scale), lambda: f'{op}: {short(got)}, expected {short(want)}')
            if M.ndim > 2 and 0 not in M.shape:
                xb = x * (1 + np.arange(M.shape[-3])[:, None])
                want = np.einsum('...ij,...i->...j', M, xb)
                got = arr(cur(c.multivector(subspace=cur.inputs[0], values=xb)))
                check(got.shape == want.shape and np.all(np.abs(got - want) <= 1e-6 * scale), lambda: f'{op} on a batch: {short(got)}, expected {short(want)}')
            if op == 'inverse':
                y = hist[-1][0](cur(X))
                check(np.allclose(arr(y), np.broadcast_to(x, arr(y).shape), atol=1e-5 * scale), 'map after inverse')
            hist.append((cur, M.copy(), list(ia), list(ib)))
        for o, W, a2, b2 in hist:
            check(np.allclose(np.asarray(o.kernel), W, rtol=1e-9, atol=1e-9 * max(1.0, np.max(np.abs(W), initial=0))), 'an earlier map changed')
        return list(set(used)) + ([] if used and np.any(M) else ['trivial'])
    return run


# ---- inverses of badly scaled maps
@st.composite
def scaled_case(draw, tier):
    s = draw(gen.sig(1, 4))
    n = len(s)
    a = draw(gen.blades(n, cap=5, empty=False))
    b = draw(gen.blades(n, cap=5, empty=False))
    b = (b + [x for x in range(2 ** n) if x not in b])[:len(a)]
    a = a[:len(b)]
    p = len(a)
    h = draw(st.sampled_from([[], [], [2], [1, 3]]))
    m = int(np.prod(h, dtype=int))
    e = st.lists(st.integers(-12, 12), min_size=m * p, max_size=m * p)
    return dict(sig=s, a=sorted(a), b=sorted(b), shape=h, k=draw(gen.ints(m * p * p)), rows=draw(e), cols=draw(e),
                diag=draw(st.booleans()), x=draw(gen.ints(p)))


def scaled_runner(backend):
    def run(case):
        c = ctx(case['sig'], backend)
        A, B = space(c, case['a']), space(c, case['b'])
        from numga.operator.operator import Operator
        p, h = len(A), tuple(case['shape'])
        M = np.array(case['k'], dtype=float).reshape(h + (p, p))
        if case['diag']:
            M = np.where(M == 0, 1, M) * np.eye(p)
        R = np.array(case['rows'], dtype=float).reshape(h + (p,))
        C = np.array(case['cols'], dtype=float).reshape(h + (p,))
        M = 2.0 ** R[..., :, None] * M * 2.0 ** C[..., None, :]
        with np.errstate(all='ignore'):
            cond = np.max(np.linalg.cond(M)) if not np.any(np.abs(np.linalg.det(M)) < 1e-60) else np.inf
        if not cond < 1e9:
            return ['singular', 'trivial']
        if backend == 'torch':
            import torch
            ker = torch.asarray(M)
        elif backend == 'jax':
            import jax.numpy as jnp
            ker = jnp.asarray(M)
        else:
            ker = M.copy()
        f = c.operator(Operator(ker, (A, B)))
        g = f.inverse()
        check(blist(g.inputs[0]) == blist(B) and blist(g.output) == blist(A), 'axes of the inverse')
        check(tuple(g.shape) == h, lambda: f'batch shape {tuple(g.shape)}, expected {h}')
        K = np.asarray(g.kernel)
        check(K.dtype == np.float64, lambda: f'inverse of type {K.dtype}')
        # an inverse computed in double precision leaves a residual of at most about cond * 1e-16
        for P, Q, what in ((M, K, 'map, then inverse'), (K, M, 'inverse, then map')):
            res = np.abs(np.einsum('...ij,...jk->...ik', P, Q) - np.eye(p))
            # relative to the size of the terms that are summed
            size = np.einsum('...ij,...jk->...ik', np.abs(P), np.abs(Q))
            check(np.all(res <= 1e-13 * cond * np.maximum(1, np.max(size, axis=(-1, -2), keepdims=True))), lambda: f'{what}: residual {np.max(res):.3g} at condition number {cond:.3g}')
        return [f'cond1e{int(np.log10(cond))}'] + ([] if np.any(M != np.eye(p)) else ['trivial'])
    return run


# ---- maps of multivectors
@st.composite
def direct_case(draw, tier):
    s = draw(gen.sig(2, 4, weights=[2, 3, 3, 4, 4]))
    n = len(s)
    R = draw(gen.blades(n, cap=8, empty=False, kinds=['even', 'even', 'grade', 'subset', 'few', 'odd']))
    v = draw(st.one_of(st.none(), gen.blades(n, cap=8)))
    sh = draw(shapes(2, zero=False))
    return dict(sig=s, R=R, v=v, shape=sh, x=draw(gen.ints(64)), off=draw(st.integers(0, 63)))


def direct_runner(backend, otype=None):
    def run(case):
        c = ctx(case['sig'], backend, otype=otype() if otype else None)
        n0 = ctx(case['sig'])
        n = len(case['sig'])
        rf = ref(case['sig'])
        on = gen.order_canonical
        R = on(case['R'])
        vec = on([1 << i for i in range(n)])
        biv = on([b for b in range(2 ** n) if gen.grade(b) == 2])

        def vals(shape, bl, k0):
            size = int(np.prod(shape, dtype=int)) * len(bl)
            return np.array([case['x'][(k0 + 5 * i + i // 7) % 64] for i in range(size)], dtype=float).reshape(tuple(shape) + (len(bl),))
        h, g = case['shape']
        rv = vals(h, R, case['off'])
        m = c.multivector(subspace=space(c, R), values=rv.copy())
        seen = False
        for which in ('sandwich', 'inertia'):
            V = on(case['v']) if case['v'] is not None else (vec if which == 'sandwich' else biv)
            vv = vals(g, V, case['off'] + 31)
            w = c.multivector(subspace=space(c, V), values=vv.copy())
            f = m.sandwich_map if which == 'sandwich' else m.inertia_map
            op = f() if case['v'] is None else (f(w.subspace) if case['off'] % 2 else f(**{'v' if which == 'sandwich' else 'b': w.subspace}))
            check(op.arity == 1 and op.inputs == (w.subspace,) and tuple(op.shape) == tuple(h), f'{which} map')
            y = op(w)
            shape = np.broadcast_shapes(h, g)
            a = arr(y)
            check(a.shape[:-1] == shape, lambda: f'{which} map: batch {a.shape[:-1]}, expected {shape}')
            for idx in list(np.ndindex(*shape))[:4]:
                from .c12 import item
                d = dict(zip(R, item(rv, tuple(h), idx)))
                e = dict(zip(V, item(vv, tuple(g), idx)))
                if which == 'sandwich':
                    gr = {gen.grade(b) for b in V}
                    want = {b: x for b, x in rf.sandwich(d, e).items() if gen.grade(b) in gr}
                else:
                    want = rf.regressive(d, rf.comm(d, e, -1))
                seen |= nonzero(want)
                same({b: a[idx + (i,)] for i, b in enumerate(blist(y.subspace))}, want, f'{which} map at {idx}')
            direct = m.sandwich(w) if which == 'sandwich' else m.regressive(m.commutator(w))
            same({b: np.broadcast_to(x, shape) for b, x in todict(y).items()}, {b: np.broadcast_to(x, shape) for b, x in todict(direct).items()}, f'{which} map and direct product')
            check(np.array_equal(arr(m), rv) and np.array_equal(arr(w), vv), 'input changed')
        return [f'd{n}'] + ([] if seen else ['trivial'])
    return run


# ---- motors: the matrix of the inverse motion is the inverse matrix
@st.composite
def motor_case(draw, tier):
    s = draw(gen.sig(2, 4, weights=[2, 3, 3, 4]))
    n = len(s)
    return dict(sig=s, vs=[draw(gen.ints(n)) for _ in range(4)], h=draw(st.sampled_from([1, 2])), grade=draw(st.integers(1, n)), k=draw(st.integers(0, 3)))


def run_motor(case):
    c = ctx(case['sig'])
    h = case['h']
    n = len(case['sig'])
    vs = np.array(case['vs'], dtype=float)
    fac = [c.multivector(subspace=c.subspace.vector(), values=np.stack([vs[(i + j) % 4] for j in range(h)])) for i in (0, 1)]
    R = fac[0] * fac[1]
    N = (R * ~R).select[0].values[..., 0]
    if np.any(np.abs(N) < 0.5):
        return ['trivial']
    V = c.subspace.k_vector(case['grade'])
    A, B = R.sandwich_map(V), (~R).sandwich_map(V)
    n2 = (N ** 2)[:, None, None]
    same_ = lambda a, b, w: check(np.allclose(a, b, atol=1e-7 * max(1, np.max(np.abs(b)))), lambda: f'{w}: {short(a)} expected {short(b)}')
    same_(np.matmul(A.kernel, B.kernel), np.broadcast_to(np.eye(len(V)) * n2, A.kernel.shape), 'matrix of reverse motor')
    x = c.multivector(subspace=V, values=np.arange(len(V)) + 1.0)
    I = A.inverse()
    same_(I(x).values * N[:, None] ** 2, (~R).sandwich(x).values, 'inverse of the sandwich map')
    same_(I.inverse()(x).values, R.sandwich(x).values, 'inverse of the inverse')
    T = A.transpose()
    lhs = (A(x).values * np.arange(len(V))).sum(-1)
    rhs = (x.values * T(c.multivector(subspace=V, values=np.arange(len(V)) + 0.0)).values).sum(-1)
    same_(lhs, rhs, 'transposed map')
    S = A.sum(0)
    same_(S(x).values, R.sandwich(x).values.sum(0), 'sum of maps')
    return [f'd{n}']


SUBS = [
    Sub('bind', bind_case, bind_runner('numpy_einsum'), quick=700, thorough=25000, about='binding, numpy einsum'),
    Sub('bind_high', lambda t: gen.high(bind_case(t), 9, 10), bind_runner('numpy_einsum'), quick=250, thorough=2000, about='binding, d 9 and 10'),
    Sub('bind_sparse', bind_case, bind_runner('numpy_sparse'), quick=200, thorough=6000, about='binding, numpy sparse'),
    Sub('bind_torch', bind_case, bind_runner('torch_einsum'), quick=250, thorough=6000, about='binding, torch einsum'),
    Sub('bind_torch_sparse', bind_case, bind_runner('torch_sparse'), quick=60, thorough=3000, about='binding, torch sparse'),
    Sub('bind_torch_dense', bind_case, bind_runner('torch_dense'), quick=60, thorough=3000, about='binding, torch dense'),
    Sub('bind_jax', bind_case, bind_runner('jax_einsum'), quick=48, thorough=1500, shards=8, about='binding, jax einsum'),
    Sub('bind_jax_sparse', bind_case, bind_runner('jax_sparse'), quick=24, thorough=800, shards=4, about='binding, jax sparse'),
    Sub('maps', map_case, map_runner('numpy'), quick=800, thorough=25000, about='histories of unary maps, numpy'),
    Sub('maps_high', lambda t: gen.high(map_case(t), 9, 10), map_runner('numpy'), quick=100, thorough=3000, about='histories of unary maps, d 9 and 10'),
    Sub('maps_torch', map_case, map_runner('torch'), quick=200, thorough=6000, about='histories of unary maps, torch'),
    Sub('maps_jax', map_case, map_runner('jax'), quick=32, thorough=1000, shards=4, about='histories of unary maps, jax'),
    Sub('inverses', scaled_case, scaled_runner('numpy'), quick=300, thorough=10000, about='inverses of badly scaled maps, numpy'),
    Sub('inverses_torch', scaled_case, scaled_runner('torch'), quick=120, thorough=4000, about='inverses of badly scaled maps, torch'),
    Sub('inverses_jax', scaled_case, scaled_runner('jax'), quick=24, thorough=600, shards=4, about='inverses of badly scaled maps, jax'),
    Sub('direct', direct_case, direct_runner('numpy'), quick=300, thorough=10000, about='sandwich and inertia maps, numpy'),
    Sub('direct_high', lambda t: gen.high(direct_case(t), 9, 10), direct_runner('numpy'), quick=60, thorough=2000, about='sandwich and inertia maps, d 9 and 10'),
    Sub('direct_sparse', direct_case, direct_runner('numpy', lazy('numpy', 'NumpySparseOperator')), quick=80, thorough=3000, about='sandwich and inertia maps, numpy sparse'),
    Sub('direct_torch', direct_case, direct_runner('torch'), quick=80, thorough=3000, about='sandwich and inertia maps, torch'),
    Sub('direct_jax', direct_case, direct_runner('jax'), quick=16, thorough=600, shards=4, about='sandwich and inertia maps, jax'),
    Sub('motors', motor_case, run_motor, quick=200, thorough=6000, about='matrices of motors'),
]
