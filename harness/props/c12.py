import itertools
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, Violation
from .. import gen
from ..nv import *
from .c02 import DEF as BINARY
from .c04 import DEF as ANTI

ID = 'C12'
RULE = ('operators and functions: generated subspaces and broadcast compatible batch shapes, compared index by index with unbatched '
        'evaluation; shapes: a history of indexing, functional assignment, reshaping, gathering, summing and concatenation against '
        'the same numpy operations on the batch axes; non-trivial when a batch axis has two or more elements')

UNARY = ['reverse', 'involute', 'conjugate', 'right_hodge', 'left_hodge_inverse', 'left_complement', 'scalar_negation', 'degenerate', 'identity']
QUAD = ['squared', 'symmetric_reverse_product', 'symmetric_pseudoscalar_negation_product']
BIN = sorted(set(BINARY) | set(ANTI))
OPS = [('u', k) for k in UNARY] + [('q', k) for k in QUAD] + [('b', k) for k in BIN] + \
      [('s', k) for k in ('full_sandwich', 'sandwich', 'reverse_sandwich')] * 4 + [('m', k) for k in ('add', 'sub', 'inverse_factor', 'rshift', 'mul')] * 2


@st.composite
def shapes(draw, k, zero=True):
    """k broadcast compatible shapes"""
    rank = draw(st.sampled_from([1, 2, 2, 3, 0]))
    full = [draw(st.sampled_from([2, 3, 1, 2, 3, 4] + ([0] if zero else []))) for _ in range(rank)]
    out = []
    for _ in range(k):
        r = draw(st.sampled_from([rank] * 3 + list(range(rank + 1))))
        out.append([d if draw(st.sampled_from([True, True, False])) else 1 for d in full[len(full) - r:]])
    return out


def op_case(hi, cap, zero=True, ops=OPS, dims=None):
    @st.composite
    def f(draw, tier):
        s = draw(gen.sig(1, hi))
        kind, name = draw(st.sampled_from(ops))
        if len(s) == 1 and name == 'bivector_product':
            name = 'geometric_product'
        k = 1 if kind in 'uq' or name == 'inverse_factor' else 2
        n = len(s)
        cap_ = cap if kind != 's' or n < 4 else min(cap, 6)
        sh = draw(shapes(k, zero))
        xs = []
        for h in sh:
            b = draw(gen.blades(n, cap=cap_))
            xs.append([b, h, draw(gen.ints(len(b) * int(np.prod(h, dtype=int))))])
        return dict(sig=s, kind=kind, op=name, xs=xs)
    return f


def load(c, x):
    b, h, v = x
    b = gen.order_canonical(b)
    return c.multivector(subspace=space(c, b), values=np.array(v, dtype=float).reshape(tuple(h) + (len(b),)))


def apply(c, kind, name, xs):
    if kind == 'u':
        return getattr(c.operator, name)(xs[0].subspace)(xs[0])
    if kind == 'q':
        return getattr(c.operator, name)(xs[0].subspace)(xs[0], xs[0])
    if kind == 'b':
        return getattr(c.operator, name)(xs[0].subspace, xs[1].subspace)(*xs)
    if kind == 's':
        return getattr(c.operator, name)(xs[0].subspace, xs[1].subspace)(xs[0], xs[1], xs[0])
    if name == 'inverse_factor':
        return xs[0].inverse_factor()
    return {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'rshift': lambda a, b: a >> b, 'mul': lambda a, b: a * b}[name](*xs)


def item(a, shape, idx):
    """element of a batch of given shape, at an index into the broadcast shape"""
    off = len(idx) - len(shape)
    return a[tuple(0 if shape[i] == 1 else idx[off + i] for i in range(len(shape)))]


def op_runner(backend, otype=None):
    def run(case):
        c = ctx(case['sig'], backend, otype=otype() if otype else None)
        n0 = ctx(case['sig'])       # unbatched evaluation
        xs = [load(c, x) for x in case['xs']]
        before = [arr(x).copy() for x in xs]
        y = apply(c, case['kind'], case['op'], xs)
        shape = np.broadcast_shapes(*(tuple(x[1]) for x in case['xs']))
        a = arr(y)
        check(a.shape == shape + (len(y.subspace),), lambda: f"{case['op']}: shape {a.shape}, expected {shape + (len(y.subspace),)}")
        check(tuple(y.shape) == shape, 'batch shape')
        done = 0
        for idx in itertools.product(*(range(d) for d in shape)):
            if done > 12 and sum(idx) % 3:
                continue
            done += 1
            e = [n0.multivector(subspace=space(n0, blist(x.subspace)), values=item(v, x_[1], idx))
                 for x, v, x_ in zip(xs, before, case['xs'])]
            w = apply(n0, case['kind'], case['op'], e)
            check(w.values.ndim == 1, 'unbatched evaluation')
            same({b: a[idx + (i,)] for i, b in enumerate(blist(y.subspace))}, w, f"{case['op']} at {idx}")
        for x, v in zip(xs, before):
            check(np.array_equal(arr(x), v), 'input changed')
        return [backend] + ([] if np.prod(shape, dtype=int) > 1 and a.size and np.any(a) else ['trivial'])
    return run


# ---- nonlinear functions
def even(c):
    return c.subspace.even_grade()


FUNCS = {
    # name: (subspace, function of (context, values))
    'inverse': (None, lambda x: x.inverse()),
    'inverse_shirokov': (None, lambda x: x.inverse_shirokov()),
    'inverse_hitzer': (None, lambda x: x.inverse_hitzer()),
    'inverse_la': (None, lambda x: x.inverse_la()),
    'norm_squared': (None, lambda x: x.norm_squared()),
    'norm': ('even', lambda x: x.norm()),
    'normalized': ('even', lambda x: x.normalized()),
    'exp': ('bivector', lambda x: x.exp()),
    'exp_linear_normalized': ('bivector', lambda x: x.exp_linear_normalized()),
    'exp_quadratic': ('bivector', lambda x: x.exp_quadratic()),
    'motor_log': ('motor', lambda x: x.motor_log()),
    'motor_log_quadratic': ('motor', lambda x: x.motor_log_quadratic()),
    'motor_square_root': ('motor', lambda x: x.motor_square_root()),
    'motor_translator': ('motor', lambda x: x.motor_translator()),
    'motor_rotor': ('motor', lambda x: x.motor_rotor()),
    'square_root': ('study', lambda x: x.square_root()),
    'inverse_square_root': ('study', lambda x: x.inverse_square_root()),
    'study_norm': ('study', lambda x: x.study_norm()),
    'decompose_invariant0': ('bivector', lambda x: x.decompose_invariant()[0]),
    'decompose_invariant1': ('bivector', lambda x: x.decompose_invariant()[1]),
    'sqrt': ('positive', lambda x: x.sqrt()),
    'invsqrt': ('positive', lambda x: x.invsqrt()),
    'abs': (None, lambda x: x.abs()),
    'cos': (None, lambda x: x.cos()),
    'sin': (None, lambda x: x.sin()),
    'nan_to_num': (None, lambda x: (x / 0.0).nan_to_num(3.0)),
    'normalize_motor': ('motor', 'numerical'),
    'divide': (None, lambda x: (x * 3.0) / x),
    'rdivide': (None, lambda x: 2.0 / x),
}
BACK = {'torch': ['norm_squared', 'norm', 'normalized', 'exp', 'motor_log', 'motor_square_root', 'inverse', 'inverse_shirokov',
                  'inverse_hitzer', 'sqrt', 'invsqrt', 'abs', 'motor_translator', 'exp_quadratic', 'nan_to_num', 'divide']}
BACK['jax'] = [k for k in BACK['torch'] if k not in ('exp', 'motor_log')] + ['inverse_la']


def fn_case(hi, names):
    @st.composite
    def f(draw, tier):
        s = draw(gen.sig(2, hi, weights=[2, 2, 3, 3, 3, 4, 4, 4, 5][:8 + (hi > 4)]))
        name = draw(st.sampled_from(names))
        n = len(s)
        b = draw(st.one_of(gen.blades(n, cap=16 if n < 5 else 10, kinds=['grades', 'grades', 'even', 'odd', 'subset', 'few']),
                           st.just([b for b in range(2 ** n) if gen.grade(b) % 2 == 0])))
        h = draw(st.sampled_from([[2], [3], [2, 2], [1, 3], [3, 1, 2], [5], [0], [2, 0]]))
        k = int(np.prod(h, dtype=int))
        return dict(sig=s, fn=name, b=b, shape=h, x=draw(gen.floats(k * 2 ** n, 1.0)))
    return f


def prepare(c, case):
    """input of the function, as values on a subspace"""
    kind = FUNCS[case['fn']][0]
    sig = case['sig']
    n = len(sig)
    h = tuple(case['shape'])
    v = np.array(case['x'], dtype=float).reshape(h + (2 ** n,))
    if kind is None or kind == 'positive':
        b = gen.order_canonical(case['b'])
        v = v[..., b]
        return b, (np.abs(v) + 0.1 if kind else v)
    ev = [b for b in gen.order_canonical(case['b']) if gen.grade(b) % 2 == 0]
    if kind == 'even':
        b = ev
        v = v[..., b] + np.array([3.0 * (k == 0) for k in b])
        return b, v
    biv = [b for b in gen.order_canonical(range(2 ** n)) if gen.grade(b) == 2]
    if kind == 'bivector':
        b = [b for b in biv if b in case['b']] or biv
        return b, v[..., b]
    if kind == 'study':
        p = biv[int(abs(sum(case['x'][:3])) * 7) % len(biv)]
        b = [0, p]
        return b, v[..., b] * 0.4 + np.array([1.5, 0.0])
    # motor close to one, made by the reference exponential-free route: a product of two bireflections
    n0 = ctx(sig)
    m = n0.multivector.scalar([1.0])
    for k in range(2):
        m = m * (n0.multivector(subspace=n0.subspace.bivector(), values=v[..., biv] * 0.3 * (k + 1)) + 1).normalized()
    m = m.select_subspace(n0.subspace.even_grade())
    return blist(m.subspace), m.values


def fn_runner(backend):
    def run(case):
        c, n0 = ctx(case['sig'], backend), ctx(case['sig'])
        kind, f = FUNCS[case['fn']]
        if f == 'numerical':
            from numga.multivector.numerical_normalize import normalize_motor
            f = lambda x: normalize_motor(x * 1.01)
        with np.errstate(all='ignore'):
            b, v = prepare(n0, case)
            if not np.all(np.isfinite(v)):
                return ['trivial']
            h = tuple(case['shape'])
            elements = list(itertools.product(*(range(d) for d in h)))
            # the function may not apply to this subspace, or this value; then it has to fail for the elements as well
            want, err = [], None
            if len(elements) == 0:
                elements_v = [np.ones(len(b)) + np.arange(len(b)) * 0.1]
            else:
                elements_v = [v[i] for i in elements]
            for e in elements_v:
                try:
                    want.append(f(n0.multivector(subspace=space(n0, b), values=e)))
                except Exception as ex:
                    err = ex
            x = c.multivector(subspace=space(c, b), values=v.copy())
            try:
                y = f(x)
            except Exception as ex:
                if err is not None or not elements:     # e.g. no applicable rule, singular matrix
                    return ['trivial', 'rejected']
                raise
            if err is not None and not isinstance(err, np.linalg.LinAlgError):
                check(False, f"{case['fn']}: raises {type(err).__name__} on the elements, and not on the batch")
            if err is not None:
                return ['trivial']
            a = arr(y)
            check(np.array_equal(arr(x), v), 'input changed')
            check(a.shape[-1] == len(y.subspace), 'trailing axis')
            ok_shape = a.shape[:-1] == h
            # results which do not depend on the values may be left to broadcast
            if not ok_shape:
                check(a.shape[:-1] == () and len(set(tuple(np.nan_to_num(w.values)) for w in want)) <= 1,
                      lambda: f"{case['fn']}: batch shape {a.shape[:-1]}, expected {h}")
                a = np.broadcast_to(a, h + a.shape[-1:])
            for i, w in zip(elements, want):
                check(blist(w.subspace) == blist(y.subspace), 'subspace depends on the batch')
                wv = w.values
                m = np.max(np.abs(wv), initial=1.0, where=np.isfinite(wv))
                big = m > 1e3      # badly conditioned
                fin = np.isfinite(wv) & np.isfinite(a[i])
                if not big:
                    check(np.all(np.isfinite(a[i])) or not np.all(np.isfinite(wv)) or backend != 'numpy', lambda: f"{case['fn']} at {i}: {short(a[i])}, expected {short(wv)}")
                    check(np.all(np.abs(a[i] - wv)[fin] <= 1e-5 * m), lambda: f"{case['fn']} at {i}: {short(a[i])}, expected {short(wv)}")
        return [case['fn']] + ([] if len(elements) > 1 else ['trivial'])
    return run


# ---- batch manipulation
@st.composite
def shape_case(draw, tier):
    s = draw(gen.sig(1, 4))
    b = draw(gen.blades(len(s), cap=6, empty=False))
    h = draw(st.lists(st.sampled_from([2, 3, 4, 1]), min_size=1, max_size=3))
    i = st.integers(0, 1000)
    ops = draw(st.lists(st.tuples(st.sampled_from(MOVES), i, i, i), min_size=1, max_size=6))
    return dict(sig=s, b=b, shape=h, x=draw(gen.ints(len(b) * int(np.prod(h)))), ops=[list(o) for o in ops])


MOVES = ['int', 'slice', 'step', 'tuple', 'tuple', 'arrays', 'mask', 'list', 'newaxis', 'set_scalar', 'set_mv', 'set_tuple', 'set_arrays',
         'set_mask', 'sum', 'mean', 'concat', 'take', 'rearrange', 'merge', 'repeat', 'reshape', 'flatten', 'copy', 'neg', 'add', 'ellipsis']


def shape_runner(backend):
    def run(case):
        c = ctx(case['sig'], backend)
        S = space(c, case['b'])
        o = blist(S)
        k = len(o)
        # thirds and sevenths have no short binary expansion, so a detour through single precision shows
        ref_ = np.array(case['x'], dtype=float).reshape(tuple(case['shape']) + (k,)) / (3 if sum(case['x']) % 2 else 7)
        x = c.multivector(subspace=S, values=ref_.copy())
        hist = [(x, ref_.copy())]
        used = []
        numpy_only = backend == 'numpy'
        wrap = np.asarray
        if backend == 'torch':
            import torch
            wrap = torch.asarray
        for op, i, j, l in case['ops']:
            h = ref_.shape[:-1]
            rank = len(h)
            if ref_.size > 4000 or (rank == 0 and op not in ('newaxis', 'copy', 'neg', 'add', 'flatten')) or 0 in h:
                continue
            if rank > 4 and op in ('newaxis', 'repeat'):
                continue
            used.append(op)
            a = i % rank if rank else 0
            d = h[a] if rank else 1
            if op == 'int':
                q = i % h[0] - (h[0] if j % 2 else 0)
                y, w = x[q], ref_[q]
            elif op == 'slice':
                q = slice(i % h[0], None) if j % 2 else slice(None, 1 + i % h[0])
                y, w = x[q], ref_[q]
            elif op == 'step':
                q = slice(i % h[0], None, 1 + j % 2)
                y, w = x[q], ref_[q]
            elif op == 'ellipsis':
                q = (Ellipsis, slice(0, 1 + j % h[-1]), slice(None))
                y, w = x[q], ref_[q]
            elif op == 'tuple':
                q = tuple((i + m * j) % h[m] if (l >> m) % 2 else slice(None, None, 1 + m % 2) for m in range(1 + i % rank))
                y, w = x[q], ref_[q]
            elif op in ('arrays', 'set_arrays'):
                m = 1 + i % rank
                q = tuple(np.array([(j + t * (u + 1)) % h[u] for t in range(3)]) for u in range(m))
                q = q[0] if m == 1 and j % 2 else q
                if op == 'arrays':
                    y, w = x[q], ref_[q]
                else:
                    y = x.at[q].set(float(l % 7))
                    w = ref_.copy()
                    w[q] = l % 7
            elif op in ('mask', 'set_mask'):
                q = np.array([(i >> (t % 9)) % 2 == 1 or t == j % h[0] for t in range(h[0])])
                if op == 'mask':
                    y, w = x[q], ref_[q]
                else:
                    y = x.at[q].set(2.0)
                    w = ref_.copy()
                    w[q] = 2
            elif op == 'list':
                q = [(i + 2 * t) % h[0] for t in range(1 + j % 3)]
                if backend == 'jax':
                    q = np.array(q)
                y, w = x[q], ref_[q]
            elif op == 'newaxis':
                q = None if j % 2 or not rank else (slice(None), None)
                y, w = x[q], ref_[q]
            elif op == 'set_scalar':
                q = i % h[0]
                y = x.at[q].set(float(j % 5))
                w = ref_.copy()
                w[q] = j % 5
            elif op == 'set_mv':
                q, p = i % h[0], j % h[0]
                y = x.at[q].set(x[p])
                w = ref_.copy()
                w[q] = ref_[p]
            elif op == 'set_tuple':
                q = tuple((i + m * j) % h[m] for m in range(1 + i % rank))
                val = np.arange(k) + 1.0
                y = x.at[q].set(c.multivector(subspace=S, values=val))
                w = ref_.copy()
                w[q] = val
            elif op == 'sum':
                y, w = x.sum(a), ref_.sum(a)
            elif op == 'mean':
                y, w = x.mean(a), ref_.mean(a)
            elif op == 'concat':
                p, pw = hist[j % len(hist)]
                if pw.shape[:-1][:a] + pw.shape[:-1][a + 1:] != h[:a] + h[a + 1:] or pw.ndim != ref_.ndim:
                    p, pw = -x, -ref_
                y, w = x.concatenate(p, a), np.concatenate([ref_, pw], axis=a)
            elif op == 'take':
                q = np.array([(i * 7 + t * (1 + j)) % d for t in range(int(np.prod(h)) // d * (1 + j % 3))]).reshape(h[:a] + (1 + j % 3,) + h[a + 1:])
                y, w = x.take_along_axis(wrap(q), a), np.take_along_axis(ref_, q[..., None], a)
            elif op == 'rearrange':
                names = [f'a{t}' for t in range(rank)]
                perm = list(range(rank))
                perm = perm[i % rank:] + perm[:i % rank]
                y = x.rearrange(' '.join(names) + ' k -> ' + ' '.join(names[p] for p in perm) + ' k')
                w = ref_.transpose(perm + [rank])
            elif op == 'merge':
                names = [f'a{t}' for t in range(rank)]
                y = x.rearrange(' '.join(names) + ' k -> (' + ' '.join(names) + ') k')
                w = ref_.reshape(-1, k)
            elif op == 'repeat':
                names = [f'a{t}' for t in range(rank)]
                r_ = 1 + j % 3
                y = x.repeat(' '.join(names) + ' k -> ' + ' '.join(names[:a] + ['r'] + names[a:]) + ' k', r=r_)
                w = np.repeat(np.expand_dims(ref_, a), r_, axis=a)
            elif op == 'reshape' and numpy_only:
                sh = (h[0], -1) if rank > 1 and j % 2 else (int(np.prod(h)), 1)
                y, w = x.reshape(sh), ref_.reshape(tuple(sh) + (k,))
            elif op == 'flatten' and numpy_only:
                y, w = x.flatten(), ref_.reshape(-1, k)
            elif op == 'copy':
                y, w = x.copy(), ref_.copy()
                check(y is not x and y.values is not x.values, 'copy shares its values')
            elif op == 'neg':
                y, w = -x, -ref_
            elif op == 'add':
                y, w = x + x, ref_ + ref_
            else:
                continue
            check(type(y) is type(x) and y.subspace is S, f'{op}: type or subspace')
            g = arr(y)
            check(g.shape == w.shape, lambda: f'{op} of batch {h}: shape {g.shape[:-1]}, expected {w.shape[:-1]}')
            check(np.allclose(g, w, rtol=1e-12, atol=1e-11), lambda: f'{op} of batch {h}: {short(g)}, expected {short(w)}')
            check(tuple(y.shape) == w.shape[:-1], 'shape property')
            if numpy_only and w.ndim > 1:
                check(len(y) == w.shape[0], 'len')
            x, ref_ = y, np.array(w)
            hist.append((x, ref_.copy()))
        # the originals are untouched, and elementwise operations commute with the history
        for y, w in hist:
            check(np.allclose(arr(y), w, rtol=1e-12, atol=1e-11), 'an earlier multivector changed')
        sg = np.array([-1.0 if gen.grade(b) % 4 in (2, 3) else 1.0 for b in o])
        check(np.allclose(arr(~x), ref_ * sg, rtol=1e-12, atol=1e-11), 'reversal of the result')
        return [u for u in set(used)] + ([] if len(used) > 1 and max(case['shape']) > 1 else ['trivial'])
    return run


def lazy(mod, name):
    def f():
        import importlib
        return getattr(importlib.import_module(f'numga.backend.{mod}.operator'), name)
    return f


CHEAP = [o for o in OPS if o[1] != 'inverse_factor']
SUBS = [
    Sub('numpy', op_case(5, 12), op_runner('numpy'), quick=700, thorough=20000, about='operators, einsum strategy'),
    Sub('numpy_high', lambda t: gen.high(op_case(4, 6, ops=CHEAP)(t), 9, 10), op_runner('numpy'), quick=250, thorough=2000, about='operators, d 9 and 10'),
    Sub('numpy_sparse', op_case(4, 8, ops=CHEAP), op_runner('numpy', lazy('numpy', 'NumpySparseOperator')), quick=250, thorough=8000, about='operators, sparse strategy'),
    Sub('torch', op_case(4, 8), op_runner('torch'), quick=200, thorough=5000, about='torch einsum'),
    Sub('torch_sparse', op_case(3, 6, ops=CHEAP), op_runner('torch', lazy('torch', 'TorchSparseOperator')), quick=100, thorough=3000, about='torch sparse'),
    Sub('jax', op_case(3, 5, ops=CHEAP), op_runner('jax'), quick=48, thorough=1500, shards=8, about='jax einsum'),
    Sub('jax_dense', op_case(3, 5, ops=CHEAP), op_runner('jax', lazy('jax', 'JaxDenseOperator')), quick=48, thorough=1500, shards=8, about='jax dense'),
    Sub('jax_sparse', op_case(3, 4, ops=CHEAP), op_runner('jax', lazy('jax', 'JaxSparseOperator')), quick=24, thorough=800, shards=4, about='jax sparse'),
    Sub('functions', fn_case(5, sorted(FUNCS)), fn_runner('numpy'), quick=500, thorough=12000, about='nonlinear functions, numpy'),
    Sub('functions_torch', fn_case(4, BACK['torch']), fn_runner('torch'), quick=80, thorough=2000, about='nonlinear functions, torch'),
    Sub('functions_jax', fn_case(3, BACK['jax']), fn_runner('jax'), quick=16, thorough=400, shards=4, about='nonlinear functions, jax'),
    Sub('shapes', shape_case, shape_runner('numpy'), quick=700, thorough=20000, about='batch manipulation histories, numpy'),
    Sub('shapes_torch', shape_case, shape_runner('torch'), quick=200, thorough=5000, about='batch manipulation histories, torch'),
    Sub('shapes_jax', shape_case, shape_runner('jax'), quick=32, thorough=1000, shards=4, about='batch manipulation histories, jax'),
]
