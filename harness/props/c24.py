import numpy as np
from hypothesis import strategies as st
from ..core import Sub
from .. import gen
from ..nv import *

ID = 'C24'
RULE = ('chains: generated coordinate tensors without duplicate coordinates (rank one to four, any entry order, explicit zeros), taken through '
        'generated chains of operations next to dense numpy arrays; blades: tensors over the blades of generated subspaces; non-trivial when '
        'the dense tensor at the end has a nonzero entry and at least one operation was applied')


@st.composite
def tensor(draw, rank=None, empty=False):
    r = rank or draw(st.sampled_from([1, 2, 2, 3, 3, 4]))
    shape = [draw(st.integers(1, 3 if r > 2 else 5)) for _ in range(r)]
    size = int(np.prod(shape))
    idx = draw(st.lists(st.integers(0, size - 1), min_size=0 if empty else 1, max_size=12, unique=True))
    return [shape, idx, draw(gen.ints(len(idx)))]


OPS = ['product', 'tensorproduct', 'tensorproduct', 'contract', 'contract', 'contract', 'add', 'add', 'mul', 'transpose', 'transpose', 'drop_zero',
       'drop_zero']


@st.composite
def chain_case(draw, tier):
    a = draw(tensor())
    i = st.integers(0, 11)
    ops = draw(st.lists(st.tuples(st.sampled_from(OPS), i, i, tensor()).map(list), min_size=1, max_size=5))
    return dict(a=a, ops=ops, dtype=draw(st.sampled_from(['int64', 'int64', 'float64', 'uint8'])))


def load(t, dtype='int64', data='int64'):
    from numga.operator.sparse_tensor import SparseTensor
    shape, idx, vals = t
    ax = [np.asarray(x, dtype=dtype) for x in np.unravel_index(np.array(idx, dtype=int), shape)]
    D = np.zeros(shape)
    D.flat[idx] = vals
    return SparseTensor(ax, np.array(vals, dtype=data)), D


def dense(t, shape):
    """Dense form, by the meaning of coordinates"""
    D = np.zeros(shape)
    check(len(t.axes) == len(shape), lambda: f'{len(t.axes)} axes, expected {len(shape)}')
    data = np.asarray(t.data)
    if not shape:
        check(data.ndim == 0, 'data of a scalar')
        return np.asarray(float(data))
    check(data.ndim == 1 and all(np.shape(a) == data.shape for a in t.axes), 'axes and data of different lengths')
    for k, v in enumerate(data):
        c = tuple(int(a[k]) for a in t.axes)
        check(all(0 <= x < s for x, s in zip(c, shape)), lambda: f'coordinate {c} outside of shape {shape}')
        D[c] += v
    return D


def verify(t, D, what):
    got = dense(t, D.shape)
    check(np.array_equal(got, D), lambda: f'{what}: {short(got)}, expected {short(D)}')
    if D.ndim:
        c = [tuple(int(a[k]) for a in t.axes) for k in range(len(t.data))]
        check(len(set(c)) == len(c), lambda: f'{what}: several entries at one coordinate')
        if len(c) and np.max(np.abs(D), initial=0) < 128:
            # the conversion of the library covers the coordinates present
            e = t.to_dense_()
            full = np.zeros(D.shape)
            full[tuple(slice(k) for k in e.shape)] = e
            check(np.array_equal(full, D), lambda: f'{what}: to_dense_ gives {short(e)}, expected {short(D)}')


def run_chain(case):
    coords = 'uint8' if case['dtype'] == 'uint8' else 'int64'
    data = 'float64' if case['dtype'] == 'float64' else 'int64'
    t, D = load(case['a'], coords, data)
    verify(t, D, 'tensor')
    hist = [(t, D.copy(), 'tensor')]
    used = []
    for op, i, j, b in case['ops']:
        if D.size > 3000 or np.max(np.abs(D), initial=0) > 10 ** 6:
            break
        r = D.ndim
        u, E = load(b, coords, data)
        if r == 0 and op not in ('mul',):
            continue
        if op == 'product':
            if len(t.data) * len(u.data) > 2000:
                continue
            if j % 2:
                t, D = u.product(t), np.multiply.outer(E, D)
            else:
                t, D = t.product(u), np.multiply.outer(D, E)
        elif op == 'tensorproduct':
            # contracted axes of different length: coordinates in common count
            if len(t.data) * len(u.data) > 2000:
                continue
            sa, oa = i % r, j % E.ndim
            n = max(D.shape[sa], E.shape[oa])
            P = np.pad(D, [(0, n - k if m == sa else 0) for m, k in enumerate(D.shape)])
            Q = np.pad(E, [(0, n - k if m == oa else 0) for m, k in enumerate(E.shape)])
            t, D = t.tensorproduct(u, sa, oa), np.tensordot(P, Q, axes=(sa, oa))
        elif op == 'contract':
            if r < 2:
                continue
            x, y = i % r, j % r
            if x == y:
                y = (x + 1) % r
            n = min(D.shape[x], D.shape[y])
            P = D[tuple(slice(n) if m in (x, y) else slice(None) for m in range(r))]
            t, D = t.contract((x, y) if i % 2 else [x, y]), np.trace(P, axis1=x, axis2=y)
            D = np.asarray(D)
        elif op == 'add':
            same_rank = load([[b[0][m % len(b[0])] for m in range(r)], [k % int(np.prod([b[0][m % len(b[0])] for m in range(r)])) for k in b[1]], b[2]])[1]
            nz = np.nonzero(same_rank)
            from numga.operator.sparse_tensor import SparseTensor
            u = SparseTensor([x.astype(coords) for x in nz], same_rank[nz].astype(data))
            if len(u.data) + len(t.data) == 0:
                continue
            n = [max(x, y) for x, y in zip(D.shape, same_rank.shape)]
            P = np.pad(D, [(0, m - k) for m, k in zip(n, D.shape)])
            Q = np.pad(same_rank, [(0, m - k) for m, k in zip(n, same_rank.shape)])
            t, D = (t + u, P + Q) if j % 2 else (u + t, P + Q)
        elif op == 'mul':
            k = [2, -1, 3, 0, -2][j % 5]
            t, D = t * k, D * k
        elif op == 'transpose':
            p = sorted(range(r), key=lambda m: (m * 7 + i * 3 + j * (m % 2)) % 11)
            t, D = t.transpose(p), np.transpose(D, p)
        elif op == 'drop_zero':
            t = t.drop_zero()
            check(np.all(np.asarray(t.data) != 0), 'zeros left')
        used.append(op)
        verify(t, D, op)
        hist.append((t, D.copy(), op))
    for s, E, op in hist:
        check(np.array_equal(dense(s, E.shape), E), lambda: f'the result of {op} changed later')
    return sorted(set(used)) + ([] if used and np.any(D) else ['trivial'])


@st.composite
def blade_case(draw, tier):
    s = draw(gen.sig(1, 4))
    n = len(s)
    subs = [draw(gen.blades(n, cap=8, empty=False)) for _ in range(draw(st.integers(1, 3)))]
    size = int(np.prod([len(x) for x in subs]))
    idx = draw(st.lists(st.integers(0, size - 1), min_size=0, max_size=16, unique=True))
    return dict(sig=s, subs=subs, idx=idx, v=draw(gen.ints(len(idx))), drop=draw(st.booleans()), wider=draw(gen.blades(n)))


def run_blade(case):
    """Blades as coordinates, positions within subspaces in the dense form"""
    from numga.operator.sparse_tensor import SparseTensor
    c, r = ctx(case['sig']), ref(case['sig'])
    subs = [gen.order_canonical(x) for x in case['subs']]
    pos = np.unravel_index(np.array(case['idx'], dtype=int), [len(x) for x in subs])
    dt = c.algebra.blade_dtype
    t = SparseTensor([np.array([x[k] for k in p], dtype=dt) for x, p in zip(subs, pos)], np.array(case['v'], dtype=np.int8))
    D = np.zeros([len(x) for x in subs])
    D[pos] = case['v']
    if case['drop']:
        t = t.drop_zero()
    got = t.to_dense(tuple(space(c, x) for x in subs))
    check(got.shape == D.shape and np.array_equal(got, D), lambda: f'to_dense {short(got)}, expected {short(D)}')
    wide = [gen.order_canonical(sorted(set(x) | set(case['wider']))) for x in subs]
    W = np.zeros([len(x) for x in wide])
    for k, v in enumerate(case['v']):
        W[tuple(w.index(x[p[k]]) for w, x, p in zip(wide, subs, pos))] = v
    got = t.to_dense(tuple(space(c, x) for x in wide))
    check(got.shape == W.shape and np.array_equal(got, W), lambda: f'to_dense over larger subspaces {short(got)}, expected {short(W)}')
    # tables of products
    if len(subs) == 2:
        S = [space(c, x) for x in subs]
        table = [[r.mul(a, b) for b in subs[1]] for a in subs[0]]
        t = SparseTensor.from_cayley(S, np.array([[x[0] for x in row] for row in table], dtype=dt), np.array([[x[1] for x in row] for row in table], dtype=np.int8))
        full = c.subspace.full()
        W = np.zeros((len(subs[0]), len(subs[1]), len(full)))
        fb = blist(full)
        for i, row in enumerate(table):
            for j, (b, s) in enumerate(row):
                W[i, j, fb.index(b)] = s
        for q in (t, t.drop_zero()):
            got = q.to_dense((S[0], S[1], full))
            check(got.shape == W.shape and np.array_equal(got, W), 'from_cayley')
    return [f'rank{len(subs)}'] + ([] if np.any(D) else ['trivial'])


SUBS = [
    Sub('chains', chain_case, run_chain, quick=1500, thorough=40000, about='chains of tensor operations against numpy'),
    Sub('blades', blade_case, run_blade, quick=700, thorough=20000, about='tensors with blades as coordinates'),
]
