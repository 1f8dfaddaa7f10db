"""Sparse matrices of multivectors (numga/examples/ga_sparse.py) against a dictionary of dictionaries"""
import numpy as np
from hypothesis import strategies as st
from ..core import Sub
from .. import gen
from ..nv import *
from .c06 import BIN

ID = 'C30'
RULE = ('matrices given by entries (duplicates included, no empty row) of generated multivectors on generated subspaces, a history of '
        'sums, differences, scalings, involuted transposes, duals and products of several kinds, then matrix-vector products, '
        'prebound products and their dense and linear-operator forms, against sums over dictionaries of reference multivectors; '
        'non-trivial when the final matrix has a nonzero entry off the diagonal')

PRODUCTS = ['geometric_product', 'product', 'wedge', 'inner', 'regressive', 'commutator', 'reverse_product', 'anti_commutator', 'left_contract']
NAMED = {'product': 'geometric_product', 'wedge': 'wedge_product', 'inner': 'inner_product', 'regressive': 'regressive_product',
         'commutator': 'commutator_product', 'anti_commutator': 'anti_commutator_product', 'left_contract': 'left_contraction_product'}
OVER = {'product': lambda a, b: a * b, 'wedge': lambda a, b: a ^ b, 'inner': lambda a, b: a | b, 'regressive': lambda a, b: a & b}


def f_of(r, name):
    g = BIN[NAMED.get(name, name)]
    return lambda x, y: g(r, x, y)


@st.composite
def matrix(draw, n, shape, cap=5):
    rows, cols = shape
    b = draw(gen.blades(n, cap=cap, empty=False, kinds=['grade', 'grade', 'even', 'odd', 'few', 'subset', 'full', 'single']))
    at = [[i, draw(st.integers(0, cols - 1))] for i in range(rows)]
    at += draw(st.lists(st.tuples(st.integers(0, rows - 1), st.integers(0, cols - 1)).map(list), max_size=5))
    at = draw(st.permutations(at))
    return dict(shape=list(shape), b=b, at=at, v=[draw(gen.ints(len(b))) for _ in at],
                how=draw(st.sampled_from(['builder', 'builder', 'direct', 'parts'])))


@st.composite
def case(draw, tier):
    s = draw(gen.sig(1, 4, weights=[1, 2, 2, 3, 3, 3, 4]))
    n = len(s)
    a, b, k = (draw(st.sampled_from([1, 2, 2, 3, 3, 4])) for _ in range(3))
    steps = draw(st.lists(st.sampled_from(['add', 'sub', 'neg', 'pos', 'scale', 'reverse', 'invert', 'dual', 'scalar', 'mul', 'mul', 'diag']), max_size=4))
    return dict(sig=s, A=draw(matrix(n, (a, b))), B=draw(matrix(n, (b, k))), S=draw(matrix(n, (a, b))), op=draw(st.sampled_from(PRODUCTS)),
                op2=draw(st.sampled_from(PRODUCTS)), steps=steps, nums=draw(st.lists(st.sampled_from([2.0, -1.0, 0.5, 3, 0]), min_size=4, max_size=4)),
                x=[draw(gen.blades(n, cap=4, empty=False)), draw(gen.ints(16 * 5))], two=draw(st.booleans()))


def build(c, m):
    from numga.examples.ga_sparse import Builder, MatrixContainer
    S = space(c, m['b'])
    o = gen.order_canonical(m['b'])
    ref_ = {}
    vals = []
    for (i, j), v in zip(m['at'], m['v']):
        d = dict(zip(m['b'], v))
        vals.append([d[b] for b in o])
        e = ref_.setdefault((i, j), {})
        for b, x in d.items():
            e[b] = e.get(b, 0) + x
    if m['how'] == 'direct':
        r, q = (np.array(t) for t in zip(*m['at']))
        M = MatrixContainer(tuple(m['shape']), r, q, c.multivector(S, np.array(vals, float)))
    else:
        # known finding: all builders share one list of entries; start with an empty one
        if isinstance(vars(Builder).get('entries'), list):
            Builder.entries = []
        t = Builder(tuple(m['shape']), S)
        for (i, j), v in zip(m['at'], vals):
            if m['how'] == 'parts':        # entries on parts of the declared subspace
                for b, x in zip(o, v):
                    t.add(i, j, c.multivector(space(c, [b]), [float(x)]))
            else:
                t.add(i, j, c.multivector(S, np.array(v, float)))
        M = t.finalize()
    return M, ref_


def entries(M):
    out = {}
    V = arr(M.values)
    b = blist(M.subspace)
    for n, (i, j) in enumerate(zip(M.rows, M.columns)):
        check((int(i), int(j)) not in out, lambda: f'entry {i},{j} is stored twice')
        check(0 <= i < M.shape[0] and 0 <= j < M.shape[1], lambda: f'entry {i},{j} in a matrix of shape {M.shape}')
        out[int(i), int(j)] = dict(zip(b, V[n]))
    return out


def compare(M, want, shape, what):
    check(tuple(M.shape) == tuple(shape), lambda: f'{what}: shape {M.shape}, expected {shape}')
    got = entries(M)
    for k in set(got) | set(want):
        same(got.get(k, {}), want.get(k, {}), f'{what}, entry {k}')


def matmul(f, r, A, B):
    out = {}
    for (i, j), x in A.items():
        for (k, l), y in B.items():
            if j == k:
                out[i, l] = r.add(out.get((i, l), {}), f(x, y))
    return out


def run(case):
    from numga.examples.ga_sparse import MatrixContainer
    sig = case['sig']
    c, r = ctx(sig), ref(sig)
    M, m = build(c, case['A'])
    shape = tuple(case['A']['shape'])
    compare(M, m, shape, 'construction')
    S, s = build(c, case['S'])
    B, b = build(c, case['B'])
    compare(M, m, shape, 'construction of another')
    pts = case['nums'] + case['nums']
    for n, st_ in enumerate(case['steps']):
        k = pts[n]
        if st_ in ('add', 'sub'):
            if S.shape != M.shape:
                continue
            sg = 1 if st_ == 'add' else -1
            M2 = M + S if sg > 0 else M - S
            m2 = {q: r.add(m.get(q, {}), s.get(q, {}), sg) for q in set(m) | set(s)}
        elif st_ in ('neg', 'pos'):
            M2, m2 = (-M, {q: r.scale(v, -1) for q, v in m.items()}) if st_ == 'neg' else (+M, m)
        elif st_ == 'scale':
            M2, m2 = M * k, {q: r.scale(v, k) for q, v in m.items()}
        elif st_ in ('reverse', 'invert'):
            M2 = M.reverse() if st_ == 'reverse' else ~M
            m2 = {q[::-1]: r.rev(v) for q, v in m.items()}
            shape = shape[::-1]
        elif st_ == 'dual':
            M2, m2 = M.dual(), {q: r.rhodge(v) for q, v in m.items()}
        elif st_ == 'scalar':
            y = c.multivector(space(c, case['x'][0]), np.array(case['x'][1][:len(case['x'][0])], float))
            M2, m2 = getattr(M, case['op2'])(y), {q: f_of(r, case['op2'])(v, todict(y)) for q, v in m.items()}
        elif st_ == 'diag':
            o = gen.order_canonical(case['x'][0])
            v = np.array(case['x'][1][:shape[1] * len(o)], float).reshape(shape[1], len(o))
            D = MatrixContainer.diag(c.multivector(space(c, o), v))
            d = {(i, i): dict(zip(o, v[i])) for i in range(shape[1])}
            compare(D, d, (shape[1],) * 2, 'diag')
            M2, m2 = M * D, matmul(f_of(r, 'product'), r, m, d)
        elif st_ == 'mul':
            if M.shape[1] != B.shape[0] or not {j for i, j in m} & {i for i, j in b}:
                continue
            M2 = getattr(M, case['op'])(B)
            m2 = matmul(f_of(r, case['op']), r, m, b)
            if case['op'] in OVER:
                compare(OVER[case['op']](M, B), m2, (shape[0], B.shape[1]), 'overload')
            shape = (shape[0], B.shape[1])
        compare(M2, m2, shape, st_)
        compare(M, m, M.shape, f'operand of {st_}')
        M, m = M2, m2
    # vectors; every row has to be occupied
    off = any(i != j and nonzero(v) for (i, j), v in m.items())
    if {i for i, j in m} != set(range(shape[0])) or not len(M.subspace):
        return ['rows missing'] + ([] if off else ['trivial'])
    o = gen.order_canonical(case['x'][0])
    X = space(c, o)
    v = np.array(case['x'][1][:shape[1] * len(o)], float).reshape(shape[1], len(o))
    x = c.multivector(X, v)
    f = f_of(r, case['op'])
    want = {}
    for (i, j), e in m.items():
        want[i] = r.add(want.get(i, {}), f(e, dict(zip(o, v[j]))))

    def vec(y, what):
        check(tuple(y.shape) == (shape[0],), lambda: f'{what}: shape {y.shape}')
        d = todict(y)
        for i in range(shape[0]):
            same({q: z[i] for q, z in d.items()}, want.get(i, {}), f'{what}, row {i}')
    y = getattr(M, case['op'])(x)
    vec(y, 'matrix-vector product')
    if case['op'] in OVER:
        vec(OVER[case['op']](M, x), 'matrix-vector overload')
    P = getattr(M, case['op'])(X)
    vec(P(x), 'prebound product')
    check(P.column_subspace is X and blist(P.row_subspace) == blist(y.subspace), 'row and column subspaces')
    check(tuple(P.block_shape) == (len(y.subspace), len(X)), 'block shape')
    if len(y.subspace):
        flat = arr(y).reshape(-1)
        dense = (shape[0] * len(y.subspace), shape[1] * len(X))
        try:
            D = P.as_dense()
        except ValueError:
            if len(y.subspace) == len(X):
                raise
            D = None        # known finding: blocks that are not square
        if D is not None:
            check(D.shape == dense, lambda: f'dense form of shape {D.shape}')
            if len(y.subspace) == len(X):       # known finding: the transpose of each block
                T = D.reshape(shape[0], len(X), shape[1], len(X)).swapaxes(1, 3).reshape(dense)
            else:
                T = D
            check(np.allclose(D @ v.reshape(-1), flat) or np.allclose(T @ v.reshape(-1), flat), lambda: f'dense form: {short(D @ v.reshape(-1))}, product {short(flat)}')
        L = P.as_operator()
        check(L.shape == dense and np.allclose(L @ v.reshape(-1), flat), 'linear operator form')
    return [case['op']] + case['steps'] + ([] if off else ['trivial'])


@st.composite
def scipy_case(draw, tier):
    a, b, k = (draw(st.integers(1, 8)) for _ in range(3))
    f = lambda p, q: st.lists(st.tuples(st.integers(0, p - 1), st.integers(0, q - 1), st.integers(-3, 3)).map(list), min_size=1, max_size=20)
    return dict(sig=draw(gen.sig(1, 4)), shape=[a, b, k], A=draw(f(a, b)), B=draw(f(b, k)))


def run_scipy(case):
    import scipy.sparse
    from numga.examples.ga_sparse import MatrixContainer
    c = ctx(case['sig'])
    a, b, k = case['shape']

    def load(e, shape):
        i, j, v = zip(*e)
        return scipy.sparse.coo_matrix((np.array(v, float), (i, j)), shape)
    As, Bs = load(case['A'], (a, b)), load(case['B'], (b, k))
    A, B = MatrixContainer.from_scipy(c, As), MatrixContainer.from_scipy(c, Bs)

    def dense(M):
        out = np.zeros(M.shape)
        for q, e in entries(M).items():
            check(set(e) <= {0}, 'not a scalar')
            out[q] = e.get(0, 0.0)
        return out
    check(np.array_equal(dense(A), As.toarray()), 'from_scipy')
    check(np.array_equal(dense(~A), As.toarray().T), 'transpose')
    if set(As.col) & set(Bs.row):
        check(np.array_equal(dense(A * B), (As.tocsr() @ Bs.tocsr()).toarray()), 'product')
    check(np.array_equal(dense(~A * A), (As.T.tocsr() @ As.tocsr()).toarray()), 'normal matrix')
    check(np.array_equal(dense(A * ~A), (As.tocsr() @ As.T.tocsr()).toarray()), 'gram matrix')
    return [] if A.shape[0] > 1 and np.any(As.toarray()) else ['trivial']


SUBS = [
    Sub('histories', case, run, quick=1200, thorough=30000, about='histories of matrix operations and matrix-vector products'),
    Sub('scipy', scipy_case, run_scipy, quick=300, thorough=8000, about='scalar matrices against scipy'),
]
