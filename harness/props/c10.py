import numpy as np
from hypothesis import strategies as st
from ..core import Sub
from .. import gen
from ..nv import *
from .c09 import Model, FAMILIES

ID = 'C10'
RULE = ('a (batched) multivector on a generated subspace, a generated target subspace, grades and a named family; non-trivial when '
        'the source has components and differs from the target')


@st.composite
def case_(draw, tier, hi=6, backend=None, batch=True):
    s = draw(gen.sig(1, hi))
    n = len(s)
    b = draw(gen.shape(2, (1, 2, 3, 2, 3, 2, 0) if backend is None else (1, 2))) if batch else []
    src = draw(gen.blades(n, cap=24 if hi > 4 else 12))
    k = len(src)
    size = int(np.prod(b, dtype=int)) * k if b else k
    ks = draw(st.lists(st.integers(0, n), min_size=1, max_size=3, unique=True))
    return dict(sig=s, src=src, shape=b, x=draw(gen.nz_ints(size)), dst=draw(gen.blades(n, cap=24)), ks=ks,
                fam=draw(st.sampled_from(FAMILIES)), blade=draw(st.integers(0, 2 ** n - 1)))


def runner(backend, otypes):
    def run(case):
        c = ctx(case['sig'], backend, otype=otypes())
        m = Model(case['sig'])
        n = m.n
        shape = tuple(case['shape'])
        S, D = space(c, case['src']), space(c, case['dst'])
        o = gen.order_canonical(case['src'])
        vals = np.array(case['x'], dtype=float).reshape(shape + (len(o),))
        src, dst = set(case['src']), set(case['dst'])
        x = c.multivector(values=vals.tolist() if backend == 'python' else vals.copy(), subspace=S)
        zero = np.zeros(shape)
        val = {b: vals[..., i] for i, b in enumerate(o)}

        def exact(y, blades, what):
            want = gen.order_canonical(blades)
            check(blist(y.subspace) == want, lambda: f'{what}: subspace {blist(y.subspace)}, expected {want}')
            a = arr(y)
            check(a.shape == shape + (len(want),), lambda: f'{what}: shape {a.shape}, expected {shape + (len(want),)}')
            for i, b in enumerate(want):
                e = val.get(b, zero)
                check(np.array_equal(a[..., i], e), lambda: f'{what}: blade {b:b} is {short(a[..., i])}, expected {short(e)}')

        def sel(f, t, what):
            exact(f(), t, what)

        def res(f, t, what):
            exact(f(), src & set(t), what)
        sel(lambda: x.select_subspace(D), dst, 'select_subspace')
        res(lambda: x.restrict_subspace(D), dst, 'restrict_subspace')
        sel(lambda: c.operator.select(S, D)(x), dst, 'select operator')
        res(lambda: c.operator.restrict(S, D)(x), dst, 'restrict operator')
        ks = case['ks']
        sel(lambda: x.select[ks[0]], m.grades(ks[:1]), 'select[k]')
        res(lambda: x.restrict[ks[0]], m.grades(ks[:1]), 'restrict[k]')
        sel(lambda: x.select[tuple(ks)], m.grades(ks), 'select[k, l]')
        res(lambda: x.restrict[tuple(ks)], m.grades(ks), 'restrict[k, l]')
        sel(lambda: x.select[ks[0] - n - 1], m.grades(ks[:1]), 'select[negative k]')
        sel(lambda: x.select_grade(ks[-1]), m.grades(ks[-1:]), 'select_grade')
        res(lambda: x.restrict_grade(ks[-1]), m.grades(ks[-1:]), 'restrict_grade')
        sel(lambda: x.select.from_grades(ks), m.grades(ks), 'select.from_grades')
        sel(lambda: x.select.k_vector(ks[0]), m.grades(ks[:1]), 'select.k_vector')
        fam = m.family(case['fam'])
        if fam is not None:
            sel(lambda: getattr(x.select, case['fam'])(), fam, f"select.{case['fam']}")
            res(lambda: getattr(x.restrict, case['fam'])(), fam, f"restrict.{case['fam']}")
        tok = ''.join(gen.NAMES[k] for k in range(n) if case['blade'] >> k & 1)
        if tok:
            sel(lambda: getattr(x.select, tok), {case['blade']}, 'select.<axis names>')
            res(lambda: getattr(x.restrict, tok), {case['blade']}, 'restrict.<axis names>')
        nd = m.nondeg(frozenset(src))
        exact(x.nondegenerate(), nd, 'nondegenerate')
        exact(x.degenerate(), src - nd, 'degenerate')
        # chains
        exact(x.restrict_subspace(D).select_subspace(S), src, 'restrict then select') if src <= dst else None
        y = x.select_subspace(D)
        a = arr(y.select_subspace(S))
        for i, b in enumerate(o):
            check(np.array_equal(a[..., i], val[b] if b in dst else zero), 'select there and back')
        exact(x, src, 'the input is unchanged')
        return [f'd{n}'] + ([] if src != dst and vals.size else ['trivial']) + (['overlap'] if src & dst and src != dst else [])
    return run


def np_sparse():
    from numga.backend.numpy.operator import NumpySparseOperator
    return NumpySparseOperator


def jx_sparse():
    from numga.backend.jax.operator import JaxSparseOperator
    return JaxSparseOperator


def th_sparse():
    from numga.backend.torch.operator import TorchSparseOperator
    return TorchSparseOperator


N = lambda: None
SUBS = [
    Sub('numpy', lambda t: case_(t), runner('numpy', N), quick=800, thorough=25000, about='numpy einsum operators'),
    Sub('numpy_high', lambda t: gen.high(case_(t)), runner('numpy', N), quick=300, thorough=4000, about='numpy einsum operators, d 9 to 11'),
    Sub('numpy_sparse', lambda t: case_(t, hi=5), runner('numpy', np_sparse), quick=300, thorough=8000, about='numpy sparse operators'),
    Sub('numpy_sparse_high', lambda t: gen.high(case_(t)), runner('numpy', np_sparse), quick=60, thorough=2000, about='numpy sparse operators, d 9 to 11'),
    Sub('python', lambda t: case_(t, hi=6, batch=False), runner('python', N), quick=500, thorough=12000, about='pure python operators'),
    Sub('python_high', lambda t: gen.high(case_(t, batch=False)), runner('python', N), quick=60, thorough=2000, about='pure python operators, d 9 to 11'),
    Sub('torch', lambda t: case_(t, hi=5, backend='torch'), runner('torch', N), quick=150, thorough=4000, about='torch einsum operators'),
    Sub('torch_sparse', lambda t: case_(t, hi=4, backend='torch'), runner('torch', th_sparse), quick=100, thorough=3000, about='torch sparse operators'),
    Sub('jax', lambda t: case_(t, hi=4, backend='jax'), runner('jax', N), quick=25, thorough=800, shards=4, about='jax einsum operators'),
    Sub('jax_sparse', lambda t: case_(t, hi=4, backend='jax'), runner('jax', jx_sparse), quick=25, thorough=800, shards=4, about='jax sparse operators'),
]
