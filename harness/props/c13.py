import numpy as np
from hypothesis import strategies as st
from ..core import Sub
from .. import gen
from ..nv import *
from .c02 import DEF as BINARY
from .c04 import DEF as ANTI
from .c06 import tree, build
from .c12 import lazy, shapes, item, FUNCS, prepare

ID = 'C13'
RULE = ('operators: factory constructors of arity one to four, generated combinator trees (possibly with fractional kernels or without '
        'any nonzero term) and operators with generated kernels, on generated subspaces and batches, evaluated by every backend and '
        'strategy and compared with the plain contraction of the kernel; functions: nonlinear methods under several strategies, '
        'backends and precisions; non-trivial when the result is nonzero')

UN = ['reverse', 'involute', 'conjugate', 'right_hodge', 'left_hodge', 'right_hodge_inverse', 'left_complement', 'right_complement_dual',
      'scalar_negation', 'pseudoscalar_negation', 'degenerate', 'nondegenerate', 'identity', 'study_conjugate']
SELF = [('squared', 2), ('symmetric_reverse_product', 2), ('symmetric_conjugate_product', 2), ('cubed', 3), ('inverse_factor', 3),
        ('inverse_factor_completed', 4), ('symmetric_pseudoscalar_negation_product', 2)]
TERN = ['sandwich', 'full_sandwich', 'reverse_sandwich', 'inertia']
BIN = sorted(set(BINARY) | set(ANTI))


KINDS = ['un', 'self', 'bin', 'bin', 'tern', 'tree', 'tree', 'tree', 'raw', 'raw', 'raw', 'select', 'restrict']


@st.composite
def spec(draw, n, cap, kinds=KINDS):
    kind = draw(st.sampled_from(kinds))
    b = lambda k=cap: draw(gen.blades(n, cap=k))
    if kind == 'un':
        return ['f', draw(st.sampled_from(UN)), [b()], [0]]
    if kind == 'self':
        name, k = draw(st.sampled_from(SELF))
        return ['f', name, [b(5 if k > 2 else cap)], [0] * k]
    if kind == 'bin':
        return ['f', draw(st.sampled_from([k for k in BIN if n > 1 or k != 'bivector_product'])), [b(), b()], [0, 1]]
    if kind == 'tern':
        name = draw(st.sampled_from(TERN))
        return ['f', name, [b(6), b(6)], [0, 0, 1] if name == 'inertia' else [0, 1, 0]]
    if kind in ('select', 'restrict'):
        return ['f', kind, [b(), b()], [0]]
    if kind == 'tree' and n > 1:
        return ['tree', draw(tree(n, draw(st.sampled_from([1, 2, 3])), 3))]
    arity = draw(st.sampled_from([1, 2, 2, 3] if kinds is KINDS else [1, 2, 3, 3]))
    axes = [b({1: 16, 2: 6, 3: 4}[arity]) for _ in range(arity + 1)]
    size = int(np.prod([len(a) for a in axes]))
    table = draw(st.sampled_from([[0, 0, 0, 0, 1, -1, 2], [1, -1, 0], [0, 0, 0, 0, 0, 0, 0, 0, 5], [0.5, -0.25, 0, 0, 3.0], [0], [0, 0, 1e-3, 0, 700.0]]))
    return ['raw', axes, draw(gen.ints(size, table))]


def case(hi, cap, batch=True):
    @st.composite
    def f(draw, tier):
        s = draw(gen.sig(1, hi))
        n = len(s)
        return dict(sig=s, spec=draw(spec(n, cap)), shape=draw(shapes(4, zero=False)) if batch else [[]] * 4,
                    x=draw(gen.ints(24 * 4)), off=draw(st.integers(0, 95)),
                    factor=draw(st.sampled_from([1, 1, 1, 1, 1, 1, 1e-7, 3e-12, 2.5e6])))
    return f


def make(c, sp, factor=1):
    conc, sym, slots = make_plain(c, sp)
    if factor != 1:     # the same operator in other units
        sym = sym * factor
        conc = c.operator(sym)
    return conc, sym, slots


def make_plain(c, sp):
    """symbolic operator, and which of the inputs are to be equal; factory operators are taken from the context"""
    if sp[0] == 'f':
        args = [space(c, b) for b in sp[2]]
        return getattr(c.operator, sp[1])(*args), getattr(c.algebra.operator, sp[1])(*args), sp[3]
    if sp[0] == 'tree':
        op = build(sp[1], c, ref(c.algebra.description.signature_str if False else _sig(c))).op
    else:
        from numga.operator.operator import Operator
        axes = [space(c, b) for b in sp[1]]
        k = np.array(sp[2], dtype=float if any(isinstance(v, float) for v in sp[2]) else np.int8).reshape([len(a) for a in axes])
        op = Operator(k, axes)
    return c.operator(op), op, list(range(op.arity))


def _sig(c):
    return ''.join({1: '+', -1: '-', 0: '0'}[int(s)] for s in c.algebra.description.signature)


def inputs(case, sym, slots):
    """values for each argument slot; [shape..., len]"""
    out, made = [], {}
    k = case['off']
    for j, (sl, S) in enumerate(zip(slots, sym.inputs)):
        if sl not in made:
            h = tuple(case['shape'][sl % 4])
            size = int(np.prod(h, dtype=int)) * len(S)
            v = [case['x'][(k + 7 * i) % len(case['x'])] for i in range(size)]
            k += size + 3
            made[sl] = np.array(v, dtype=float).reshape(h + (len(S),))
        out.append(made[sl])
    return out


def contract(sym, vals):
    """the plain meaning of a kernel"""
    k = np.asarray(sym.kernel, dtype=float)
    h = np.broadcast_shapes(*(v.shape[:-1] for v in vals))
    out = np.broadcast_to(k, h + k.shape)
    for v in vals:       # contract the arguments from the left, one at a time
        v = np.broadcast_to(v, h + v.shape[-1:])
        out = np.sum(out * v.reshape(v.shape + (1,) * (out.ndim - v.ndim)), axis=len(h))
    return out


STRATEGIES = {
    'numpy_einsum': ('numpy', lazy('numpy', 'NumpyEinsumOperator'), 'batch'),
    'numpy_sparse': ('numpy', lazy('numpy', 'NumpySparseOperator'), 'batch'),
    'torch_einsum': ('torch', lazy('torch', 'TorchEinsumOperator'), 'batch'),
    'torch_dense': ('torch', lazy('torch', 'TorchDenseOperator'), 'batch'),
    'torch_sparse': ('torch', lazy('torch', 'TorchSparseOperator'), 'batch'),
    'python_sparse': ('python', lazy('python', 'PythonSparseOperator'), 'element'),
    'python_codegen': ('python', lazy('python', 'PythonCodegenOperator'), 'code'),
    'jax_einsum': ('jax', lazy('jax', 'JaxEinsumOperator'), 'batch'),
    'jax_dense': ('jax', lazy('jax', 'JaxDenseOperator'), 'batch'),
    'jax_sparse': ('jax', lazy('jax', 'JaxSparseOperator'), 'batch'),
}
SINGLE = {}


def single(sig, backend):
    """single precision context"""
    if (sig, backend) not in SINGLE:
        if backend == 'numpy':
            t = np.float32
        elif backend == 'torch':
            import torch
            t = torch.float32
        else:
            import jax.numpy as jnp
            t = jnp.float32
        SINGLE[sig, backend] = new_ctx(sig, backend, dtype=t)
    return SINGLE[sig, backend]


def expected(case):
    c0 = ctx(case['sig'])
    _, sym, slots = make(c0, case['spec'], case.get('factor', 1))
    vals = inputs(case, sym, slots)
    return blist(sym.output), [blist(s) for s in sym.inputs], vals, contract(sym, vals)


def evaluate(name, c, mode, case, vals, shape):
    """values of one strategy, always batched"""
    conc, sym, slots = make(c, case['spec'], case.get('factor', 1))
    check(blist(conc.output) == blist(sym.output) and conc.output is sym.output, f'{name}: output of the concrete operator')
    check([s for s in conc.inputs] == [s for s in sym.inputs] and conc.arity == sym.arity, f'{name}: inputs of the concrete operator')
    mv = lambda S, v: c.multivector(subspace=S, values=v)
    out_b = blist(sym.output)
    if mode == 'batch':
        xs = {}
        args = [xs.setdefault(sl, mv(S, v.copy())) for sl, S, v in zip(slots, sym.inputs, vals)]
        y = conc(*args)
        check(y.subspace is sym.output, f'{name}: output subspace')
        return out_b, arr(y)
    res = np.zeros(shape + (len(out_b),))
    code = None
    if mode == 'code':
        z = [mv(S, np.zeros(len(S))) for S in sym.inputs]
        text = conc(*z)
        if not conc.precompute_sparse:      # no statement to execute
            return out_b, res
        scope = {}
        exec(text, scope)
        code = scope['foo']
    for idx in np.ndindex(*shape):
        el = [item(v, v.shape[:-1], idx) for v in vals]
        if mode == 'code':
            o = scope['o'] = [0] * len(out_b)
            code(*[list(e) for e in el])
        else:
            y = conc(*[mv(S, e.copy()) for S, e in zip(sym.inputs, el)])
            check(y.subspace is sym.output, f'{name}: output subspace')
            o = y.values if isinstance(y.values, list) else arr(y)
        check(len(o) == len(out_b), f'{name}: number of components')
        res[idx] = o
    return out_b, res


def runner(names, precisions=()):
    def run(case):
        b, ins, vals, want = expected(case)
        shape = want.shape[:-1]
        scale = float(np.max(contract_abs(case), initial=0)) or 1.0
        for name in names:
            backend, otype, mode = STRATEGIES[name]
            c = ctx(case['sig'], backend, otype=otype())
            ob, got = evaluate(name, c, mode, case, vals, shape)
            check(ob == b, lambda: f'{name}: output blades {ob}, expected {b}')
            check(got.shape == want.shape, lambda: f'{name}: shape {got.shape}, expected {want.shape}')
            check(np.all(np.abs(got - want) <= 1e-9 * scale), lambda: f'{name}: {short(got)}, expected {short(want)}')
        for backend in precisions:
            c = single(case['sig'], backend)
            ob, got = evaluate(backend + ' float32', c, 'batch', case, vals, shape)
            big = scale
            check(got.dtype == np.float32, lambda: f'{backend}: a single precision context returns {got.dtype}')
            check(ob == b and got.shape == want.shape, f'{backend} float32: output')
            check(np.all(np.abs(got - want) <= 1e-5 * big), lambda: f'{backend} float32: {short(got)}, expected {short(want)}')
        return [case['spec'][0]] + ([] if np.any(want) else ['trivial'])
    return run


def contract_abs(case):
    c0 = ctx(case['sig'])
    _, sym, slots = make(c0, case['spec'], case.get('factor', 1))
    vals = [np.abs(v) for v in inputs(case, sym, slots)]

    class K:
        kernel = np.abs(np.asarray(sym.kernel, dtype=float))
    return contract(K, vals)


# ---- nonlinear functions under several strategies
NAMES = ['inverse', 'inverse_shirokov', 'inverse_hitzer', 'norm_squared', 'norm', 'normalized', 'exp', 'motor_log', 'motor_square_root',
         'motor_translator', 'square_root', 'inverse_square_root', 'study_norm', 'decompose_invariant0', 'exp_quadratic', 'sqrt', 'cos', 'divide']
NOT = {'torch': ('square_root', 'inverse_square_root', 'study_norm', 'decompose_invariant0', 'cos')}


@st.composite
def fn_case(draw, tier):
    s = draw(gen.sig(2, 4, weights=[2, 3, 3, 4, 4]))
    n = len(s)
    b = draw(st.one_of(gen.blades(n, cap=10, kinds=['grades', 'even', 'odd', 'subset', 'few']),
                       st.just([b for b in range(2 ** n) if gen.grade(b) % 2 == 0])))
    h = draw(st.sampled_from([[], [2], [2, 2]]))
    return dict(sig=s, fn=draw(st.sampled_from(NAMES)), b=b, shape=h, x=draw(gen.floats(int(np.prod(h, dtype=int)) * 2 ** n, 1.0)))


def run_fn(case):
    f = FUNCS[case['fn']][1]
    n0 = ctx(case['sig'])
    with np.errstate(all='ignore'):
        b, v = prepare(n0, case)
        if not np.all(np.isfinite(v)):
            return ['trivial']
        try:
            y = f(n0.multivector(subspace=space(n0, b), values=v))
            err = None
        except Exception as e:
            err = e
        others = {'numpy_sparse': ctx(case['sig'], otype=STRATEGIES['numpy_sparse'][1]())}
        if case['fn'] not in NOT['torch']:
            others['torch'] = ctx(case['sig'], 'torch')
            others['torch_sparse'] = ctx(case['sig'], 'torch', otype=STRATEGIES['torch_sparse'][1]())
        for name, c in others.items():
            x = c.multivector(subspace=space(c, b), values=v.copy())
            if err is not None:
                try:
                    f(x)
                except Exception:
                    continue
                check(isinstance(err, np.linalg.LinAlgError), f'{name}: accepts what the default strategy rejects with {err!r}')
                continue
            z = f(x)
            check(blist(z.subspace) == blist(y.subspace), lambda: f'{name}: subspace {blist(z.subspace)}, expected {blist(y.subspace)}')
            a, w = arr(z), arr(y)
            check(a.shape == w.shape, lambda: f'{name}: shape {a.shape}, expected {w.shape}')
            m = np.max(np.abs(w), initial=1.0, where=np.isfinite(w))
            if m < 1e3:
                fin = np.isfinite(a) & np.isfinite(w)
                check(np.all(np.isfinite(a) | ~np.isfinite(w)) or 'torch' in name, lambda: f'{name} {case["fn"]}: {short(a)}, expected {short(w)}')
                check(np.all(np.abs(a - w)[fin] <= 1e-5 * m), lambda: f'{name} {case["fn"]}: {short(a)}, expected {short(w)}')
    return [case['fn']] + ([] if err is None and np.any(arr(y)) else ['trivial'])


# ---- mathematical functions of contexts
import math
GRID = [0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -3.25, 1e-3, -1e-9, 40.0, 1e6]
EL = {      # name: function of floats, domain
    'sqrt': (math.sqrt, lambda x: x >= 0), 'log': (math.log, lambda x: x > 0), 'exp': (math.exp, lambda x: x < 600), 'abs': (abs, lambda x: True),
    'arctan': (math.atan, lambda x: True), 'arccos': (math.acos, lambda x: abs(x) <= 1), 'arcsinh': (math.asinh, lambda x: True),
    'isnan': (math.isnan, None), 'nan_to_num': (None, None), 'pow': (None, None), 'arctan2': (math.atan2, None), 'where': (None, None),
    'trigonometry': (None, None), 'min': (None, None), 'argmin': (None, None), 'all': (None, None), 'logical_xor': (lambda a, b: a != b, None),
    'mv.cos': (math.cos, lambda x: True), 'mv.sin': (math.sin, lambda x: True), 'mv.sqrt': (math.sqrt, lambda x: x >= 0), 'mv.abs': (abs, lambda x: True),
    'mv.invsqrt': (lambda x: 1 / math.sqrt(x), lambda x: x > 0), 'mv.nan_to_num': (None, None), 'logical_or': (lambda a, b: a or b, None)}
ONLY_NUMPY = ('arctan2', 'arctan', 'arccos', 'arcsinh', 'trigonometry')


@st.composite
def math_case(draw, tier):
    h = draw(st.sampled_from([[3], [2, 3], [1, 4], [2, 2, 2]]))
    k = int(np.prod(h))
    x = st.one_of(st.sampled_from(GRID), st.integers(-4000, 4000).map(lambda i: i / 256))
    return dict(fn=draw(st.sampled_from(sorted(EL))), backend=draw(st.sampled_from(['numpy', 'numpy', 'torch', 'torch', 'jax'])), shape=h,
                x=[draw(x) for _ in range(k)], y=[draw(x) for _ in range(k)], nan=draw(st.lists(st.integers(0, k - 1), max_size=2)), axis=draw(st.integers(-len(h), len(h) - 1)))


def run_math(case):
    fn, backend, h = case['fn'], case['backend'], tuple(case['shape'])
    if fn in ONLY_NUMPY:
        backend = 'numpy'
    c = ctx('++0', backend)
    f, dom = EL[fn]
    x, y = (np.array(case[k], float) for k in 'xy')
    if dom:
        x = np.where([bool(dom(v)) for v in x], x, 0.75)
    A = lambda v: c.coerce_array(v.reshape(h))
    fl = lambda v: [float(q) for q in v]
    if fn.startswith('mv.'):
        # the same, on the coefficients of a multivector
        S = c.subspace.from_blades({2: [1, 6], 3: [1, 2, 4], 4: [0, 3, 5, 6]}[h[-1]])

        def g(v, **kw):
            m = c.multivector(subspace=S, values=v)
            y = getattr(m, case['fn'][3:])(**kw)
            check(y.subspace is S and y.context is c, f'{case["fn"]}: subspace or context of the result')
            return y.values
        fn = fn[3:]
    else:
        g = getattr(c, fn)
    if fn in ('isnan', 'nan_to_num'):
        x[case['nan']] = np.nan
        if fn == 'isnan':
            got, want = g(A(x)), [math.isnan(v) for v in x]
        else:
            got, want = g(A(x), nan=2.5), [2.5 if math.isnan(v) else v for v in x]
    elif dom:
        got, want = g(A(x)), [f(v) for v in fl(x)]
    elif fn == 'pow':
        x, y = np.abs(x) + 0.25, np.clip(y, -8, 8)
        got, want = g(A(x), A(y)), [a ** b for a, b in zip(fl(x), fl(y))]
    elif fn == 'arctan2':
        got, want = g(A(x), A(y)), [f(a, b) for a, b in zip(fl(x), fl(y))]
    elif fn == 'where':
        got, want = g(A(x) > 0.25, A(x), A(y)), [a if a > 0.25 else b for a, b in zip(fl(x), fl(y))]
    elif fn in ('logical_xor', 'logical_or'):
        got, want = g(A(x) > 0, A(y) > 0), [f(a > 0, b > 0) for a, b in zip(fl(x), fl(y))]
    elif fn in ('min', 'argmin', 'all'):
        ax = case['axis']
        src = x > -0.75 if fn == 'all' else x
        got = np.asarray(g(A(x) > -0.75 if fn == 'all' else A(x), axis=ax))
        rows = np.moveaxis(src.reshape(h), ax, -1).tolist()

        def reduce(v):
            if isinstance(v[0], list):
                return [reduce(w) for w in v]
            return {'min': min, 'all': all, 'argmin': lambda w: min(range(len(w)), key=lambda i: w[i])}[fn](v)
        want = reduce(rows)
        check(got.shape == np.shape(want), lambda: f'{backend}: {fn} has shape {got.shape}, expected {np.shape(want)}')
        check(got.tolist() == want, lambda: f'{backend}: {fn} is {got.tolist()}, expected {want}')
        return [fn, backend]
    else:       # functions to exponentiate an element of square t
        x = np.clip(x, -600, 600)
        got = g(A(x))
        p = [((math.cosh(r), math.sinh(r) / r if r else 1.0) if v >= 0 else (math.cos(r), math.sin(r) / r)) for v in fl(x) for r in [math.sqrt(abs(v))]]
        for q, w in zip(got, zip(*p)):
            compare(fn, q, np.reshape(w, h))
        return [fn, backend]
    compare(f'{backend}: {fn}', got, np.reshape(want, h))
    return [fn, backend]


def compare(name, got, want):
    got = np.asarray(got)
    check(got.shape == want.shape, lambda: f'{name} has shape {got.shape}, expected {want.shape}')
    check(np.allclose(got.astype(float), want.astype(float), rtol=1e-9, atol=1e-12), lambda: f'{name} is {short(got)}, expected {short(want)}')


FAST = ['numpy_einsum', 'numpy_sparse', 'torch_einsum', 'torch_dense', 'torch_sparse', 'python_sparse', 'python_codegen']
JAX = ['jax_einsum', 'jax_dense', 'jax_sparse']
SUBS = [
    Sub('strategies', case(4, 8), runner(FAST, ('numpy', 'torch')), quick=700, thorough=20000, about='numpy, torch and python strategies; single precision'),
    Sub('high', case(6, 12, batch=False), runner(['numpy_einsum', 'numpy_sparse', 'torch_sparse', 'python_sparse', 'python_codegen']), quick=150, thorough=5000, about='higher dimensions'),
    Sub('bytes', lambda t: gen.high(case(6, 6, batch=False)(t), 9, 10), runner(['numpy_einsum', 'numpy_sparse', 'torch_sparse', 'python_sparse', 'python_codegen']), quick=80, thorough=1500, about='blades of two bytes'),
    Sub('jax', case(3, 4), runner(JAX, ('jax',)), quick=56, thorough=1600, shards=8, about='jax strategies'),
    Sub('math', math_case, run_math, quick=700, thorough=6000, about='mathematical functions of contexts'),
    Sub('functions', fn_case, run_fn, quick=250, thorough=8000, about='nonlinear functions under several strategies'),
]
