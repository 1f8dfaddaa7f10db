import numpy as np
from hypothesis import strategies as st
from ..core import Sub
from .. import gen
from ..nv import *

ID = 'C28'
RULE = ('construct: generated subspaces, number types, batch shapes and forms of values (lists, tuples, integer, boolean and float arrays, arrays of the '
        'backend) on every backend; named: every named constructor, with and without values; blades: generated generator sequences; types: generated '
        'chains of operations with numbers, arrays and multivectors in contexts of every number type; non-trivial when the subspace is not empty '
        'and has a blade other than the scalar')

NP = ['float64', 'float32', 'float16', 'complex128', 'int64', 'int32', 'complex64']
FLOAT = ['float64', 'float32']


def context(sig, backend, dtype, names=None):
    key = (sig, backend, dtype, tuple(names) if names else None)
    if key not in _ctxs:
        if backend == 'python':
            kw = {}
        elif backend == 'numpy':
            kw = dict(dtype=np.dtype(dtype).type)
        elif backend == 'jax':
            import jax
            jax.config.update('jax_enable_x64', True)
            jax.config.update('jax_disable_most_optimizations', True)
            import jax.numpy as jnp
            kw = dict(dtype=getattr(jnp, dtype))
        else:
            import torch
            kw = dict(dtype=getattr(torch, dtype))
        _ctxs[key] = new_ctx(sig, backend, names=names, **kw)
    return _ctxs[key]


_ctxs = {}


def dtype_name(mv):
    return str(mv.values.dtype).replace('torch.', '')


@st.composite
def construct_case(draw, tier):
    backend = draw(st.sampled_from(['numpy'] * 4 + ['torch', 'torch', 'jax', 'jax', 'python']))
    s = draw(gen.sig(1, 6, weights=[1, 2, 3, 3, 4, 4, 5, 6]))
    b = draw(gen.blades(len(s)))
    h = [] if backend == 'python' else draw(st.sampled_from([[], [], [1], [2], [3, 2], [0], [2, 0, 1], [1, 1, 2]]))
    k = len(b) * int(np.prod(h, dtype=int))
    return dict(sig=s, backend=backend, t=draw(st.sampled_from(NP if backend == 'numpy' else FLOAT)), b=b, h=h,
                form=draw(st.sampled_from(['list', 'tuple', 'int', 'bool', 'float32', 'float64', 'own', 'view', 'none', 'readonly'])),
                how=draw(st.sampled_from(['call', 'positional', 'multivector', 'construct', 'copy', 'construct_class'])),
                v=draw(gen.ints(k)), off=draw(st.sampled_from([1, -1, 2, 5])))


def to_form(c, backend, form, v, shape):
    a = np.array(v, dtype=float).reshape(shape)
    if form in ('list', 'none'):
        return a.tolist() if a.size else a
    if form == 'tuple':
        f = lambda x: tuple(map(f, x)) if isinstance(x, list) else x
        return f(a.tolist()) if a.size else a
    if form == 'int':
        return a.astype(np.int32)
    if form == 'bool':
        return a != 0
    if form == 'float32':
        return a.astype(np.float32)
    if form == 'own' and backend == 'jax':
        import jax.numpy as jnp
        return jnp.asarray(a)
    if form == 'own' and backend == 'torch':
        import torch
        return torch.asarray(a)
    if form == 'view':
        big = np.zeros(a.shape[:-1] + (2 * a.shape[-1] + 1,))
        big[..., 1::2] = a
        return big[..., 1::2]
    if form == 'readonly' and backend != 'torch':
        a.flags.writeable = False
    return a


def build(c, how, subspace, values):
    if how == 'call':
        return c.multivector(subspace=subspace, values=values)
    if how == 'positional':
        return c.multivector(subspace, values)
    if how == 'multivector':
        return c.multivector.multivector(values, subspace)
    if how == 'construct':
        return c.mvtype.construct(context=c, values=values, subspace=subspace)
    if how == 'construct_class':
        return c.mvtype.construct(c, values, subspace)
    x = c.multivector(subspace=c.subspace.full())
    return x.copy(values=values, subspace=subspace) if values is not None else c.multivector(subspace=subspace)


def run_construct(case):
    backend, b = case['backend'], case['b']
    c = context(case['sig'], backend, case['t'])
    S = space(c, b)
    check(blist(S) == gen.order_canonical(b), lambda: f'subspace of blades {b}: {blist(S)}')
    h = tuple(case['h'])
    if case['form'] == 'none':
        x = build(c, case['how'], S, None)
        want = np.array([float(k == 0) for k in gen.order_canonical(b)])
        h = ()
    else:
        v = to_form(c, backend, case['form'], case['v'], h + (len(b),))
        before = np.array(v).copy()
        x = build(c, case['how'], S, v)
        want = np.array(case['v'], dtype=float).reshape(h + (len(b),))
        if case['form'] == 'bool':
            want = (want != 0).astype(float)
    check(x.subspace is S and x.context is c and type(x) is c.mvtype and x.algebra is c.algebra, 'subspace, context and type')
    a = arr(x)
    check(a.shape == want.shape, lambda: f'values of shape {a.shape}, given {want.shape}')
    check(np.array_equal(a, want), lambda: f'values {short(a)}, given {short(want)}')
    if backend != 'python':
        check(dtype_name(x) == case['t'], lambda: f'number type {dtype_name(x)} in a context of {case["t"]}')
        check(tuple(x.shape) == h, lambda: f'batch shape {x.shape}, given {h}')
    else:
        check(all(type(q) is float for q in x.values) and isinstance(x.values, list), 'number type')
    text = repr(x)
    check(isinstance(text, str) and text, 'printed multivector')
    # a trailing size other than the subspace's
    m = len(b) + case['off']
    if m >= 0:
        for shape in ([(m,)] if backend == 'python' else [(m,), (2, m), (len(b), m)]):
            wrong = np.zeros(shape)
            for how in ('call', 'multivector', 'construct', 'copy'):
                try:
                    y = build(c, how, S, wrong)
                except Exception:
                    continue
                check(False, lambda: f'values of shape {shape} accepted for a subspace of {len(b)} blades: {y!r}')
    # copies
    if backend != 'python':
        y = x.copy()
        check(np.array_equal(arr(y), want) and y.subspace is S and y.context is c and dtype_name(y) == dtype_name(x), 'copy')
    if case['form'] != 'none':
        check(np.array_equal(np.array(v), before), 'the given values were changed')
    return [backend, case['form'], case['how'], 'batch' if h else 'single'] + ([] if set(b) - {0} else ['trivial'])


NAMED = {
    # name: grades in n dimensions (None where the algebra has none)
    'empty': lambda n: [],
    'scalar': lambda n: [0],
    'vector': lambda n: [1],
    'bivector': lambda n: [2] if n >= 2 else None,
    'trivector': lambda n: [3] if n >= 3 else None,
    'pseudoscalar': lambda n: [n],
    'antivector': lambda n: [n - 1],
    'antibivector': lambda n: [n - 2] if n >= 2 else None,
    'antitrivector': lambda n: [n - 3] if n >= 3 else None,
    'even_grade': lambda n: list(range(0, n + 1, 2)),
    'motor': lambda n: list(range(0, n + 1, 2)),
    'rotor': lambda n: list(range(0, n + 1, 2)),
    'multivector': lambda n: list(range(n + 1)),
    'k_vector': lambda n: list(range(n + 1)),
}


@st.composite
def named_case(draw, tier):
    backend = draw(st.sampled_from(['numpy'] * 4 + ['torch', 'jax', 'python']))
    s = draw(gen.sig(1, 10, weights=[1, 2, 3, 4, 5, 6, 7, 8, 9, 10]))
    name = draw(st.sampled_from(sorted(k for k in NAMED if NAMED[k](len(s)) is not None)))
    return dict(sig=s, backend=backend, t=draw(st.sampled_from(NP if backend == 'numpy' else FLOAT)), name=name, k=draw(st.integers(0, len(s))),
                h=[] if backend == 'python' else draw(st.sampled_from([[], [], [2], [1, 3], [0]])), given=draw(st.sampled_from([True, True, False])),
                v=draw(gen.ints(24)), kw=draw(st.booleans()))


def run_named(case):
    backend, name = case['backend'], case['name']
    c = context(case['sig'], backend, case['t'])
    n = len(case['sig'])
    grades = NAMED[name](n)
    if name == 'k_vector':
        grades = [case['k']]
    blades = gen.order_canonical([b for b in range(2 ** n) if gen.grade(b) in grades])
    f = getattr(c.multivector, name)
    h = tuple(case['h'])
    size = int(np.prod(h, dtype=int)) * len(blades)
    v = np.resize(np.array(case['v'], dtype=float), size).reshape(h + (len(blades),)) if size else np.zeros(h + (len(blades),))
    given = case['given'] and name != 'empty'
    args = ([case['k']] if name == 'k_vector' else [])
    if given:
        x = f(*args, values=v) if case['kw'] else f(*args, v)
        want = v
    else:
        x = f(*args)
        want = np.array([float(b == 0) for b in blades])
    check(x.context is c and type(x) is c.mvtype, 'context and type')
    check(blist(x.subspace) == blades, lambda: f'{name}: blades {blist(x.subspace)}, expected {blades}')
    check(x.subspace is c.subspace.from_blades(blades), f'{name}: subspace is not the shared one')
    check(np.array_equal(arr(x), want) and arr(x).shape == want.shape, lambda: f'{name}: values {short(arr(x))}, expected {short(want)}')
    if backend != 'python':
        check(dtype_name(x) == case['t'], f'{name}: number type {dtype_name(x)}')
    if name not in ('empty',):
        bad = np.zeros(h + (len(blades) + 1,))
        try:
            y = f(*args, bad)
        except Exception:
            y = None
        check(y is None, f'{name}: too many values accepted')
    if name == 'multivector' and not given:
        same(c.multivector(), {0: 1.0}, 'the default multivector is one')
        check(len(c.multivector().subspace) == 2 ** n, 'the default multivector is on the full algebra')
    return [backend, name, 'given' if given else 'default'] + ([] if set(blades) - {0} else ['trivial'])


@st.composite
def blade_case(draw, tier):
    backend = draw(st.sampled_from(['numpy'] * 4 + ['torch', 'jax', 'python']))
    n = draw(st.integers(1, 5 if backend == 'numpy' else 4))
    s = draw(st.lists(st.sampled_from('++-0'), min_size=n, max_size=n).map(''.join))
    # distinct generators more often than not; a repeated one wedges to nothing
    idx = draw(st.permutations(range(n)))[:draw(st.integers(1, n))]
    if draw(st.integers(0, 5)) == 0:
        idx = idx + [draw(st.sampled_from(idx))]
    nm = draw(st.sampled_from(['letters', 'other', 'numbered', 'upper']))
    pool = {'letters': 'abcdefgh', 'other': 'zyxwvuts', 'upper': 'EXYZABCD'}.get(nm)
    names = list(pool[:n]) if pool else [f'e{i}' for i in draw(st.permutations('123456789'))[:n]]
    return dict(sig=s, names=names, idx=list(idx), backend=backend, t=draw(st.sampled_from(FLOAT)), b=draw(st.integers(0, 2 ** n - 1)), s=draw(st.sampled_from([1, -1, 3, 0])))


def run_blade(case):
    c = context(case['sig'], case['backend'], case['t'], case['names'])
    r = ref(case['sig'])
    names, idx = case['names'], case['idx']
    text = ''.join(names[i] for i in idx)
    want = {0: 1}
    for i in idx:
        want = r.wedge(want, {1 << i: 1})
    x = getattr(c.multivector, text)
    same(x, want, f'blade {text}')
    check(x.context is c, 'context')
    if nonzero(want):
        check(len(x.subspace) == 1, 'one component')
        # swapping two generators changes the sign
        if len(idx) > 1:
            i = case['b'] % (len(idx) - 1)
            t = list(idx)
            t[i], t[i + 1] = t[i + 1], t[i]
            same(getattr(c.multivector, ''.join(names[k] for k in t)), {k: -v for k, v in want.items()}, f'blade {text} with two generators swapped')
        if all(len(q) == 1 for q in names):
            check(getattr(c.subspace, text) is x.subspace, 'subspace of the same name')
    y = c.multivector.blade(case['b'], case['s'])
    check(blist(y.subspace) == [case['b']] and arr(y).tolist() == [float(case['s'])] and y.context is c, f'blade {case["b"]} of size {case["s"]}: {y!r}')
    y = c.multivector.blade(case['b'])
    check(blist(y.subspace) == [case['b']] and arr(y).tolist() == [1.0], f'blade {case["b"]}: {y!r}')
    basis = c.multivector.basis()
    check([blist(e.subspace) for e in basis] == [[1 << i] for i in range(r.n)] and all(arr(e).tolist() == [1.0] for e in basis), 'basis')
    if case['backend'] != 'python':
        for q in [x, y] + list(basis):
            check(dtype_name(q) == case['t'], f'number type of a blade: {dtype_name(q)}')
        # as used: coefficients times named blades
        z = 2 * x + y
        w = r.add(r.scale(want, 2), {case['b']: 1})
        same(z, w, 'combination of named blades')
    return [case['backend'], str(len(idx))] + ([] if len(idx) > 1 else ['trivial'])


# ---- number types
OPS = ['add', 'sub', 'mul', 'wedge', 'neg', 'num_l', 'num_r', 'add_num', 'rsub_num', 'npnum', 'nparr', 'arr_l', 'div_num', 'rdiv', 'select', 'restrict', 'dual',
       'reverse', 'commutator', 'sum', 'index', 'at', 'bind', 'concat', 'copy', 'sandwich', 'inverse_hitzer', 'norm2', 'sqrt', 'abs', 'mean', 'degenerate']
INTEGRAL = ['add', 'sub', 'mul', 'wedge', 'neg', 'num_l', 'num_r', 'add_num', 'rsub_num', 'npnum', 'select', 'restrict', 'dual', 'reverse', 'sum', 'index', 'at', 'bind',
            'copy', 'sandwich', 'norm2', 'abs', 'degenerate']
SLOW = ['inverse_hitzer', 'sandwich']


@st.composite
def type_case(draw, tier, backends=('numpy',)):
    backend = draw(st.sampled_from(list(backends)))
    s = draw(gen.sig(1, 4))
    t = draw(st.sampled_from(NP if backend == 'numpy' else FLOAT))
    ops = INTEGRAL if t.startswith('int') else OPS
    xs = []
    h = draw(st.sampled_from([[], [2], [1, 2]]))
    for _ in range(2):
        b = gen.order_canonical(draw(gen.blades(len(s), cap=8, empty=False)))
        xs.append([b, draw(gen.ints(len(b) * int(np.prod(h, dtype=int))))])
    steps = [[draw(st.sampled_from(ops)), draw(st.integers(0, 5)), draw(st.integers(0, 5)), draw(st.sampled_from([1, -2, 3, 2]))] for _ in range(draw(st.integers(1, 4)))]
    return dict(sig=s, backend=backend, t=t, h=h, xs=xs, steps=steps)


def step(c, op, x, y, p, backend):
    if op == 'add': return x + y
    if op == 'sub': return x - y
    if op == 'mul': return x * y
    if op == 'wedge': return x ^ y
    if op == 'neg': return -x
    if op == 'num_l': return p * x
    if op == 'num_r': return x * p
    if op == 'add_num': return x + p
    if op == 'rsub_num': return p - x
    if op == 'npnum': return x * np.float64(p)
    if op == 'nparr': return x * np.full(x.shape, float(p))
    if op == 'arr_l': return np.full(x.shape, float(p)) * x if backend == 'numpy' else x * np.full(x.shape, float(p))
    if op == 'div_num': return x / p
    if op == 'rdiv': return p / (x.symmetric_reverse_product().select[0] + 1)
    if op == 'select': return x.select[abs(p) % (c.algebra.n_dimensions + 1)]
    if op == 'restrict': return x.restrict.even_grade()
    if op == 'dual': return x.dual()
    if op == 'reverse': return ~x
    if op == 'commutator': return x.commutator(y)
    if op == 'sum': return x.sum(0) if len(x.shape) else x
    if op == 'mean': return x.mean(0) if len(x.shape) else x
    if op == 'index': return x[0] if len(x.shape) else x
    if op == 'at': return x.at[..., 0].set(p) if len(x.subspace) else x
    if op == 'bind': return c.operator.product(x.subspace, y.subspace).partial({0: x})(y)
    if op == 'concat': return x.concatenate(x, 0) if len(x.shape) else x
    if op == 'copy': return x.copy()
    if op == 'sandwich': return c.operator.full_sandwich(x.subspace, y.subspace)(x, y, x)
    if op == 'inverse_hitzer': return x.inverse_hitzer()
    if op == 'norm2': return x.norm_squared()
    if op == 'sqrt': return x.abs().sqrt()
    if op == 'abs': return x.abs()
    if op == 'degenerate': return x.degenerate()
    raise KeyError(op)


def run_type(case):
    backend, t = case['backend'], case['t']
    c = context(case['sig'], backend, t)
    full = context(case['sig'], 'numpy', 'complex128' if t.startswith('complex') else 'float64')
    pools = []
    for k in (c, full):
        pools.append([k.multivector(subspace=space(k, b), values=np.array(v, dtype=float).reshape(tuple(case['h']) + (len(b),))) for b, v in case['xs']])
    big = 1.0
    with np.errstate(all='ignore'):
        for op, i, j, p in case['steps']:
            i, j = i % len(pools[0]), j % len(pools[0])
            x, y = pools[0][i], pools[0][j]
            if op in SLOW and len(x.subspace) * len(y.subspace) > 40:
                continue
            if op == 'inverse_hitzer' and (len(case['sig']) > 4 or not len(x.subspace) or backend != 'numpy'):
                continue
            # different batch shapes arise from sums and concatenations
            try:
                np.broadcast_shapes(tuple(x.shape), tuple(y.shape))
            except ValueError:
                y, j = x, i
            z = step(c, op, x, y, p, backend)
            w = step(full, op, pools[1][i], pools[1][j], p, 'numpy')
            check(dtype_name(z) == t, lambda: f'{op} gives {dtype_name(z)} in a context of {t}')
            check(z.context is c and type(z) is c.mvtype, f'{op}: context or type')
            check(blist(z.subspace) == blist(w.subspace), lambda: f'{op}: blades {blist(z.subspace)} depend on the number type, {blist(w.subspace)}')
            a, e = arr(z), arr(w)
            check(a.shape == e.shape, lambda: f'{op}: shape {a.shape}, in full precision {e.shape}')
            m = float(np.max(np.abs(e))) if e.size else 0.0
            if not np.all(np.isfinite(e)) or m > 1e3:
                break
            big = max(big, m)
            eps = {'float64': 1e-12, 'complex128': 1e-12, 'float32': 1e-5, 'complex64': 1e-5, 'float16': 4e-2}.get(t, 1e-12)
            if op in ('rdiv', 'inverse_hitzer', 'sqrt'):
                # ill conditioned steps end the comparison with full precision
                break
            check(not e.size or np.max(np.abs(a.astype(complex) - e)) <= eps * big ** 2, lambda: f'{op}: {short(a)}, in full precision {short(e)}')
            pools[0].append(z)
            pools[1].append(w)
    return [backend, t] + sorted({s[0] for s in case['steps']}) + ([] if len(pools[0]) > 2 and any(set(b) - {0} for b, _ in case['xs']) else ['trivial'])


SUBS = [
    Sub('construct', construct_case, run_construct, quick=2400, thorough=60000, about='values, defaults, validation and copies'),
    Sub('named', named_case, run_named, quick=1200, thorough=30000, about='named constructors'),
    Sub('blades', blade_case, run_blade, quick=600, thorough=15000, about='named blades, blades by number and the basis'),
    Sub('types', type_case, run_type, quick=1500, thorough=40000, about='chains of operations in numpy contexts of every number type'),
    Sub('types_other', lambda tier: type_case(tier, ('torch', 'torch', 'jax')), run_type, quick=300, thorough=8000, about='the same in torch and jax'),
]
