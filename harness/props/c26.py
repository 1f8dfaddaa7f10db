import json
import os
import subprocess
import sys
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, HarnessError
from .. import gen
from ..nv import *
from .c18 import series

ID = 'C26'
RULE = ('generated bivectors and even elements of x+y+z+w0 (with parts exactly zero, tiny or large, any batch shape and memory layout), and '
        'generated values in other algebras, orders, names and subspaces; with the optimised module imported in this process and not '
        'in a second one that computes the generic results; non-trivial when the generic result is finite and not constant')

SERVER = r'''
import sys, json, warnings
warnings.simplefilter('ignore')
import numpy as np
from numga.backend.numpy.context import NumpyContext
cs = {}
for line in sys.stdin:
    d, t, blades, shape, values, op = json.loads(line)
    c = cs.get((d, t))
    if c is None:
        c = cs[d, t] = NumpyContext(d, dtype=getattr(np, t))
    try:
        s = c.subspace.from_blades(blades)
        v = np.array(values, dtype=float).reshape(tuple(shape) + (len(blades),))
        with np.errstate(all='ignore'):
            y = getattr(c.multivector(subspace=s, values=v), op)()
        out = [[int(b) for b in y.subspace.blades], list(y.values.shape), str(y.values.dtype), [float(x) for x in y.values.ravel()]]
    except Exception as e:
        out = type(e).__name__
    assert 'numga.multivector.extension.optimized' not in sys.modules
    sys.stdout.write(json.dumps(out) + '\n')
    sys.stdout.flush()
'''
_server = [None, None]


def generic(*request):
    if _server[0] != os.getpid():
        env = dict(os.environ, PYTHONPATH=os.pathsep.join(p for p in sys.path if p))
        _server[1] = subprocess.Popen([sys.executable, '-c', SERVER], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env)
        _server[0] = os.getpid()
    p = _server[1]
    try:
        p.stdin.write(json.dumps(request) + '\n')
        p.stdin.flush()
        line = p.stdout.readline()
    except OSError:
        line = ''
    if not line:
        _server[0] = None
        raise HarnessError('the process computing the generic results ended')
    return json.loads(line)


PGA = 'x+y+z+w0'
OTHER = ['x-y+z+w0', 'x+y-z+w0', 'x+y+z-w0', 'x-y-z+w0', 'x+y+z+w+', 'x+y+z0w+', 'x0y+z+w+', 'a+b+c+d0', 'x+y+z+w+', 'x+y+z+w-', 'x-y+z+w0', 'w0x+y+z+', 'x+y+z+', 'x+y+w0', 'y+x+z+w0', 'x+y+z+w0v+', 'x-y-z-w0', 'x+y+z-w0', 'x+y+z+u0',
         'e+f+g+h0', 'x+y+z0w0']
ROT, TRANS = [3, 5, 6], [9, 10, 12]
EVEN = [0] + ROT + TRANS + [15]


@st.composite
def values(draw, blades, h, parts=True):
    """Values of several magnitudes, with parts that vanish"""
    k = int(np.prod(h, dtype=int))
    out = []
    for _ in range(k):
        sc = draw(st.sampled_from([1.0, 1.0, 1.0, 0.25, 8.0, 0.0, 1e-4, 1e-9, 1e-21]))
        st_ = draw(st.sampled_from([1.0, 1.0, 1.0, 4.0, 0.0, 0.0, 1e-9]))
        sr = draw(st.sampled_from([1.0, 1.0, 1.0, 1.0, 0.0, 0.0, 1e-3, 1e-8, 1e-12]))
        v = draw(gen.floats(len(blades), 2.0))
        out += [x * (sc * sr if 0 < b < 8 else sc * st_ if b else sc) for b, x in zip(blades, v)]
    return out


@st.composite
def case(draw, tier):
    own = draw(st.sampled_from([True, True, False]))
    h = draw(st.sampled_from([[], [], [1], [3], [2, 2], [0], [2, 1, 2]]))
    if own:
        d = PGA
        form = draw(st.sampled_from(['exp', 'exp_rot', 'exp_trans', 'normalized', 'normalized', 'other', 'sub']))
        b, op = {'exp': (ROT + TRANS, 'exp'), 'exp_rot': (ROT, 'exp'), 'exp_trans': (TRANS, 'exp'), 'normalized': (EVEN, 'normalized'),
                 'other': (EVEN, None), 'sub': (None, None)}[form]
        if form == 'other':
            op = draw(st.sampled_from(['motor_log', 'inverse', 'norm', 'motor_square_root', 'study_norm', 'motor_log_quadratic', 'motor_log_linear']))
    else:
        d = draw(st.sampled_from(OTHER))
        n = len(d) // 2
        form = draw(st.sampled_from(['exp', 'normalized', 'sub'] + ['rot', 'rot', 'trans'] * (n >= 4)))
        b = [x for x in range(2 ** n) if (gen.grade(x) == 2 if form == 'exp' else gen.grade(x) % 2 == 0)]
        if form in ('rot', 'trans'):      # the blades which the rules are about, of another algebra
            b = ROT if form == 'rot' else TRANS
        op = None if form == 'sub' else form if form == 'normalized' else 'exp'
    if form == 'sub':
        n = len(d) // 2
        b = draw(gen.blades(n, cap=8, empty=False, kinds=['grade', 'grade', 'few', 'few', 'single', 'subset', 'even']))
        op = draw(st.sampled_from(['exp', 'normalized']))
    b = gen.order_canonical(b)
    return dict(d=d, form=form if own else 'elsewhere', op=op, b=b, h=h, v=draw(values(b, h)), t=draw(st.sampled_from(['float64', 'float64', 'float32'])),
                layout=draw(st.sampled_from(['C', 'C', 'F', 'readonly', 'view'])))


def run(case):
    from numga.multivector.extension import optimized   # noqa: activates the rules
    from numga.backend.numpy.context import NumpyContext
    key = (case['d'], case['t'])
    if key not in _ctxs:
        _ctxs[key] = NumpyContext(case['d'], dtype=getattr(np, case['t']))
    c = _ctxs[key]
    b = case['b']
    v = np.array(case['v'], dtype=case['t']).reshape(tuple(case['h']) + (len(b),))
    if case['layout'] == 'F':
        v = np.asfortranarray(v)
    elif case['layout'] == 'view':
        big = np.full(v.shape[:-1] + (2 * v.shape[-1],), 7.0, dtype=case['t'])
        big[..., ::2] = v
        v = big[..., ::2]
    x = c.multivector(subspace=c.subspace.from_blades(b), values=v)
    before = v.copy()
    if case['layout'] == 'readonly':
        v.flags.writeable = False
    want = generic(case['d'], case['t'], b, case['h'], [float(q) for q in before.ravel()], case['op'])
    try:
        with np.errstate(all='ignore'):
            y = getattr(x, case['op'])()
    except Exception as e:
        if isinstance(want, str):
            return ['rejected', 'trivial']
        raise
    check(np.array_equal(x.values, before) and blist(x.subspace) == b, f'{case["op"]} changed its input')
    check(np.array_equal(v, before), f'{case["op"]} changed the array of its input')
    check(not isinstance(want, str), lambda: f'{case["op"]}: a result where the generic rules raise {want}')
    wb, ws, wt, wv = want
    wv = np.array(wv, dtype=float).reshape(ws)
    check(blist(y.subspace) == wb, lambda: f'{case["op"]}: subspace {blist(y.subspace)}, generic {wb}')
    check(str(y.values.dtype) == wt, lambda: f'{case["op"]}: {y.values.dtype}, generic {wt}')
    tail = () if case['form'] in ('other', 'sub', 'elsewhere') else tuple(case['h'])
    if tail or list(y.values.shape) != ws:
        # generic results may broadcast instead of spelling out the batch
        check(y.values.shape == tuple(case['h']) + (len(wb),), lambda: f'{case["op"]}: shape {y.values.shape}, batch of {case["h"]}')
    if not y.values.size:
        return ['empty', 'trivial']
    wv = np.broadcast_to(wv, y.values.shape)
    single = case['t'] == 'float32'
    ok = 0
    for i in np.ndindex(*y.values.shape[:-1]):
        g, w = y.values[i], wv[i]
        xi = before[i].astype(float)
        if not np.all(np.isfinite(w)):
            continue
        m = max(1.0, float(np.max(np.abs(w))))
        tol = (2e-4 if single else 1e-9) * m
        if case['d'] == PGA and case['op'] == 'exp':
            # the generic rule is an approximation by repeated squaring; the exact exponential is compared with below
            tol *= (5 if single else 3000) * max(1.0, float(np.max(np.abs(xi))))
        if case['form'] == 'other':
            # unchanged functions, some of which call the replaced ones and amplify their rounding
            big = max(1.0, float(np.max(np.abs(xi))))
            if m > 1e3 * big or np.min(np.abs(xi)) < 1e-3:
                continue
            tol = (1e-2 if single else 1e-6) * m
        if case['op'] == 'normalized' and single:
            # the result may depend on a cancellation in the study norm, which single precision resolves differently
            r = sum(q * q for q, e in zip(xi, b) if e < 8)
            tol *= max(1.0, 1e-3 * float(np.max(np.abs(xi))) / np.sqrt(r) if r else 1.0)
        check(np.all(np.abs(g - w) <= tol), lambda: f'{case["op"]} of {short(xi)}: {short(g)}, generic {short(w)}')
        ok += 1
        if case['d'] == PGA and case['form'].startswith('exp') and np.max(np.abs(xi)) < 3:
            e, s = series(ref('+++0'), {q: p for q, p in zip(b, xi.tolist())})
            for q, p in zip(blist(y.subspace), g):
                check(abs(p - e.get(q, 0.0)) <= (1e-4 if single else 1e-9) * s, lambda: f'exp of {short(xi)}: {short(g)}, the power series gives {short(e)}')
        if case['d'] == PGA and case['form'] == 'normalized' and not single:
            r = ref('+++0')
            gd = {q: float(p) for q, p in zip(b, g)}
            same(r.gp(gd, r.rev(gd)), {0: 1.0}, f'norm of the normalisation of {short(xi)}', tol=1e-8 * m * m, scale=1)
    const = all(np.array_equal(y.values[i], y.values[(0,) * (y.values.ndim - 1)]) for i in np.ndindex(*y.values.shape[:-1]))
    return [case['form'], case['op']] + ([] if ok and np.any(before) else ['trivial'])


_ctxs = {}

SUBS = [Sub('rules', case, run, quick=1800, thorough=40000, about='functions with the optimised rules active against a process without them')]
