"""Integrators (numga/examples/integrators.py, physics/lie_integrators.py) against power series of the exact solution"""
import numpy as np
from hypothesis import strategies as st
from ..core import Sub
from .. import gen
from ..nv import *
from .c32 import antivec, biv, cloud, load, values, xs

ID = 'C33'
RULE = ('quadratic vector fields on multivectors of generated algebras; the steps of the integrators as power series in the step size, '
        'computed on reference multivectors by the integrators themselves, against the series of the exact solution up to the order of '
        'the method, and as numbers on multivectors of each backend; Lie group integrators on generated bodies; non-trivial when the '
        'field is not constant')

ORDER = {'RK1': 1, 'RK4': 4, 'RK8': 7}      # ten stages cannot have order eight


def erratum(func, y, h):
    """known finding: RK8 with -234 in place of -231, which is of third order"""
    k1 = func(y)
    k2 = func(y + (h * 4 / 27) * k1)
    k3 = func(y + (h / 18) * (k1 + 3 * k2))
    k4 = func(y + (h / 12) * (k1 + 3 * k3))
    k5 = func(y + (h / 8) * (k1 + 3 * k4))
    k6 = func(y + (h / 54) * (13 * k1 - 27 * k3 + 42 * k4 + 8 * k5))
    k7 = func(y + (h / 4320) * (389 * k1 - 54 * k3 + 966 * k4 - 824 * k5 + 243 * k6))
    k8 = func(y + (h / 20) * (-234 * k1 + 81 * k3 - 1164 * k4 + 656 * k5 - 122 * k6 + 800 * k7))
    k9 = func(y + (h / 288) * (-127 * k1 + 18 * k3 - 678 * k4 + 456 * k5 - 9 * k6 + 576 * k7 + 4 * k8))
    k10 = func(y + (h / 820) * (1481 * k1 - 81 * k3 + 7104 * k4 - 3376 * k5 + 72 * k6 - 5040 * k7 - 60 * k8 + 720 * k9))
    return y + h / 840 * (41 * k1 + 27 * k4 + 272 * k5 + 27 * k6 + 216 * k7 + 216 * k9 + 41 * k10)


class Series:
    """truncated power series with reference multivectors as coefficients"""
    def __init__(self, r, co, deg):
        self.r, self.deg = r, deg
        self.co = (co + [{}] * (deg + 1))[:deg + 1]

    def new(self, co):
        return Series(self.r, co, self.deg)

    def __add__(self, o):
        return self.new([self.r.add(a, b) for a, b in zip(self.co, o.co)])

    def __radd__(self, o):      # sum() starts from zero
        return self if not isinstance(o, Series) and o == 0 else NotImplemented

    def __sub__(self, o):
        return self + o * -1

    def __neg__(self):
        return self * -1

    def __pos__(self):
        return self

    def __mul__(self, o):
        if not isinstance(o, Series):
            return self.new([{b: v * o for b, v in c.items()} for c in self.co])
        out = [{} for _ in self.co]
        for i, a in enumerate(self.co):
            if a:
                for j, b in enumerate(o.co[:self.deg + 1 - i]):
                    if b:
                        out[i + j] = self.r.add(out[i + j], self.r.gp(a, b))
        return self.new(out)

    def __rmul__(self, o):
        return self * o if not isinstance(o, Series) else o * self

    def __truediv__(self, k):
        return self * (1 / k)


@st.composite
def coefficients(draw, k):
    """mostly nonzero small integers, made from a seed"""
    v = np.random.default_rng(draw(st.integers(0, 9999))).integers(-2, 3, k).tolist()
    for i in draw(st.lists(st.integers(0, k - 1), max_size=3)):
        v[i] = 0
    return v


@st.composite
def rk_case(draw, tier):
    n = draw(st.sampled_from([1, 2, 2, 2, 3]))
    s = draw(gen.sig(n, n))
    v = lambda scale: [draw(coefficients(2 ** n)), scale]
    return dict(sig=s, method=draw(st.sampled_from(['RK1', 'RK4', 'RK4', 'RK8', 'RK8', 'RK8'])), y=v(0.5), a=v(0.5), b=v(0.25), q=v(0.25), c=v(0.5),
                h=draw(st.sampled_from([0.05, -0.05, 0.02])), backend=draw(st.sampled_from(['numpy'] * 4 + ['torch', 'jax'])), batch=draw(st.booleans()))


def run_rk(case):
    from numga.examples import integrators
    s, n = case['sig'], len(case['sig'])
    r, c = ref(s), ctx(s, case['backend'])
    step = getattr(integrators, case['method'])
    p = ORDER[case['method']]
    E = {k: {b: x * case[k][1] for b, x in enumerate(case[k][0]) if x} for k in 'yabqc'}
    deg = max(p, 6) if case['method'] != 'RK8' else 9
    S = lambda d: Series(r, [d], deg)
    a, b, q, k0 = (S(E[k]) for k in 'abqc')
    f = lambda y: a * y + y * b + y * q * y + k0
    h = Series(r, [{}, {0: 1.0}], deg)
    got = step(f, S(E['y']), h)
    if case['method'] == 'RK8':
        bad = erratum(f, S(E['y']), h)
        if all(abs(g.get(x, 0.0) - w.get(x, 0.0)) <= 1e-9 * max([1.0] + [abs(v) for v in w.values()])
               for g, w in zip(got.co, bad.co) for x in set(g) | set(w)):
            p = 3
    # the exact solution
    Y = [E['y']]
    for k in range(deg):
        cur = Series(r, Y, deg)
        Y.append({x: v / (k + 1) for x, v in f(cur).co[k].items()})
    for k in range(p + 1):
        g, w = got.co[k], Y[k]
        m = max([1.0] + [abs(v) for v in w.values()])
        for x in set(g) | set(w):
            check(abs(g.get(x, 0.0) - w.get(x, 0.0)) <= 1e-9 * m, lambda: f'{case["method"]}: term {k} of the step is {fmt(g)}, of the solution {fmt(w)}')
    # numbers, on multivectors
    full = list(range(2 ** n))
    M = lambda d: c.multivector(subspace=space(c, full), values=np.array([d.get(x, 0.0) for x in blist(space(c, full))]))
    A, B, Q, K = (M(E[k]) for k in 'abqc')
    y = M(E['y'])
    hh = case['h']
    if case['batch']:
        y = y.__class__(context=c, subspace=y.subspace, values=c.coerce_array(np.stack([arr(y), 2 * arr(y), 0 * arr(y)])))
    F = lambda y: A * y + y * B + y * Q * y + K
    num = step(F, y, hh)
    check(num.subspace is y.subspace, 'subspace of the new state')
    first = {k: np.asarray(v)[0] if case['batch'] else v for k, v in todict(num).items()}
    # the same step on the reference multivectors
    C = lambda d: Series(r, [d], 0)
    a, b, q, k0 = (C(E[k]) for k in 'abqc')
    f = lambda y: a * y + y * b + y * q * y + k0
    want = step(f, C(E['y']), hh).co[0]
    same(first, want, f'{case["method"]} of multivectors', tol=1e-9)
    if case['batch']:
        y0 = M({})
        same(step(F, y0, hh), {k: np.asarray(v)[2] for k, v in todict(num).items()}, f'{case["method"]} of an element of the batch')
    # there and back; the error is of the next order
    back = step(F, num, -hh)
    err = np.max(np.abs(arr(back) - arr(y)))
    big = 1 + max(np.max(np.abs(arr(F(y)))), np.max(np.abs(arr(y))))
    lip = max(1.0, 2 ** n * big * 3)
    if abs(hh) * lip < 0.5:
        check(err <= 4 * big * (abs(hh) * lip) ** (p + 1) + 1e-12, lambda: f'{case["method"]}: a step back returns to {err} of the start')
    return [case['method'], case['backend']] + ([] if any(E[k] for k in 'abq') and E['y'] else ['trivial'])


# ---- Lie group integrators
METHODS = {'variational_lie_verlet': 2, 'explicit_lie_newmark': 2, 'explicit_lie_newmark_rev': 2, 'explicit_rk1': 1, 'explicit_rk4': 4}


@st.composite
def lie_case(draw, tier):
    s = draw(st.sampled_from(['+++', '++0', '+++0', '++++', '++']))
    n = len(s)
    nb = n * (n - 1) // 2
    return dict(sig=s, method=draw(st.sampled_from(sorted(METHODS))), cloud=draw(cloud(n, 1)), rate=draw(xs(nb, 1.0)), place=draw(xs(nb, 1.0)))


def run_lie(case):
    from numga.examples.physics import lie_integrators as lie
    s, n = case['sig'], len(case['sig'])
    p = METHODS[case['method']]
    c, ref_c = ctx(s, 'jax'), ctx(s)
    k, v = case['cloud']

    def setup(c):
        P = load(c, antivec(n), values(v, k, n))
        I = P.inertia_map().sum(axis=-3)
        return I, I.inverse(), load(c, biv(n), case['rate'])
    try:
        I0, J0, r0 = setup(ref_c)
    except np.linalg.LinAlgError:
        return ['singular', 'trivial']
    cond = np.linalg.cond(np.asarray(I0.kernel))
    d = lambda r: J0(-I0(r).commutator(r))
    motor = load(c, biv(n), case['place']).exp_linear_normalized().select_subspace(c.subspace.motor())
    # a time step well below the time scale of the motion
    x, rates = r0, [1e-3]
    for _ in range(3):
        rates.append(float(np.max(np.abs(arr(x)))))
        q = float(np.max(np.abs(arr(d(x)))))
        rates.append(q / max(rates[-1], 1e-3))
        x = x + d(x) * (0.2 / max(rates))
    h = min(0.1, 0.04 / max(rates))
    if cond > 1e4 or h < 1e-3:
        return ['ill conditioned', 'trivial']
    I, J, rate = setup(c)
    e = c.multivector.empty()
    err, first = [], None
    for dt in (h, h / 2, h / 4):
        m, r = getattr(lie, case['method'])(motor, rate, I, J, dt, lambda m, r: e)
        same({b: np.asarray(w) for b, w in todict(m.symmetric_reverse_product()).items()}, {0: 1.0}, 'motor after a step', tol=1e-9 * max(1, np.max(np.abs(arr(motor))) ** 2))
        x, st_ = r0, dt / 24
        for _ in range(24):
            k1 = d(x)
            k2 = d(x + k1 * (st_ / 2))
            k3 = d(x + k2 * (st_ / 2))
            k4 = d(x + k3 * st_)
            x = x + (k1 + (k2 + k3) * 2 + k4) * (st_ / 6)
        err.append(float(np.max(np.abs(arr(r) - arr(x)), initial=0)))
    size = 1 + float(np.max(np.abs(arr(r0))))
    scaled = [u / t ** (p + 1) for u, t in zip(err, (1, 0.5, 0.25))]
    check(scaled[2] <= 4 * max(scaled[:2]) + 1e-12 * size * cond * 4 ** (p + 1), lambda: f'{case["method"]}: errors of steps of {h} times 1, 1/2, 1/4 are {err}, not of order {p}')
    # the error itself is small
    check(err[2] <= 0.01 * size, lambda: f'{case["method"]}: error {err[2]} of a step of {h / 4}, rate {short(arr(r0))}')
    return [case['method'], s] + ([] if np.max(np.abs(arr(d(r0)))) > 1e-9 else ['trivial'])


@st.composite
def root_case(draw, tier):
    s = draw(st.sampled_from(['+++', '++0', '+++0', '++++', '++', '+-', '+0']))
    n = len(s)
    nb = n * (n - 1) // 2
    return dict(sig=s, b=draw(xs(nb, 0.4)), q=draw(xs(nb, 0.3)), newton=draw(st.sampled_from([True] + [False] * 5)), backend=draw(st.sampled_from(['numpy', 'numpy', 'jax'])))


def run_root(case):
    from numga.examples.physics import lie_integrators as lie
    s, n = case['sig'], len(case['sig'])
    c = ctx(s, 'jax' if case['newton'] else case['backend'])
    b, q = (load(c, biv(n), case[k]) for k in 'bq')
    if case['newton']:
        f = lambda x: x - b + x.commutator(q) * 0.5 + x * float(np.sum(case['q']) / 9)
        x = lie.newton_solver_wrap(f, b)
        same({k: np.asarray(v) for k, v in todict(f(x)).items()}, {}, 'residual of a linear equation', tol=1e-9)
        g = lambda x: (x.squared() + x * 3 - 1)
        w = c.multivector.scalar([0.5])
        w = lie.newton_solver_wrap(g, w)
        same({k: np.asarray(v) for k, v in todict(w).items()}, {0: (13 ** 0.5 - 3) / 2}, 'root of a quadratic equation', tol=1e-9)
        return ['newton'] + ([] if np.any(arr(b)) else ['trivial'])
    e2 = lie.exp2(b)
    same({k: np.asarray(v) for k, v in todict(lie.exp4(b)).items()}, todict(lie.exp2(b / 2) * lie.exp2(b / 2)), 'exp4', tol=1e-9)
    for name, e, l in (('2', lie.exp2, lie.log2), ('4', lie.exp4, lie.log4)):
        m = e(b)
        same({k: np.asarray(v) for k, v in todict(m.symmetric_reverse_product()).items()}, {0: 1.0}, f'norm of exp{name}', tol=1e-9)
        back = l(m)
        same({k: np.asarray(v) for k, v in todict(back).items()}, todict(b), f'log{name} of exp{name}', tol=1e-8)
        # agreement with the exponential up to second and fourth order
        if '-' not in s:
            d = float(np.max(np.abs(arr(m - b.exp())), initial=0))
            t = float(np.sum(np.abs(case['b'])))
            check(d <= 2 * t ** 3, lambda: f'exp{name} is off by {d} for a bivector of size {t}')
    return [s] + ([] if np.any(arr(b)) else ['trivial'])


SUBS = [
    Sub('runge_kutta', rk_case, run_rk, quick=300, thorough=8000, about='steps as power series and as numbers'),
    Sub('log_exp', root_case, run_root, quick=200, thorough=4000, about='logarithms, exponentials and the solver of equations'),
    Sub('lie', lie_case, run_lie, quick=24, thorough=600, shards=8, about='order of the Lie group integrators for the rates of free bodies'),
]
