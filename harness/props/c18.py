import numpy as np
from hypothesis import strategies as st
from ..core import Sub
from .. import gen
from ..nv import *
from .c16 import root_exists, motor, versor, good_root

ID = 'C18'
RULE = ('exponentials of generated scalars, bivectors on any bivector subspace and null elements against the power series; logarithms '
        'and approximation pairs on generated bivectors and motors near one; rejection of everything else; non-trivial when the argument '
        'is not zero')


def series(r, b, n=None):
    """power series of the exponential, by the reference product"""
    out, term = {0: 1.0}, {0: 1.0}
    big = 1.0
    for k in range(1, 60):
        term = r.scale(r.gp(term, b), 1.0 / k)
        t = max([abs(v) for v in term.values()] or [0])
        big = max(big, t)
        out = r.add(out, term)
        if t < 1e-18 * big:
            break
    return out, max(big, max(abs(v) for v in out.values()))


def bivs(n):
    return [e for e in range(2 ** n) if gen.grade(e) == 2]


def biv_case(scale, lo=2, hi=5):
    @st.composite
    def f(draw, tier):
        s = draw(gen.sig(lo, hi, weights=[2, 3, 3, 4, 4, 5, 5]))
        B = bivs(len(s))
        kind = draw(st.sampled_from(['all', 'all', 'sub', 'sub', 'one']))
        if kind == 'all':
            b = B
        elif kind == 'one':
            b = [draw(st.sampled_from(B))]
        else:
            b = sorted(set(draw(st.lists(st.sampled_from(B), min_size=1, max_size=6))))
        return dict(sig=s, x=[b, draw(gen.floats(len(b), scale))], mode=draw(st.sampled_from(['generic'] * 4 + ['tiny', 'zero', 'single'])))
    return f


def value(case):
    b, v = case['x']
    v = list(v)
    if case.get('mode') == 'tiny':
        v = [x * 1e-6 for x in v]
    elif case.get('mode') == 'zero':
        v = [0.0] * len(v)
    elif case.get('mode') == 'single':
        v = [x if i == len(v) - 1 else 0.0 for i, x in enumerate(v)]
    return dict(zip(b, v))


def run_exp(case):
    c, r = ctx(case['sig']), ref(case['sig'])
    d = value(case)
    want, big = series(r, d)
    x = mk(c, [list(d), list(d.values())])
    y = x.exp()
    check(np.all(np.isfinite(y.values)), f'exponential is not finite: {short(y.values)}')
    tol = 3e-8 * (1 + max(map(abs, d.values())) * len(d)) ** 3
    same(y, want, 'exp', tol=tol, scale=big)
    same(c.multivector.multivector(values=y.values, subspace=y.subspace) * (-x).exp(), {0: 1.0}, 'exp(x) exp(-x)', tol=tol, scale=big ** 2)
    same(x.exp_bisect(), want, 'exp_bisect', tol=tol, scale=big)
    if len(d) == 1 or not any(d.values()):
        same((x * 2.0).exp(), todict(y * y), 'doubling', tol=tol, scale=big ** 2)
    return [f'd{r.n}'] + ([] if any(d.values()) else ['trivial'])


# ---- scalars, null elements, and anything else
@st.composite
def other_case(draw, tier):
    s = draw(gen.sig(1, 5, weights=[1, 2, 2, 3, 3, 4, 5], signs='+-00'))
    return dict(sig=s, x=draw(gen.mv(len(s), cap=5, values=lambda k: gen.floats(k, 2.0), kinds=['few', 'few', 'subset', 'grade', 'single', 'single', 'empty', 'grades'])),
                null=draw(st.booleans()))


def run_other(case):
    c, r = ctx(case['sig']), ref(case['sig'])
    d = dct(case['x'])
    z = [i for i, q in enumerate(case['sig']) if q == '0']
    if case['null'] and z:
        d = {b: v for b, v in ((b | 1 << z[0], v) for b, v in d.items())}
    b = list(d)
    x = mk(c, [b, list(d.values())])
    squares_to_nothing = not any(nonzero(r.add(r.gp({i: 1.0}, {j: 1.0}), r.gp({j: 1.0}, {i: 1.0}), 1)) for i in b for j in b)
    scalar = set(b) <= {0}
    biv = all(gen.grade(k) == 2 for k in b)
    labels = []
    if scalar or biv or squares_to_nothing:
        want, big = series(r, d)
        same(x.exp(), want, 'exp', tol=1e-6, scale=big * 10)
        labels.append('scalar' if scalar else 'bivector' if biv else 'null')
    else:
        try:
            y = x.exp()
        except Exception:
            labels.append('rejected')
        else:
            check(False, f'exponential of blades {b} is not rejected; {y.subspace}')
    if b == [0]:
        pos = c.multivector.scalar([abs(d[0]) + 0.5])
        same(pos.log().exp(), {0: pos.values[..., 0]}, 'exp log of a scalar', tol=1e-12)
        same(x.exp().log(), d, 'log exp of a scalar', tol=1e-12)
        same(pos.log(), {0: np.log(abs(d[0]) + 0.5)}, 'log of a scalar', tol=1e-12)
    else:
        try:
            x.log()
        except Exception:
            pass
        else:
            check(False, f'logarithm of blades {b} is not rejected')
    return labels + ([] if b else ['trivial'])


# ---- round trips from bivectors
def size(d):
    return sum(abs(v) for v in d.values())


def run_from_biv(case):
    c, r = ctx(case['sig']), ref(case['sig'])
    d = value(case)
    k = size(d)
    if k > 0.9:
        d = r.scale(d, 0.9 / k)
    x = mk(c, [list(d), list(d.values())])
    before = x.values.copy()
    with np.errstate(all='ignore'):
        m = x.exp()
        even = m.select_subspace(c.subspace.even_grade())
        same(r.gp(todict(even), r.rev(todict(even))), {0: 1.0}, 'norm of exp', tol=1e-8)
        same(m.motor_log(), d, 'motor_log(exp)', tol=1e-7)
        same(even.motor_log(), d, 'motor_log(exp) on the even subalgebra', tol=1e-7)
        same(x.exp_bisect().motor_log_bisect(), d, 'motor_log_bisect(exp_bisect)', tol=1e-7)
        # linear
        l = x.exp_linear()
        same(l, r.add({0: 1.0}, d), 'exp_linear', tol=1e-15)
        same(l.motor_log_linear(), d, 'motor_log_linear(exp_linear)', tol=1e-15)
        # normalised linear
        n = x.exp_linear_normalized()
        en = {b: float(v) for b, v in todict(n).items()}
        same(r.gp(en, r.rev(en)), {0: 1.0}, 'exp_linear_normalized', tol=1e-9)
        N = r.gp(r.add({0: 1.0}, d), r.add({0: 1.0}, d, -1))
        N = {b: v for b, v in N.items() if abs(v) > 1e-15}
        ok, inv = root_exists(r, N)
        # an algebra without any nonnull vector has no motors
        if ok and inv and set(case['sig']) != {'0'}:
            same(n.motor_log_linear_normalized(), d, 'motor_log_linear_normalized(exp_linear_normalized)', tol=1e-8)
            # proportional to 1 + b
            same(n.motor_log_linear_normalized().exp_linear_normalized(), en, 'exp_linear_normalized(motor_log_linear_normalized)', tol=1e-8)
        # quadratic
        q = x.exp_quadratic()
        eq = {b: float(v) for b, v in todict(q).items()}
        same(r.gp(eq, r.rev(eq)), {0: 1.0}, 'exp_quadratic is normalised', tol=1e-9)
        # (1 - b/2) exp_quadratic(b) = 1 + b/2
        same(r.gp(r.add({0: 1.0}, d, -0.5), eq), r.add({0: 1.0}, d, 0.5), 'exp_quadratic', tol=1e-9)
        same(q.motor_log_quadratic(), d, 'motor_log_quadratic(exp_quadratic)', tol=1e-8)
        same(q.motor_log_quadratic().exp_quadratic(), eq, 'exp_quadratic(motor_log_quadratic)', tol=1e-8)
        # approximations agree to their order
        e, big = series(r, d)
        k = size(d)
        same(eq, e, 'order of exp_quadratic', tol=k ** 3 + 1e-12)
        same(en, e, 'order of exp_linear_normalized', tol=k ** 2 * 2 + 1e-12)
        same(l, e, 'order of exp_linear', tol=k ** 2 * 2 + 1e-12)
    check(np.array_equal(x.values, before), 'input changed')
    return [f'd{r.n}'] + ([] if k else ['trivial'])


# ---- round trips from motors near one
@st.composite
def motor_case(draw, tier):
    s = draw(gen.sig(2, 5, weights=[2, 3, 3, 4, 4, 5]))
    n = len(s)
    base = [draw(gen.ints(n)) for _ in range(draw(st.sampled_from([1, 2, 2])))]
    return dict(sig=s, base=base, step=[draw(gen.floats(n, 0.25)) for _ in base], tight=draw(st.booleans()))


def run_motor(case):
    """products of pairs of nearby unit vectors"""
    c, r = ctx(case['sig']), ref(case['sig'])
    m = {0: 1.0}
    for v, w in zip(case['base'], case['step']):
        k, _ = motor(r, [v, [a + b for a, b in zip(v, w)]])
        if k is None:
            return ['trivial']
        m = r.gp(m, k)
    if m.get(0, 0) < 0:
        m = r.scale(m, -1)
    far = size({b: v for b, v in m.items() if b})
    if abs(r.gp(m, r.rev(m)).get(0, 0) - 1) > 1e-9 or far > 0.7 or abs(m.get(0, 0) - 1) > 0.4:
        return ['trivial']
    n = r.n
    b = [e for e in range(2 ** n) if gen.grade(e) % 2 == 0 and (not case['tight'] or e in m or e == 0)]
    x = mk(c, [b, [m.get(e, 0.0) for e in b]])
    with np.errstate(all='ignore'):
        for log, exp in (('motor_log', 'exp'), ('motor_log_bisect', 'exp_bisect'), ('motor_log_quadratic', 'exp_quadratic'),
                         ('motor_log_linear_normalized', 'exp_linear_normalized')):
            if log == 'motor_log_linear_normalized' and not x.subspace.inside.quadreflection():
                continue
            l = getattr(x, log)()
            check(all(gen.grade(k) == 2 for k in blist(l.subspace)), f'{log} is not a bivector')
            check(np.all(np.isfinite(l.values)), f'{log} is not finite')
            same(getattr(l, exp)(), m, f'{exp}({log})', tol=1e-7)
        l = x.motor_log()
        d = {k: float(v) for k, v in todict(l).items()}
        want, big = series(r, d)
        same(want, m, 'series of the logarithm', tol=1e-7)
        same((~x).motor_log(), r.scale(d, -1), 'logarithm of the reverse', tol=1e-7)
    return [f'd{n}'] + ([] if len(m) > 1 else ['trivial'])


SUBS = [
    Sub('exp', biv_case(2.0), run_exp, quick=400, thorough=12000, about='exponentials of bivectors against the power series'),
    Sub('other', other_case, run_other, quick=500, thorough=12000, about='scalars, null elements, rejection of anything else'),
    Sub('pairs', biv_case(0.5), run_from_biv, quick=200, thorough=8000, about='logarithms and approximation pairs, from bivectors'),
    Sub('motors', motor_case, run_motor, quick=300, thorough=10000, about='logarithms and approximation pairs, from motors'),
]
