"""Rigid bodies (numga/examples/physics) against sums over their points and the laws of mechanics"""
import numpy as np
from hypothesis import strategies as st
from ..core import Sub
from .. import gen
from ..nv import *
from .c06 import BIN

ID = 'C32'
RULE = ('bodies made of generated point clouds in generated euclidian, projective, elliptic and hyperbolic spaces of 2 to 4 generators, '
        'with generated positions, rates, forces and constraints; inertia against sums over the points in the reference model, steps '
        'against the equations of motion; non-trivial when the rates are nonzero and the inertia can be inverted')

SPACES = ['++', '+++', '++0', '+++0', '++++', '++-', '+++-', '+0', '+-', '+0', '0++', '+0+']


@st.composite
def xs(draw, k, scale=2.0):
    """k numbers in general position, made from a seed, with a few generated ones"""
    v = np.round(np.random.default_rng(draw(st.integers(0, 9999))).uniform(-scale, scale, k) * 1024) / 1024
    for i in draw(st.lists(st.integers(0, max(k - 1, 0)), max_size=3)) if k else []:
        v[i] = draw(st.sampled_from([0.0, 1.0, -0.5, scale]))
    return v.tolist()


def load(c, bl, v):
    o = gen.order_canonical(bl)
    return c.multivector(space(c, o), np.asarray(v, float))


def antivec(n):
    return [b for b in range(2 ** n) if gen.grade(b) == n - 1]


def biv(n):
    return [b for b in range(2 ** n) if gen.grade(b) == 2]


def values(v, *shape):
    return np.array(v, float).reshape(shape)


@st.composite
def cloud(draw, n, sets):
    k = draw(st.integers(n + 1, n + 4))
    return [k, draw(xs(sets * k * n))]


@st.composite
def inertia_case(draw, tier):
    s = draw(st.sampled_from(SPACES))
    n = len(s)
    nb = n * (n - 1) // 2
    return dict(sig=s, cloud=draw(cloud(n, 2)), a=draw(xs(2 * nb)), b=draw(xs(2 * nb)))


def momentum(r, pts, rate):
    out = {}
    for p in pts:
        out = r.add(out, BIN['regressive_product'](r, p, BIN['commutator_product'](r, p, rate)))
    return out


def rows(m):
    """batch of multivectors as list of dictionaries"""
    d = todict(m)
    return [{b: v[i] for b, v in d.items()} for i in range(m.shape[0])]


def run_inertia(case):
    from numga.examples.physics.core import Body
    c, r = ctx(case['sig']), ref(case['sig'])
    n = len(case['sig'])
    k, v = case['cloud']
    nb = len(biv(n))
    P = load(c, antivec(n), values(v, 2, k, n))
    a, b = (load(c, biv(n), values(case[q], 2, nb)) for q in 'ab')
    # an inverse exists for clouds in general position; leave the rest to the repository
    try:
        body = Body.from_point_cloud(P)
    except np.linalg.LinAlgError:
        return ['singular', 'trivial']
    check(body.inertia.shape == (2,), lambda: f'batch of the inertia maps {body.inertia.shape}')
    K = np.asarray(body.inertia.kernel)
    m = body.inertia(a)
    pts = [rows(P[i]) for i in range(2)]
    ra, rb = rows(a), rows(b)
    want = [momentum(r, pts[i], ra[i]) for i in range(2)]
    for i, (g, w) in enumerate(zip(rows(m), want)):
        same(g, w, f'momentum of body {i}')
    for i, g in enumerate(rows(body.first_moment)):
        w = {}
        for p in pts[i]:
            w = r.add(w, p)
        same(g, w, f'first moment of body {i}')
    # symmetric, and the energy is the momentum joined with the rate
    same(m & b, body.inertia(b) & a, 'symmetry of the inertia map', scale=100.0)
    e = body.copy(rate=a).kinetic_energy()
    for i, g in enumerate(rows(e)):
        same(g, BIN['regressive_product'](r, want[i], ra[i]), f'energy of body {i}')
    # per point
    one = P.inertia_map()
    check(one.shape == (2, k), 'batch of the inertia maps of points')
    same(one(a[:, None]), P.regressive(P.commutator(a[:, None])), 'inertia map of single points')
    cond = max(np.linalg.cond(x) for x in K)
    if cond < 1e6:
        same(body.inertia_inv(m), a, 'inverse inertia', tol=1e-9 * max(1.0, cond))
    # single body
    one = Body.from_point_cloud(P[0])
    same(one.inertia(a[0]), want[0], 'momentum of a single body')
    both = body[1:].concatenate(body[:1])
    same(both.inertia(a[::-1]), arr_dict(m[::-1]), 'bodies taken apart and put together')
    same(both.first_moment, arr_dict(body.first_moment[::-1]), 'first moments taken apart and put together')
    return [case['sig']] + ([] if np.any(arr(a)) else ['trivial'])


def arr_dict(m):
    return todict(m)


# ---- motion
@st.composite
def motion_case(draw, tier):
    s = draw(st.sampled_from(SPACES))
    n = len(s)
    nb = n * (n - 1) // 2
    k = draw(st.integers(1, 3))
    return dict(sig=s, k=k, cloud=draw(cloud(n, k)), rate=draw(xs(k * nb, 1.0)), place=draw(xs(k * nb, 1.0)), gravity=draw(xs(n)), heavy=draw(st.sampled_from([True, True, False])),
                damping=draw(st.sampled_from([0.0, 0.0, 0.5])), dt=draw(st.sampled_from([0.1, 0.05, 0.02, 0.01])), backend=draw(st.sampled_from(['numpy'] * 12 + ['torch', 'jax'])))


def bodies_of(c, case, k):
    from numga.examples.physics.core import Body
    n = len(case['sig'])
    nb = len(biv(n))
    q, v = case['cloud']
    P = load(c, antivec(n), values(v, k, q, n))
    body = Body.from_point_cloud(P)
    rate = load(c, biv(n), values(case['rate'], k, nb))
    motor = load(c, biv(n), values(case['place'], k, nb)).exp_linear_normalized().select_subspace(c.subspace.motor())
    g = np.array(case['gravity'], float) * (1.0 if case['heavy'] else 0.0)
    body = body.copy(motor=body.motor * 0 + motor, rate=rate, gravity=load(c, antivec(n), np.tile(g, (k, 1))), damping=c.multivector.scalar(np.full((k, 1), float(case['damping']))))
    return body


def finite(*ms):
    return all(np.all(np.isfinite(arr(m))) for m in ms)


def run_motion(case):
    c, r = ctx(case['sig']), ref(case['sig'])
    k, dt = case['k'], case['dt']
    try:
        body = bodies_of(c, case, k)
    except np.linalg.LinAlgError:
        return ['singular', 'trivial']
    K = np.asarray(body.inertia.kernel)
    cond = max(np.linalg.cond(x) for x in K)
    m0 = arr(body.motor)
    if cond > 1e4 or not finite(body.motor, body.rate) or np.max(np.abs(m0)) > 50:
        return ['ill conditioned', 'trivial']
    one = body.motor.symmetric_reverse_product()
    if '-' in case['sig'] and not np.allclose(arr(one - 1), 0, atol=1e-6):
        return ['not a motor', 'trivial']
    # Euler's equation: change of momentum equals the external force
    dr = body.rate_derivative()
    scale = 1 + float(np.max(np.abs(arr(dr)))) * np.abs(K).max() + np.abs(arr(body.rate)).max() ** 2 * np.abs(K).max()
    I = body.inertia(body.rate)
    F = (body.first_moment & (body.motor << body.gravity)) - (body.rate * body.damping).dual()
    zero = body.inertia(dr) + I.commutator(body.rate) - F
    same(zero, {}, "Euler's equation", tol=1e-9 * max(cond, 1), scale=scale)
    # without a force the energy is stationary
    if not case['heavy'] and not case['damping']:
        same(I & dr, {}, 'power without forces', tol=1e-9 * max(cond, 1), scale=scale * (1 + np.abs(arr(body.rate)).max()))
    if np.max(np.abs(arr(dr))) * dt > 0.5 or np.max(np.abs(arr(body.rate))) * dt > 0.5:
        return ['fast', 'trivial']
    new = body.pre_integrate(dt)
    # the rate after a step: compare with many small steps of the same equation
    def f(x):
        return body.copy(rate=x).rate_derivative()
    x, h = body.rate, dt / 32
    for _ in range(32):
        a = f(x)
        b = f(x + a * (h / 2))
        x = x + b * h
    d = float(np.max(np.abs(arr(x) - arr(new.rate)), initial=0))
    big = float(np.max(np.abs(arr(new.rate) - arr(body.rate)), initial=0))
    check(d <= 0.05 * big + 1e-9, lambda: f'rate after a step of {dt}: {short(arr(new.rate))}, by small steps {short(arr(x))}')
    # the motor moves with the rate, to first order: motor~ * new = 1 - rate dt / 2
    rel = body.motor.reverse() * new.motor
    lin = todict(1 - new.rate * (dt / 2))
    q = max(np.max(np.abs(arr(new.rate))) * dt, 1e-12)
    got = todict(rel)
    for b in set(got) | set(lin):
        e = np.max(np.abs(np.asarray(got.get(b, 0.0)) - np.asarray(lin.get(b, 0.0))))
        check(e <= 2 * q * q + 1e-7, lambda: f'motion of the motor during a step on blade {b:b} is off by {e}, rate {short(arr(new.rate))}, dt {dt}')
    same(new.motor.symmetric_reverse_product(), {0: np.ones(k)}, 'motor after a step', tol=1e-6 * max(1, np.max(np.abs(m0)) ** 2))
    # deducing the rate from the motors gives it back
    post = new.post_integrate(body, dt)
    same(post.rate, todict(new.rate), 'rate deduced from the motors', tol=1e-6 * max(1, np.max(np.abs(m0)) ** 2) / min(1, dt * 10))
    same(post.motor, todict(new.motor), 'motor after deducing the rate', tol=1e-6)
    # bodies do not depend on each other
    full = body.integrate(dt)
    for i in range(k):
        s = body[i:i + 1].integrate(dt)
        same(s.rate, todict(full.rate[i:i + 1]), 'rate of a single body', tol=1e-8)
        same(s.motor, todict(full.motor[i:i + 1]), 'motor of a single body', tol=1e-8)
    same(body.rate, {b: v for b, v in todict(bodies_of(c, case, k).rate).items()}, 'the body before the step')
    if case['backend'] != 'numpy':
        cb = ctx(case['sig'], case['backend'])
        other = bodies_of(cb, case, k).integrate(dt)
        for w in ('rate', 'motor'):
            g = getattr(other, w)
            same({b: np.asarray(v) for b, v in todict(g).items()}, todict(getattr(full, w)), f'{w} after a step in {case["backend"]}', tol=1e-7)
    return [case['sig'], case['backend']] + ([] if np.any(arr(body.rate)) else ['trivial'])


# ---- constraints
@st.composite
def constraint_case(draw, tier):
    s = draw(st.sampled_from(['+++', '++0', '+++0', '++++', '+++0', '+++0']))
    n = len(s)
    nb = n * (n - 1) // 2
    k = draw(st.integers(1, 2))        # constraints
    return dict(sig=s, k=k, cloud=draw(cloud(n, 2 * k)), rate=draw(xs(2 * k * nb, 0.5)), place=draw(xs(2 * k * nb, 0.5)), gravity=[0.0] * n, heavy=False,
                damping=0.0, anchors=draw(xs(2 * k * n, 1.0)), dirs=draw(xs(2 * k * nb)), mag=draw(xs(k)), dt=draw(st.sampled_from([0.1, 0.02])),
                compliance=draw(st.sampled_from([0.0, 0.0, 1e-3])), swap=draw(st.booleans()), meet=draw(st.booleans()))


def nothing(line, result):
    """known finding: nan for exactly those constraints which are satisfied"""
    bad = ~np.all(np.isfinite(arr(result)), axis=(0, 2))
    # the norm of a line misses its degenerate part
    zero = np.abs(np.nan_to_num(arr(line.norm())).reshape(len(bad), -1)).max(axis=1) < 1e-12
    return bad.any() and np.all(zero[bad]) and np.all(np.isnan(arr(result)[:, bad]).any(axis=(0, 2)))


def run_constraint(case):
    from numga.examples.physics.core import Constraint
    c = ctx(case['sig'])
    k, dt = case['k'], case['dt']
    n = len(case['sig'])
    nb = len(biv(n))
    try:
        body = bodies_of(c, case, 2 * k)
    except np.linalg.LinAlgError:
        return ['singular', 'trivial']
    K = np.asarray(body.inertia.kernel)
    cond = max(np.linalg.cond(x) for x in K)
    if cond > 1e3 or not finite(body.motor) or np.max(np.abs(arr(body.motor))) > 20:
        return ['ill conditioned', 'trivial']
    idx = np.arange(2 * k).reshape(2, k)
    if case['swap']:
        idx = idx[::-1].copy()
    av = values(case['anchors'], 2, k, n)
    if '0' in case['sig']:
        # points: coefficient of the ideal complement is one
        o = gen.order_canonical(antivec(n))
        w = [i for i, b in enumerate(o) if not b >> case['sig'].index('0') & 1]
        av[..., w] = 1.0
    A = load(c, antivec(n), av)
    l = arr(A.norm())
    if np.min(l) < 0.2:
        return ['trivial']
    A = A / A.norm()
    if case['meet']:
        # joints which are intact: both anchors at the same place
        w = body.motor[idx] >> A
        B = body.motor[idx] << w[[0, 0]]
        A = B.copy(values=np.concatenate([arr(A)[:1], arr(B)[1:]]))
    con = Constraint(idx, A, c.multivector.scalar(np.full((k, 1), case['compliance'])))
    motors, rates, inv, I = body.motor[idx], body.rate[idx], body.inertia_inv[idx], body.inertia[idx]

    def total(momentum_local, m):
        w = m >> momentum_local
        return arr(w.sum(axis=0))
    # an impulse along a line in space changes no total momentum
    D = load(c, biv(n), values(case['dirs'], 2, k, nb)).dual()[0]
    local = motors << D
    mag = c.multivector.scalar(values(case['mag'], k, 1))
    steps = con.distribute_forque(local, mag, inv, con.compliance / dt ** 2)
    comp = arr((inv(local) & local).sum(axis=0)) + case['compliance'] / dt ** 2
    if np.min(np.abs(comp)) < 1e-2:
        return ['degenerate direction', 'trivial']
    big = 1 + np.max(np.abs(arr(I(steps)))) * np.max(np.abs(arr(motors))) ** 2
    t = total(I(steps), motors)
    check(np.max(np.abs(t), initial=0) < 1e-8 * big * max(1, cond), lambda: f'an impulse between two bodies adds momentum {short(t)}')
    # and the velocity step of the constraint conserves momentum, and takes away the relative velocity along its direction
    before = total(I(rates), motors)
    new = con.v_apply_indexed(motors, rates, inv, dt)
    after = total(I(new), motors)
    big = 1 + max(np.max(np.abs(arr(I(new)))), np.max(np.abs(arr(I(rates))))) * np.max(np.abs(arr(motors))) ** 2
    pull = (motors >> con.anchors_map(rates))
    if nothing(pull[0] - pull[1], new):
        return ['nothing to do', 'trivial']
    check(finite(new), 'velocity step of a constraint is not finite')
    if case['meet'] or n < 4:      # the force is a line
        check(np.max(np.abs(after - before)) < 1e-7 * big * max(1, cond), lambda: f'velocity step of a constraint changes the momentum from {short(before)} to {short(after)}')
    # position step
    m2 = con.apply_indexed(motors, inv, dt)
    where = motors >> A
    if nothing(where[0] & where[1], m2):
        return ['nothing to do', 'trivial']
    same(m2.symmetric_reverse_product(), {0: np.ones((2, k))}, 'motors after a constraint', tol=1e-7 * max(1, np.max(np.abs(arr(motors))) ** 2))
    check(finite(m2), 'position step of a constraint is not finite')
    # slightly violated constraints of zero compliance are relaxed to first order
    p0 = motors >> A
    g0 = arr((p0[0] & p0[1]).norm())
    if '0' in case['sig'] and case['meet'] and case['compliance'] == 0.0 and np.max(np.abs(arr(motors))) < 4 and cond < 1e2:
        t = load(c, biv(n), values(case['dirs'], 2, k, nb)) * 1e-4
        off = motors * t.exp_linear_normalized()
        off = motors + off * 0 + (off - motors)
        q0 = off >> A
        q1 = con.apply_indexed(off, inv, dt) >> A
        L0, L1 = (q[0] & q[1] for q in (q0, q1))
        x = np.asarray(todict(L0.norm())[0]).ravel()
        y = np.asarray(todict(L1 * L0.reverse())[0]).ravel() / np.maximum(x, 1e-30)
        g0 = x
        for u, v in zip(x, y):
            check(abs(v / u - 0.5) < 0.02 or u < 1e-5, lambda: f'relaxing a joint pulled apart by {u} left {v} along its direction, not half')
    # applied to the set of bodies, it only touches the bodies it refers to
    if k == 2:
        half = con[:1]
        nb_ = half.apply(body, dt)
        touched = set(idx[:, 0].tolist())
        for i in range(2 * k):
            a, b = arr(nb_.motor)[i], arr(body.motor)[i]
            check((i in touched) or np.array_equal(a, b), 'a constraint moved a body it does not refer to')
            if i in touched:
                j = int(np.argwhere(idx[:, 0] == i)[0, 0])
                check(np.allclose(a, arr(m2)[j, 0], atol=1e-9), 'a constraint applied alone')
        both = con[:1].concatenate(con[1:]).apply(body, dt)
        for q in range(2):
            for j in range(k):
                check(np.allclose(arr(both.motor)[idx[q, j]], arr(m2)[q, j], atol=1e-9), 'constraints taken apart and put together')
    return [case['sig']] + ['relaxed' if len(np.ravel(g0)) and np.max(g0) > 1e-6 else 'satisfied']


SUBS = [
    Sub('inertia', inertia_case, run_inertia, quick=400, thorough=12000, about='inertia maps, first moments, energy'),
    Sub('motion', motion_case, run_motion, quick=300, thorough=10000, about='equation of motion, steps of the motor and rate'),
    Sub('constraints', constraint_case, run_constraint, quick=300, thorough=10000, about='impulses and constraint steps'),
]
