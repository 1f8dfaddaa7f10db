"""Conformal geometry (numga/examples/conformal.py) against coordinate geometry"""
import functools
import numpy as np
from hypothesis import strategies as st
from ..core import Sub
from .. import gen
from ..nv import *

ID = 'C31'
RULE = ('generated points and spheres with rational coordinates, in conformal contexts made in both supported ways over euclidian and '
        'pseudo-euclidian spaces of 1 to 4 dimensions, against formulas in coordinates; non-trivial when the points are distinct and '
        'one of them is not the origin')


@functools.lru_cache(maxsize=60)
def make(sig, kind):
    from numga.backend.numpy.context import NumpyContext
    from numga.examples.conformal import Conformal, Conformalize
    d = ''.join(n + s for n, s in zip('xyzw', sig))
    if kind == 'wrap':
        g = Conformal(NumpyContext(Conformal.algebra(d)))
        return g, g.context
    g = Conformalize(NumpyContext(d))
    return g, g


coord = st.integers(-12, 12).map(lambda k: k / 4)


@st.composite
def case(draw, tier):
    n = draw(st.sampled_from([1, 2, 2, 3, 3, 4]))
    sig = '+' * n if draw(st.integers(0, 3)) else draw(st.lists(st.sampled_from('+-'), min_size=n, max_size=n).map(''.join))
    k = draw(st.integers(2, 5))
    pts = [[draw(coord) for _ in range(n)] for _ in range(k)]
    return dict(sig=sig, kind=draw(st.sampled_from(['wrap', 'extend'])), p=pts, r=[draw(st.integers(0, 12).map(lambda k: k / 4)) for _ in pts],
                scale=draw(st.sampled_from([2.0, -3.0, 0.5, -1.0, 7.0])), t=[draw(coord) for _ in range(n)],
                w=[draw(coord) for _ in range(n * (n - 1) // 2)])


def scal(x, what):
    d = todict(x)
    return d.get(0, np.zeros(x.shape))


def near(a, b, what, tol=1e-7):
    a, b = np.asarray(a, float), np.asarray(b, float)
    check(a.shape == b.shape, lambda: f'{what}: shape {a.shape}, expected {b.shape}')
    m = max(1.0, float(np.max(np.abs(b), initial=0)))
    check(np.all(np.abs(a - b) <= tol * m), lambda: f'{what}: {short(a)}, expected {short(b)}')


def split(g, T, n):
    """the points of a point pair. Known finding: raises in three or more dimensions"""
    try:
        s = g.split_points(T)
    except Exception as e:
        if n < 3 or not (isinstance(e, AssertionError) or 'No matching' in str(e)):
            raise
        return None
    if not isinstance(s, tuple):
        check(tuple(s.shape) == (2,), 'two points')
    return [s[0], s[1]]


def run(case):
    g, c = make(case['sig'], case['kind'])
    n = len(case['sig'])
    m = np.array([1.0 if s == '+' else -1.0 for s in case['sig']])
    p, r = np.array(case['p']), np.array(case['r'])
    dot = lambda x, y: np.sum(m * x * y, axis=-1)
    # the added null basis
    near(scal(g.ni * g.ni, ''), 0.0, 'ni squared')
    near(scal(g.no * g.no, ''), 0.0, 'no squared')
    near(scal(g.ni | g.no, ''), -1.0, 'ni . no')
    near(scal(g.N * g.N, ''), 1.0, 'N squared')
    # points
    P = g.embed_point(p)
    check(P.subspace.equals.vector() and tuple(P.shape) == (len(p),), 'embedding of a batch of points')
    near(arr(P * P).reshape(len(p), -1).sum(axis=1), np.zeros(len(p)), 'square of a point')
    near(scal(P | g.ni, ''), -np.ones(len(p)), 'point . infinity')
    near(scal(P[:, None] | P[None, :], ''), -dot(p[:, None] - p[None, :], p[:, None] - p[None, :]) / 2, 'point . point')
    near(arr(g.point_position(P).select_subspace(c.subspace.euclidian())), p, 'position of embedded points')
    one = g.embed_point(p[0])
    near(arr(one), arr(P)[0], 'embedding of a single point')
    near(arr(g.point_position(one).select_subspace(c.subspace.euclidian())), p[0], 'position of a single point')
    near(arr(g.normalize(P * case['scale'])), arr(P), 'normalisation')
    # spheres
    S = [g.embed_point(x, r=float(k)) for x, k in zip(p, r)]
    for i, s in enumerate(S):
        near(scal(s * s, ''), r[i] ** 2, 'square of a sphere')
        for j, t in enumerate(S):
            d = p[i] - p[j]
            near(scal(s | t, ''), -(dot(d, d) - r[i] ** 2 - r[j] ** 2) / 2, 'sphere . sphere')
    # inversion in a sphere: through reflection of a point
    d = p[1] - p[0]
    q = dot(d, d)
    if r[0] and abs(q) > 1e-9:
        want = p[0] + r[0] ** 2 * d / q
        for s in (S[0], S[0].dual()):
            y = g.normalize(s >> P[1])
            near(arr(y.select_subspace(c.subspace.vector())), arr(g.embed_point(want)), 'inversion of a point', 1e-6)
    if r[0]:
        y = g.normalize(S[0] >> g.ni)
        near(arr(y.select_subspace(c.subspace.vector())), arr(P)[0], 'the centre is the inverse of infinity')
    # translation
    t = np.array(case['t'])
    T = 1 - c.multivector.euclidian(t) * g.ni / 2
    y = T >> P
    near(arr(y.select_subspace(c.subspace.vector())), arr(g.embed_point(p + t)), 'translated points')
    y = T << P
    near(arr(y.select_subspace(c.subspace.vector())), arr(g.embed_point(p - t)), 'points translated backwards')
    # reflection in a hyperplane through the origin
    k = dot(t, t)
    if abs(k) > 1e-9:
        y = (c.multivector.euclidian(t)) >> P
        want = (p - 2 * dot(p, t)[:, None] / k * t)
        near(arr(g.normalize(y).select_subspace(c.subspace.vector())), arr(g.embed_point(want)), 'reflected points', 1e-6)
    # point pairs
    if q > 1e-9 and set(case['sig']) == {'+'}:
        T = P[0] ^ P[1]
        pts = split(g, T, n)
        if pts is None:
            return [f'd{n}', case['kind']] + ([] if np.any(p[0]) else ['trivial'])
        got = sorted(arr(g.normalize(x)).tolist() for x in pts)
        want = sorted(arr(x).tolist() for x in (P[0], P[1]))
        # sorting is not robust for equal leading coordinates
        a = np.array(got)
        b = np.array(want)
        check(np.allclose(a, b, atol=1e-6) or np.allclose(a[::-1], b, atol=1e-6), lambda: f'points of a pair: {short(a)}, expected {short(b)}')
    return [f'd{n}', case['kind']] + ([] if abs(q) > 0 and np.any(p[0]) else ['trivial'])


# ---- spheres through points
@st.composite
def round_case(draw, tier):
    n = draw(st.sampled_from([1, 2, 2, 3, 3]))
    return dict(n=n, kind=draw(st.sampled_from(['wrap', 'extend'])), c=[draw(coord) for _ in range(n)], r=draw(st.integers(1, 12).map(lambda k: k / 4)),
                dirs=[[draw(coord) for _ in range(n)] for _ in range(n + 3)], c2=[draw(coord) for _ in range(n)],
                r2=draw(st.integers(1, 12).map(lambda k: k / 4)))


def run_round(case):
    n = case['n']
    g, c = make('+' * n, case['kind'])
    ctr, r = np.array(case['c']), case['r']
    d = np.array(case['dirs'])
    l = np.linalg.norm(d, axis=1)
    d = d[l > 0.2] / l[l > 0.2, None]
    if len(d) < n + 1:
        return ['trivial']
    x = ctr + r * d
    # points in general position on the sphere
    vol = np.linalg.det(d[1:n + 1] - d[0])
    if abs(vol) < 0.05:
        return ['trivial']
    X = g.embed_point(x)
    C = X[0]
    for i in range(1, n + 1):
        C = C ^ X[i]
    check(C.subspace.inside.antivector(), 'a sphere is the wedge of points')
    near(arr(C ^ X), np.zeros((len(x),) + arr(C ^ X).shape[1:]), 'points on the sphere', 1e-6 * max(1.0, np.abs(arr(C)).max() * np.abs(arr(X)).max()))
    D = g.normalize(C.dual())
    near(arr(D.select_subspace(c.subspace.vector())), arr(g.embed_point(ctr, r=r)), 'sphere through points', 1e-5)
    centre = g.normalize(D >> g.ni)
    near(arr(g.point_position(centre).select_subspace(c.subspace.euclidian())), ctr, 'centre of a sphere through points', 1e-5)
    near(arr(D.norm()).reshape(()), r, 'radius of a sphere through points', 1e-5)
    # the pair in which two circles meet lies on both
    if n == 2:
        c2, r2 = np.array(case['c2']), case['r2']
        e = np.linalg.norm(c2 - ctr)
        if abs(r - r2) + 0.1 < e < r + r2 - 0.1:
            s1, s2 = g.embed_point(ctr, r=r), g.embed_point(c2, r=r2)
            T = s1.dual() & s2.dual()
            pts = split(g, T, n)
            if pts is None:
                return [f'd{n}', case['kind']]
            xs = [arr(g.point_position(g.normalize(p)).select_subspace(c.subspace.euclidian())) for p in pts]
            for y in xs:
                near([np.linalg.norm(y - ctr), np.linalg.norm(y - c2)], [r, r2], 'points where circles meet', 1e-6)
            check(np.linalg.norm(xs[0] - xs[1]) > 1e-3, 'circles meet in two points')
    return [f'd{n}', case['kind']]


SUBS = [
    Sub('points', case, run, quick=700, thorough=20000, about='embedding, positions, inner products, inversions, translations, reflections, point pairs'),
    Sub('spheres', round_case, run_round, quick=500, thorough=15000, about='spheres through points; where circles meet'),
]
