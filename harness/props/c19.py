import numpy as np
from hypothesis import strategies as st
from ..core import Sub
from .. import gen
from ..nv import *
from .c16 import root_exists, motor, versor, good_root
from .c18 import biv_case, value, bivs

ID = 'C19'
RULE = ('bivectors: generated bivectors on any bivector subspace; motors: normalised products of unit vectors in signatures with at most '
        'one null generator, about coordinate origins and generated ones; non-trivial when the decomposition has two nonzero parts')
ASSUMPTIONS = ['the invariant decomposition is checked where the study norm of the square is above 2% of its size, the polar one where '
               'the squared norm has a well conditioned root']


def floats_of(mv, idx=()):
    return {b: float(v[idx]) if np.ndim(v) else float(v) for b, v in todict(mv).items()}


def run_invariant(case):
    c, r = ctx(case['sig']), ref(case['sig'])
    d = value(case)
    x = mk(c, [list(d), list(d.values())])
    before = x.values.copy()
    sq = {b: v for b, v in r.gp(d, d).items()}
    ns = {b: v for b, v in sq.items() if b}
    sn2 = sq.get(0, 0) ** 2 - r.gp(ns, ns).get(0, 0)
    m = max([abs(v) for v in sq.values()] + [1e-30])
    simple = x.subspace.squared().inside.scalar()
    if sn2 <= (0.02 * m) ** 2 and not simple:
        return ['isoclinic', 'trivial']
    k = m / np.sqrt(sn2) if sn2 > 0 else 1
    size = max([abs(v) for v in d.values()] + [1e-30])
    with np.errstate(all='ignore'):
        l, q = x.decompose_invariant()
    check(np.array_equal(x.values, before), 'input changed')
    L, Q = floats_of(l), floats_of(q)
    tol = 1e-9 * k * k * size
    same(r.add(L, Q), d, 'sum of the parts', tol=tol, scale=1)
    for y, n in ((L, 'first'), (Q, 'second')):
        check(all(gen.grade(b) == 2 for b, v in y.items()), f'{n} part is not a bivector')
        s2 = r.gp(y, y)
        same({b: v for b, v in s2.items() if b}, {}, f'nonscalar part of the square of the {n} part', tol=tol * size * k, scale=1)
    same(r.add(r.gp(L, Q), r.gp(Q, L), -1), {}, 'commutator of the parts', tol=tol * size * k, scale=1)
    same({0: r.gp(L, Q).get(0, 0.0)}, {}, 'scalar product of the parts', tol=tol * size * k, scale=1)
    both = max([abs(v) for v in L.values()] or [0]) > 1e-3 * size and max([abs(v) for v in Q.values()] or [0]) > 1e-3 * size
    return [f'd{r.n}', 'simple' if simple else 'general'] + ([] if both else ['trivial'])


def run_polar(case):
    c, r = ctx(case['sig']), ref(case['sig'])
    d = value(case)
    x = mk(c, [list(d), list(d.values())])
    if not x.subspace.squared().is_study:
        return ['nostudy', 'trivial']
    N = {b: v for b, v in r.gp(d, r.rev(d)).items() if abs(v) > 1e-16}
    ok, inv = root_exists(r, N)
    if not (ok and inv) or not nonzero(N):
        return ['noroot', 'trivial']
    with np.errstate(all='ignore'):
        L, s = x.decompose_polar()
        # the same, next to a zero bivector
        B, S = c.multivector(values=np.stack([x.values, x.values * 0, x.values]), subspace=x.subspace).decompose_polar()
    l, q = floats_of(L), floats_of(s)
    for i in (0, 2):
        same(floats_of(B, i), l, 'line, in a batch', tol=1e-9)
        same(floats_of(S, i), q, 'study number, in a batch', tol=1e-9)
    same(floats_of(B, 1), {}, 'line of a zero bivector', tol=0, scale=1)
    same(floats_of(S, 1), {}, 'study number of a zero bivector', tol=0, scale=1)
    check(all(gen.grade(b) == 2 for b in l), 'the line is not a bivector')
    check(s.subspace.is_study, 'not a study number')
    k = max([1.0] + [abs(v) for v in list(l.values()) + list(q.values())]) ** 2
    same(r.gp(l, q), d, 'line times study number', tol=1e-8 * k)
    same(r.gp(q, l), d, 'study number times line', tol=1e-8 * k)
    same(r.gp(l, l), {0: -1.0}, 'square of the line', tol=1e-7 * k)
    same(r.gp(q, q), N, 'square of the study number', tol=1e-8 * k)
    return [f'd{r.n}'] + ([] if len(N) > 1 else ['trivial'])


@st.composite
def split_case(draw, tier):
    n = draw(st.sampled_from([2, 3, 3, 4, 4, 5]))
    s = draw(st.lists(st.sampled_from('+++-'), min_size=n, max_size=n).map(''.join))
    if draw(st.booleans()):
        i = draw(st.integers(0, n - 1))
        s = s[:i] + '0' + s[i + 1:]
    return dict(sig=s, vs=draw(versor(n)), o=draw(st.sampled_from(['axis', 'axis', 'general', 'subset'])), axis=draw(st.integers(0, n - 1)),
                w=draw(gen.floats(n, 2.0)), tight=draw(st.booleans()), h=draw(st.sampled_from([0, 0, 2])))


def run_split(case):
    c, r = ctx(case['sig']), ref(case['sig'])
    sig, n = case['sig'], len(case['sig'])
    m, norm = motor(r, case['vs'])
    if norm < 0.5 or max(map(abs, m.values())) > 20:
        return ['trivial']
    null = sig.find('0')
    full = 2 ** n - 1
    if case['o'] == 'axis':
        i = null if null >= 0 else case['axis']
        o = {full ^ (1 << i): case['w'][i] or 1.0}
    elif case['o'] == 'general':
        o = {full ^ (1 << i): v for i, v in enumerate(case['w'])}
    else:
        keep = [i for i in range(n) if i == case['axis'] or (i + int(case['w'][0] * 8)) % 2] or [case['axis']]
        o = {full ^ (1 << i): case['w'][i] or 1.0 for i in keep}
    o2 = r.gp(o, o).get(0, 0)
    if abs(o2) < 0.05:
        return ['noinverse', 'trivial']
    b = sorted(m) if case['tight'] else [e for e in range(2 ** n) if gen.grade(e) % 2 == 0]
    b = sorted(set(b) | {0})
    M = mk(c, [b, [m.get(e, 0.0) for e in b]])
    O = mk(c, [list(o), list(o.values())])
    euclid = O.subspace.dual().is_degenerate
    if not euclid:
        oi = r.scale(o, 1 / o2)
        q = r.gp({k: v for k, v in r.sandwich(m, o).items() if r.grade(k) == n - 1}, oi)
        q = {k: v for k, v in q.items() if abs(v) > 1e-13}
        if not good_root(r, q):
            return ['far', 'trivial']
    with np.errstate(all='ignore'):
        t, rot = M.motor_split(O)
    T, R = floats_of(t), floats_of(rot)
    k = max([1.0] + [abs(v) for d in (T, R, m, o) for v in d.values()]) ** 3
    check(all(gen.grade(e) % 2 == 0 for e in list(T) + list(R)), 'parts are not even')
    same(r.gp(T, R), m, 'translator times rotor', tol=1e-8 * k)
    same(r.gp(T, r.rev(T)), {0: 1.0}, 'norm of the translator', tol=1e-7 * k)
    same(r.gp(R, r.rev(R)), {0: 1.0}, 'norm of the rotor', tol=1e-7 * k)
    same(r.sandwich(R, o), o, 'origin under the rotor', tol=1e-7 * k)
    # so the translator does all of the motion of the origin
    same(r.sandwich(T, o), r.sandwich(m, o), 'origin under the translator', tol=1e-7 * k)
    labels = ['euclidean' if euclid else 'curved', case['o']]
    if null >= 0:
        # the parts about the coordinate origin
        t, rot = M.motor_translator(), M.motor_rotor()
        T2, R2 = floats_of(t), floats_of(rot)
        same(r.gp(T2, R2), m, 'motor_translator * motor_rotor', tol=1e-8 * k)
        check(all(not e >> null & 1 for e in R2), 'motor_rotor has a null component')
        check(all(e == 0 or (e >> null & 1 and gen.grade(e) == 2) for e in T2), 'motor_translator is not a translator')
        same(R2, {e: v for e, v in m.items() if not e >> null & 1}, 'motor_rotor', tol=1e-12)
        same(r.sandwich(R2, {full ^ (1 << null): 1.0}), {full ^ (1 << null): 1.0}, 'coordinate origin under motor_rotor', tol=1e-7 * k)
    elif not any(sig[j] == '0' for j in range(n)):
        same(M.motor_rotor(), m, 'motor_rotor without null generators', tol=1e-12)
        same(M.motor_translator(), {0: 1.0}, 'motor_translator without null generators', tol=1e-12)
    same(M, m, 'input changed', tol=1e-15)
    if case['h']:
        # a batch of motors about one origin
        MB = c.multivector(subspace=M.subspace, values=np.stack([M.values, M.reverse().values]))
        with np.errstate(all='ignore'):
            t, rot = MB.motor_split(O)
        same((t * rot)[0], m, 'batch of motors', tol=1e-8 * k)
        same((t * rot)[1], r.rev(m), 'batch of motors', tol=1e-8 * k)
    moved = nonzero({e: abs(v) > 1e-6 for e, v in T.items() if e}) and nonzero({e: abs(v) > 1e-6 for e, v in R.items() if e})
    return labels + ([] if moved else ['trivial'])


# ---- anything else: rejected, or decomposed properly all the same
@st.composite
def other_case(draw, tier):
    n = draw(st.sampled_from([1, 2, 3, 3, 4, 4, 5, 6]))
    s = draw(st.text('+++-0', min_size=n, max_size=n))
    v = lambda k: gen.floats(k, 2.0)
    if draw(st.integers(0, 3)) == 0:
        bl = [b for b in range(2 ** n) if gen.grade(b) == 2]
        if len(bl) > 2:
            bl = draw(st.permutations(bl))[:draw(st.integers(2, len(bl)))]
        bl = sorted(bl) or [0]
        x = [bl, draw(v(len(bl)))]
    else:
        x = draw(gen.mv(n, cap=6, values=v))
    return dict(sig=s, x=x, o=draw(gen.mv(n, cap=3, values=v)), anti=draw(st.booleans()), w=draw(v(n)))


def run_other(case):
    c, r = ctx(case['sig']), ref(case['sig'])
    n = r.n
    d = {b: v for b, v in dct(case['x']).items()}
    if not d:
        return ['trivial']
    x = mk(c, [list(d), list(d.values())])
    biv = all(gen.grade(b) == 2 for b in d)
    even = all(gen.grade(b) % 2 == 0 for b in d)
    m = max(map(abs, d.values())) + 1
    labels = []

    def attempt(f):
        try:
            with np.errstate(all='ignore'):
                return f()
        except Exception:
            labels.append('rejected')

    # blades in the square of a general element of these blades
    sq = {k for a in d for b in d for k, v in r.add(r.gp({a: 1.0}, {b: 1.0}), r.gp({b: 1.0}, {a: 1.0})).items() if v}
    rest = sq - {0}
    study = not any(v for a in rest for b in rest for k, v in r.add(r.gp({a: 1.0}, {b: 1.0}), r.gp({b: 1.0}, {a: 1.0})).items() if k)
    if not (biv and study):
        y = attempt(x.decompose_invariant)
        if y is not None:
            l, q = (floats_of(k) for k in y)
            same(r.add(l, q), d, 'sum of the parts', tol=1e-6 * m)
            for k in (l, q):
                check(all(gen.grade(b) == 2 or abs(v) < 1e-9 for b, v in k.items()), 'a part is not a bivector')
                same({b: v for b, v in r.gp(k, k).items() if b}, {}, 'nonscalar part of the square of a part', tol=1e-6 * m, scale=1)
        y = attempt(x.decompose_polar)
        if y is not None:
            l, q = (floats_of(k) for k in y)
            check(all(gen.grade(b) == 2 or abs(v) < 1e-9 for b, v in l.items()), 'the line is not a bivector')
            same(r.gp(l, q), d, 'line times study number', tol=1e-6 * m)
    if case['anti']:
        o = {(2 ** n - 1) ^ (1 << i): v for i, v in enumerate(case['w'])}
    else:
        o = dct(case['o'])
    origin = all(gen.grade(b) == n - 1 for b in o)
    if o and not (even and origin):
        y = attempt(lambda: x.motor_split(mk(c, [list(o), list(o.values())])))
        if y is not None:
            t, q = (floats_of(k) for k in y)
            same(r.gp(t, q), d, 'translator times rotor', tol=1e-6 * m)
            same(r.sandwich(q, o), o, 'origin under the rotor', tol=1e-6 * m)
    if not even:
        y = attempt(lambda: (x.motor_translator(), x.motor_rotor()))
        if y is not None:
            t, q = (floats_of(k) for k in y)
            same(r.gp(t, q), d, 'translator times rotor', tol=1e-6 * m)
    return labels + ([] if labels else ['trivial'])


SUBS = [
    Sub('other', other_case, run_other, quick=400, thorough=10000, about='arguments outside the rules: rejected, or decomposed properly'),
    Sub('invariant', biv_case(2.0), run_invariant, quick=1000, thorough=40000, about='invariant decomposition'),
    Sub('polar', biv_case(2.0), run_polar, quick=600, thorough=20000, about='polar decomposition'),
    Sub('split', split_case, run_split, quick=1200, thorough=40000, about='motor_split, motor_translator, motor_rotor'),
]
