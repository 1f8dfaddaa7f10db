import math
import numpy as np
from hypothesis import strategies as st
from ..core import Sub
from .. import gen
from ..nv import *

ID = 'C09'
RULE = ('a history of subspace constructions and set operations in one algebra, each operation taking its operands from the results '
        'so far; a model keeps the set of blades of every result; non-trivial when at least one blade set was reached in two ways '
        'and one of them has both several blades and a proper subset in the pool')


class Model:
    """Sets of blades"""
    def __init__(self, sig):
        self.r = ref(sig)
        self.n = len(sig)
        self.full = frozenset(range(2 ** self.n))
        self.null = sum(1 << i for i, s in enumerate(sig) if s == '0')

    def grades(self, ks):
        ks = {k % (self.n + 1) for k in ks}
        return frozenset(b for b in self.full if gen.grade(b) in ks)

    def product(self, x, y, keep=None):
        out = set()
        for a in x:
            for b in y:
                c, s = self.r.mul(a, b)
                if s and (keep is None or keep(gen.grade(a), gen.grade(b), gen.grade(c))):
                    out.add(c)
        return frozenset(out)

    def squared(self, x):
        """blades in the square of a generic element: products of commuting pairs"""
        out = set()
        for a in x:
            for b in x:
                (c, s), (d, t) = self.r.mul(a, b), self.r.mul(b, a)
                if s + t:
                    out.add(c)
        return frozenset(out)

    def symmetric(self, x, sign):
        """blades in the product of a generic element with itself, the second with a sign on each blade"""
        out = set()
        for a in x:
            for b in x:
                (c, s), (d, t) = self.r.mul(a, b), self.r.mul(b, a)
                if s * sign(b) + t * sign(a):
                    out.add(c)
        return frozenset(out)

    def simple(self, x, k):
        """can k products of an element with itself, under some involution each, leave a scalar"""
        if k == 0:
            return x <= {0}
        g, top = gen.grade, 2 ** self.n - 1
        signs = [lambda b: 1, lambda b: (-1) ** (g(b) * (g(b) - 1) // 2), lambda b: (-1) ** g(b), lambda b: (-1) ** (g(b) * (g(b) + 1) // 2),
                 lambda b: 1 if b == 0 else -1, lambda b: 1 if b in (0, top) else -1]
        return any(self.simple(y, k - 1) for y in {self.symmetric(x, f) for f in signs})

    def wedge(self, x, y):
        return frozenset(a | b for a in x for b in y if not a & b)

    def inner(self, x, y):
        return self.product(x, y, lambda a, b, o: o == abs(a - b))

    def nondeg(self, x):
        return frozenset(b for b in x if not b & self.null)

    def reflection(self, k):
        s = frozenset([0])
        v = self.grades([1])
        for _ in range(k):
            s = self.product(s, v)
        return s

    def family(self, name):
        n = self.n
        anti = dict(pseudoscalar=-1, antiscalar=-1, antivector=-2, antibivector=-3, antitrivector=-4, antiquadvector=-5)
        pos = dict(scalar=0, vector=1, bivector=2, trivector=3, quadvector=4)
        if name in pos:
            return self.grades([pos[name]]) if pos[name] <= n else None
        if name in anti:
            return self.grades([anti[name]]) if -anti[name] <= n + 1 else None
        g = lambda f: frozenset(b for b in self.full if f(gen.grade(b)))
        if name == 'scalar_pseudoscalar': return g(lambda k: k in (0, n))
        if name == 'nonscalar': return g(lambda k: k > 0)
        if name in ('multivector', 'full'): return self.full
        if name == 'empty': return frozenset()
        if name in ('even_grade', 'motor', 'self_involute'): return g(lambda k: k % 2 == 0)
        if name == 'odd_grade': return g(lambda k: k % 2 == 1)
        if name == 'self_reverse': return g(lambda k: k % 4 in (0, 1))
        if name == 'mod4': return g(lambda k: k % 4 == 0)
        if name == 'degenerate': return self.full - self.nondeg(self.full)
        if name == 'nondegenerate': return self.nondeg(self.full)
        if name == 'scalar_degenerate': return (self.full - self.nondeg(self.full)) | {0}
        if name == 'rotor': return self.nondeg(g(lambda k: k % 2 == 0))
        small = n <= 6
        if name == 'translator':
            return (self.reflection(2) - self.nondeg(self.grades([2]))) if small and n >= 2 else None
        ks = dict(reflection=1, bireflection=2, trireflection=3, quadreflection=4)
        if name in ks:
            return self.reflection(ks[name]) if n <= 5 or (small and ks[name] <= 2) else None
        raise KeyError(name)


FAMILIES = ['scalar', 'vector', 'bivector', 'trivector', 'quadvector', 'pseudoscalar', 'antiscalar', 'antivector', 'antibivector',
            'antitrivector', 'antiquadvector', 'scalar_pseudoscalar', 'nonscalar', 'multivector', 'full', 'empty', 'even_grade',
            'motor', 'self_involute', 'odd_grade', 'self_reverse', 'mod4', 'degenerate', 'nondegenerate', 'scalar_degenerate',
            'rotor', 'translator', 'reflection', 'bireflection', 'trireflection', 'quadreflection']

OPS = ['blades', 'blades', 'sparse', 'sparse', 'grades', 'bits', 'names', 'family', 'family', 'union', 'union', 'intersection', 'difference', 'complement',
       'dual', 'degenerate', 'nondegenerate', 'scalar_degenerate', 'select', 'restrict', 'select_ns', 'restrict_ns', 'selgrades',
       'resgrades', 'slice', 'relative', 'product', 'wedge', 'inner', 'minimal', 'kvector', 'blade', 'again', 'again', 'basis']


@st.composite
def history(draw, tier):
    s = draw(gen.sig(1, 10, weights=[1, 2, 2, 3, 3, 3, 4, 4, 5, 6, 7, 9, 10]))
    k = draw(st.integers(5, 16 if tier == 'quick' else 40))
    i = st.integers(0, 60)
    ops = [[draw(st.sampled_from(OPS)), draw(i), draw(i), draw(st.lists(st.integers(0, 1023), min_size=1, max_size=6)),
            draw(st.sampled_from(FAMILIES))] for _ in range(k)]
    return dict(sig=s, ops=ops)


def run_history(case):
    sig, ops = case['sig'], case['ops']
    c = new_ctx(sig)        # fresh algebra: the history is part of the case
    A, F, m = c.algebra, c.algebra.subspace, Model(sig)
    n = m.n
    names = gen.NAMES[:n]
    seen, pool, reached = {}, [], {}

    def add(obj, want, how):
        if callable(how):
            how = how()
        want = frozenset(int(b) for b in want)
        got = [int(b) for b in obj.blades]
        check(got == gen.order_canonical(want), lambda: f'{how}: blades {got[:20]}, expected {gen.order_canonical(want)[:20]}')
        if want in seen:
            check(seen[want] is obj, f'{how}: a second object for blades {got[:20]}')
            reached.setdefault(want, set()).add(how.split(' ')[0])
        else:
            seen[want] = obj
            reached[want] = {how.split(' ')[0]}
            pool.append(want)
        return obj

    add(F.scalar(), {0}, 'scalar')
    nontrivial = False
    for op, i, j, xs, fam in ops:
        a, b = pool[i % len(pool)], pool[j % len(pool)]
        sa, sb = seen[a], seen[b]
        bl = list(dict.fromkeys(x % 2 ** n for x in xs))
        small = n <= 6 and len(a) * len(b) <= 700
        famset = m.family(fam)
        if op == 'blades':
            add(F.from_blades(bl), bl, 'from_blades')
            add(F.from_blades(bl[::-1]), bl, 'from_blades reversed')
            arr_ = np.array(bl, dtype=np.int64)
            add(F.from_blades(arr_), bl, 'from_blades array')
            arr_[:] = 0
        elif op == 'sparse':    # few blades of a small range
            bl = [x & 3 for x in bl]
            bl = list(dict.fromkeys(x % 2 ** n for x in bl))
            add(F.from_blades(tuple(bl)), bl, 'from_blades tuple')
        elif op == 'grades':
            ks = list(dict.fromkeys(x % (n + 1) for x in xs))
            add(F.from_grades(ks), m.grades(ks), 'from_grades')
        elif op == 'bits':
            add(F.from_bit_str(','.join(''.join(str(x >> k & 1) for k in range(n)) for x in bl)), bl, 'from_bit_str')
            if a:
                add(F.from_bit_str(sa.bit_str), a, 'bit_str round trip')
        elif op == 'names':
            bl = [x for x in bl if x] or [1]
            if bl:
                tok = '_'.join((lambda w: ''.join(w[::-1] if i % 2 else w[i % len(w):] + w[:i % len(w)]))([names[k] for k in range(n) if x >> k & 1]) for x in bl)
                if not hasattr(type(F), tok):
                    add(getattr(F, tok), bl, 'axis names')
        elif op == 'family':
            if famset is not None:
                add(getattr(F, fam)(), famset, fam)
        elif op == 'kvector':
            k = i % (n + 1)
            add(F.k_vector(k), m.grades([k]), 'k_vector')
            add(F.k_vector(k - n - 1), m.grades([k]), 'k_vector negative')
        elif op == 'blade':
            add(F.blade(bl[0]), {bl[0]}, 'blade')
        elif op == 'basis':
            basis = F.basis()
            check(len(basis) == n, 'basis')
            for k, e in enumerate(basis):
                add(e, {1 << k}, 'basis element')
        elif op == 'again':     # another way of naming something known
            w = sorted(a)
            add(F.from_blades(w[j % max(1, len(w)):] + w[:j % max(1, len(w))]), a, 'rotated blade list')
            k = sorted({gen.grade(x) for x in a})
            if k:
                add(F.from_grades(k), m.grades(k), 'from_grades of own grades')
        elif op in ('union', 'intersection', 'difference'):
            want = dict(union=a | b, intersection=a & b, difference=a - b)[op]
            add(getattr(sa, op)(sb), want, op)
        elif op in ('complement', 'dual'):
            r_ = add(getattr(sa, op)(), {(2 ** n - 1) ^ x for x in a}, op)
            check(r_.complement() is sa, 'complement of the complement')
        elif op == 'degenerate':
            add(sa.degenerate(), a - m.nondeg(a), op)
        elif op == 'nondegenerate':
            add(sa.nondegenerate(), m.nondeg(a), op)
        elif op == 'scalar_degenerate':
            add(sa.scalar_degenerate(), (a - m.nondeg(a)) | {0}, op)
        elif op == 'select':
            check(sa.select_subspace(sb) is sb, 'select_subspace gives the selected subspace')
            check(sa.select(sb) is sb, 'select(...) gives the selected subspace')
        elif op == 'restrict':
            add(sa.restrict_subspace(sb), a & b, op)
            add(sa.restrict(sb), a & b, 'restrict(...)')
        elif op == 'select_ns' and famset is not None:
            add(getattr(sa.select, fam)(), famset, f'select.{fam}')
        elif op == 'restrict_ns' and famset is not None:
            add(getattr(sa.restrict, fam)(), a & famset, f'restrict.{fam}')
        elif op in ('selgrades', 'resgrades'):
            ks = list(dict.fromkeys(x % (n + 1) for x in xs))[:3]
            ns = sa.select if op == 'selgrades' else sa.restrict
            f = (lambda x: x) if op == 'selgrades' else (lambda x: x & a)
            add(ns[tuple(ks)], f(m.grades(ks)), f'{op} [tuple]')
            add(ns[ks[0]], f(m.grades(ks[:1])), f'{op} [int]')
            add(ns[ks], f(m.grades(ks)), f'{op} [list]')
        elif op == 'slice' and len(a):
            o = gen.order_canonical(a)
            ix = list(dict.fromkeys(x % len(o) for x in xs))
            add(sa.slice_subspace(ix), {o[k] for k in ix}, 'slice_subspace')
        elif op == 'relative' and len(a):
            o = gen.order_canonical(a)
            ix = [x % len(o) for x in xs]
            got = sa.to_relative_indices(np.array([o[k] for k in ix], dtype=sa.blades.dtype))
            check([int(x) for x in got] == ix, lambda: f'to_relative_indices: {got}, expected {ix}')
            sub = [x for x in o if x in b]
            if sub:
                got = sa.to_relative_indices(sa.intersection(sb).blades)
                check([o[int(x)] for x in got] == sub, 'to_relative_indices of the intersection')
        elif op == 'product' and small:
            add(sa.product(sb), m.product(a, b), op)
        elif op == 'wedge' and small:
            add(sa.wedge(sb), m.wedge(a, b), op)
            add(sa.reject(sb), m.inner(m.wedge(a, b), b), 'reject')
        elif op == 'inner' and small:
            add(sa.inner(sb), m.inner(a, b), op)
        elif op == 'minimal' and n <= 4:
            s_ = a
            while True:
                t = s_ | m.product(s_, s_)
                if t == s_:
                    break
                s_ = t
            mini = add(sa.minimal_subalgebra, s_, 'minimal_subalgebra')
            check(mini.is_subalgebra, 'the minimal subalgebra is a subalgebra')
            e_ = a | {0}
            while True:
                t = e_ | m.squared(e_)
                if t == e_:
                    break
                e_ = t
            add(sa.minimal_exponential, e_, 'minimal_exponential')
            add(sa.squared(), m.squared(a), 'squared')
            check(sa.is_subalgebra == (m.product(a, a) <= a), 'is_subalgebra')
            lim = n // 2 + 2
            want_ = next((k for k in range(lim) if m.simple(a, k)), None)
            check(sa.simplicity == want_, lambda: f'simplicity of {sorted(a)}: {sa.simplicity}, expected {want_}')
            check(bool(sa.is_study) == m.simple(m.symmetric(a, lambda b: -1 if b == 0 else 1), 0), 'is_study')
        # relations between the operands
        check((sa in sb) == (a <= b), lambda: f'containment of {sorted(a)[:20]} in {sorted(b)[:20]}')
        check(bool(sa.is_subspace(sb)) == (a <= b), 'is_subspace')
        check(sa.inside(sb) == (a <= b), 'inside(...)')
        check(sa.equals(sb) == (a == b) and (sa == sb) == (a == b), 'equals(...)')
        check(sa.inside(sa) and sa in sa, 'contained in itself')
        if famset is not None:
            check(getattr(sa.inside, fam)() == (a <= famset), f'inside.{fam}')
            check(getattr(sa.equals, fam)() == (a == famset), f'equals.{fam}')
        x = bl[0]
        tok = ''.join(names[k] for k in range(n) if x >> k & 1)
        if tok and not hasattr(type(F), tok):
            check(getattr(sa.inside, tok) == (a <= {x}), 'inside.<axis names>')
            check(getattr(sa.equals, tok) == (a == {x}), 'equals.<axis names>')
            check(getattr(sa.select, tok) is F.blade(x), 'select.<axis names>')
            add(getattr(sa.restrict, tok), a & {x}, 'restrict.<axis names>')
        # properties
        check(len(sa) == len(a), 'len')
        gr = {gen.grade(x) for x in a}
        check([int(g) for g in sa.grades()] == [gen.grade(x) for x in gen.order_canonical(a)], 'grades()')
        if len(gr) == 1:
            check(int(sa.grade()) == min(gr), 'grade()')
        check(sa.is_blade == (len(a) == 1), 'is_blade')
        check(sa.is_degenerate == (a == a - m.nondeg(a)), 'is_degenerate')
        check(sa.is_degenerate_scalar == (a == (a - m.nondeg(a)) | {0}), 'is_degenerate_scalar')
        check(sa.in_even == (a <= m.family('even_grade')), 'in_even')
        check(sa.in_odd == (a <= m.family('odd_grade')), 'in_odd')
        check(sa.is_even == (a == m.family('even_grade')), 'is_even')
        check(sa.is_odd == (a == m.family('odd_grade')), 'is_odd')
        check(sa.is_empty == (not a), 'is_empty')
        check(sa.in_self_reverse == (a <= m.family('self_reverse')), 'in_self_reverse')
        nontrivial |= len(a) > 1 and any(len(v) > 1 for v in reached.values())
    for want, obj in seen.items():
        check([int(x) for x in obj.blades] == gen.order_canonical(want), 'a subspace changed during the history')
        check(F.from_blades(sorted(want, reverse=True)) is obj, 'a second object for known blades')
        if want:
            try:
                obj.blades[0] = 1
            except ValueError:
                pass
            else:
                check(False, 'the blades of a subspace can be overwritten')
    return [f'd{n}'] + ([] if nontrivial else ['trivial'])


SUBS = [
    Sub('history', history, run_history, quick=1600, thorough=30000,
        about='histories of constructions and set operations against a model over sets of blades'),
    Sub('history_wide', lambda t: gen.high(history(t), 10, 14), run_history, quick=24, thorough=300, about='histories, d 10 to 14'),
]
