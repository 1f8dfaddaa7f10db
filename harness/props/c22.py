import numpy as np
from hypothesis import strategies as st
from ..core import Sub
from .. import gen
from ..nv import *

ID = 'C22'
RULE = ('parse: generated descriptions (distinct names of one to four characters), signatures and (p, q, r) triples; names: generated '
        'concatenations of generator names in any order, and other strings; product: pairs and triples of algebras with disjoint names; '
        'non-trivial when the signature has two or more generators (parse), when the name has two or more generators, and when both '
        'factors contribute to the products')

ALPHABET = 'abcdexyzuvEFP123459_' + 'éΩ'


def prefix_free(names):
    return all(not b.startswith(a) for i, a in enumerate(names) for j, b in enumerate(names) if i != j)


@st.composite
def names(draw, n, free=False):
    kind = draw(st.sampled_from(['letters', 'numbered', 'any', 'any']))
    if kind == 'letters':
        return list(draw(st.permutations(gen.NAMES[:max(n, 8)])))[:n]
    if kind == 'numbered':
        c = draw(st.sampled_from('exγ'))
        k = draw(st.permutations('123456789ab'))
        return [c + i for i in k][:n]
    out = []
    for i in range(60):
        w = draw(st.text(alphabet=ALPHABET, min_size=1, max_size=4))
        if w not in out and (not free or prefix_free(out + [w])):
            out.append(w)
        if len(out) == n:
            return out
    return [f'q{c}' for c in gen.NAMES][:n]


@st.composite
def parse_case(draw, tier):
    how = draw(st.sampled_from(['str', 'str', 'algebra_str', 'pqr', 'tuple', 'signature', 'context', 'big']))
    if how in ('pqr', 'tuple', 'big'):
        if how == 'big':
            p = [draw(st.integers(0, 12)) for _ in range(3)]
        else:
            p = draw(st.sampled_from([[1, 0, 0], [0, 1, 0], [0, 0, 1]])) if draw(st.booleans()) else [draw(st.integers(0, 3)) for _ in range(3)]
        if sum(p) == 0:
            p = [1, 0, 0]
        while sum(p) > 32:
            p[p.index(max(p))] -= 1
        return dict(how=how, pqr=p)
    n = draw(st.sampled_from([1, 2, 3, 3, 4, 4, 5, 6, 8, 10]))
    s = draw(st.lists(st.sampled_from('+-0'), min_size=n, max_size=n).map(''.join))
    return dict(how=how, sig=s, names=draw(names(n)))


def check_algebra(a, names_, sig, blades=True):
    d = a.description
    n = len(sig)
    m = gen.metric(sig)
    check(tuple(d.basis_names) == tuple(names_), lambda: f'names {d.basis_names}, expected {tuple(names_)}')
    check(tuple(d.signature) == tuple(m), lambda: f'signature {d.signature}, expected {tuple(m)}')
    text = ''.join(x + y for x, y in zip(names_, sig))
    check(d.description_str == text, lambda: f'printed description {d.description_str!r}, expected {text!r}')
    check(d.signature_str == sig, 'signature_str')
    pqr = tuple(sig.count(c) for c in '+-0')
    check(tuple(d.pqr) == pqr and d.pqr_str == '%d%d%d' % pqr, lambda: f'pqr {d.pqr}')
    for o in (a, d):
        check((o.n_dimensions, o.n_blades, o.n_grades) == (n, 2 ** n, n + 1), 'counts')
    check(len(a) == 2 ** n, 'len')
    for k, c in (('positives', '+'), ('negatives', '-'), ('zeros', '0')):
        check(list(getattr(d, k)) == [int(s == c) for s in sig], lambda: f'{k} of the description: {getattr(d, k)}')
        check(int(getattr(a, k)) == sum(1 << i for i, s in enumerate(sig) if s == c), lambda: f'{k} mask')
    check(list(d.all) == [1] * n, 'all')
    if not blades:
        return
    r = ref(sig)
    full = 2 ** n - 1
    check(a.pseudo_scalar_squared == r.mul(full, full)[1], lambda: f'square of the pseudoscalar {a.pseudo_scalar_squared}')
    check([blist(b) for b in a.subspace.basis()] == [[1 << i] for i in range(n)], 'basis')
    sq = [a.operator.squared(b) for b in a.subspace.basis()]
    from numga.backend.numpy.context import NumpyContext
    c = NumpyContext(a)
    check(c.algebra is a, 'algebra of the context')
    for i, (b, s) in enumerate(zip(c.multivector.basis(), m)):
        same(b * b, {0: s}, f'square of generator {i}')


def run_parse(case):
    from numga.algebra.algebra import Algebra
    from numga.algebra.description import AlgebraDescription
    from numga.backend.numpy.context import NumpyContext
    how = case['how']
    if how in ('pqr', 'tuple', 'big'):
        p = case['pqr']
        sig = '+' * p[0] + '-' * p[1] + '0' * p[2]
        a = {'pqr': lambda: Algebra.from_pqr(*p), 'tuple': lambda: Algebra(tuple(p)), 'big': lambda: Algebra(tuple(p))}[how]()
        nm = a.description.basis_names
        check(len(set(nm)) == len(nm) and all(nm), 'generator names are not distinct')
    else:
        sig, nm = case['sig'], case['names']
        text = ''.join(x + y for x, y in zip(nm, sig))
        a = {'str': lambda: Algebra(text), 'algebra_str': lambda: Algebra.from_str(text), 'context': lambda: NumpyContext(text).algebra,
             'signature': lambda: Algebra(AlgebraDescription.from_signature(sig))}[how]()
        if how == 'signature':
            nm = a.description.basis_names
            check(len(set(nm)) == len(nm) and all(nm), 'generator names are not distinct')
    check_algebra(a, nm, sig, len(sig) <= 8)
    # again from what is printed
    for b in (Algebra(a.description.description_str), Algebra(AlgebraDescription.from_str(a.description.description_str)),
              Algebra(AlgebraDescription(nm, gen.metric(sig)))):
        check_algebra(b, nm, sig, False)
    b = AlgebraDescription.from_signature(a.description.signature_str)
    check(tuple(b.signature) == tuple(gen.metric(sig)) and len(b.basis_names) == len(sig), 'from the printed signature')
    b = Algebra(a.description)
    check_algebra(b, nm, sig, len(sig) <= 4)
    return [how] + ([] if len(sig) > 1 else ['trivial'])


@st.composite
def name_case(draw, tier):
    n = draw(st.sampled_from([1, 2, 3, 3, 4, 5]))
    s = draw(st.lists(st.sampled_from('+-0'), min_size=n, max_size=n).map(''.join))
    nm = draw(names(n, free=True))
    idx = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=6))
    if draw(st.booleans()):
        idx = list(dict.fromkeys(idx))
    return dict(sig=s, names=nm, idx=idx, bad=draw(st.sampled_from([None, 'tail', 'head', 'other'])), text=draw(st.text(alphabet=ALPHABET, min_size=1, max_size=3)))


def parses(s, nm):
    """Whether the text is a concatenation of names"""
    ok = {0}
    for i in range(len(s)):
        if i in ok:
            ok |= {i + len(w) for w in nm if s.startswith(w, i)}
    return len(s) in ok


def run_name(case):
    sig, nm = case['sig'], case['names']
    c, r = ctx(sig, names=nm), ref(sig)
    text = ''.join(nm[i] for i in case['idx'])
    bad = case['bad']
    if bad:
        w = case['text']
        text = {'tail': text + w, 'head': w + text, 'other': w}[bad]
        if parses(text, nm):
            return ['trivial']
        if hasattr(type(c.multivector), text) or text in vars(c.multivector):
            return ['trivial']
        for f in (lambda: getattr(c.multivector, text), lambda: c.algebra.description.parse_tokens(text)):
            try:
                got = f()
            except Exception:
                continue
            check(False, lambda: f'{text!r} is not a blade of {nm}, but gives {got!r}')
        return ['unknown']
    check(tuple(c.algebra.description.parse_tokens(text)) == tuple(case['idx']), lambda: f'tokens of {text!r}: {c.algebra.description.parse_tokens(text)}')
    if hasattr(type(c.multivector), text) or text in vars(c.multivector):
        return ['trivial']
    want = {0: 1}
    for i in case['idx']:
        want = r.wedge(want, {1 << i: 1})
    got = getattr(c.multivector, text)
    same(got, want, f'blade {text!r}')
    check(got.context is c, 'context of a named blade')
    if nonzero(want):
        check(len(got.subspace) == 1, 'a named blade has one component')
        # generators in the other order
        back = getattr(c.multivector, ''.join(nm[i] for i in reversed(case['idx'])))
        same(back, r.rev(want), f'reversed blade of {text!r}')
    return [f'{len(case["idx"])}'] + ([] if len(case['idx']) > 1 else ['trivial'])


@st.composite
def product_case(draw, tier):
    k = draw(st.sampled_from([2, 2, 2, 3]))
    sizes = [draw(st.integers(1, 3 if k == 2 else 2)) for _ in range(k)]
    sigs = [draw(st.lists(st.sampled_from('+-0'), min_size=n, max_size=n).map(''.join)) for n in sizes]
    nm = draw(names(sum(sizes)))
    return dict(sigs=sigs, names=nm, overlap=draw(st.integers(0, 9)), xs=[[draw(gen.mv(n, cap=5)) for _ in range(2)] for n in sizes],
                use=draw(st.booleans()))


def run_product(case):
    from numga.algebra.algebra import Algebra
    from numga.backend.numpy.context import NumpyContext
    sigs = case['sigs']
    off = [sum(len(s) for s in sigs[:i]) for i in range(len(sigs) + 1)]
    parts = [case['names'][off[i]:off[i + 1]] for i in range(len(sigs))]
    A = [Algebra(gen.desc(s, p)) for s, p in zip(sigs, parts)]
    if case['use']:
        for a in A:
            a.operator.geometric_product(a.subspace.full(), a.subspace.full())
    P = A[0]
    for a in A[1:]:
        P = P * a
    sig = ''.join(sigs)
    check_algebra(P, case['names'], sig)
    if len(A) == 3:
        check_algebra(A[0] * (A[1] * A[2]), case['names'], sig, False)
    for a, s, p in zip(A, sigs, parts):
        check_algebra(a, p, s)
    D = A[0].description * A[1].description
    check(D.description_str == gen.desc(sigs[0] + sigs[1], case['names']), 'product of descriptions')
    c = NumpyContext(P)
    cs = [NumpyContext(a) for a in A]
    emb = lambda m, i: [[b << off[i] for b in m[0]], m[1]]
    nz = 0
    vals = []
    for i, (x, y) in enumerate(case['xs']):
        inner = todict(mk(cs[i], x) * mk(cs[i], y))
        outer = mk(c, emb(x, i)) * mk(c, emb(y, i))
        same(outer, {b << off[i]: v for b, v in inner.items()}, f'product within factor {i}')
        for name in ('wedge', 'inner', 'commutator_product'):
            inner = todict(getattr(cs[i].operator, name)(mk(cs[i], x).subspace, mk(cs[i], y).subspace)(mk(cs[i], x), mk(cs[i], y)))
            X, Y = mk(c, emb(x, i)), mk(c, emb(y, i))
            same(getattr(c.operator, name)(X.subspace, Y.subspace)(X, Y), {b << off[i]: v for b, v in inner.items()}, f'{name} within factor {i}')
        nz += nonzero(inner)
        vals.append(dct(emb(x, i)))
    # elements of different factors commute up to the sign of their grades
    for i in range(len(A)):
        for j in range(i):
            x, y = vals[j], vals[i]
            xy = todict(mk(c, [list(x), list(x.values())]) * mk(c, [list(y), list(y.values())]))
            yx = todict(mk(c, [list(y), list(y.values())]) * mk(c, [list(x), list(x.values())]))
            want = {}
            for a, v in x.items():
                for b, w in y.items():
                    want[a | b] = want.get(a | b, 0) + v * w
            same(xy, want, 'product of elements of two factors')
            want = {}
            for a, v in x.items():
                for b, w in y.items():
                    want[a | b] = want.get(a | b, 0) + v * w * (-1) ** (gen.grade(a) * gen.grade(b))
            same(yx, want, 'product of elements of two factors, swapped')
            nz += nonzero(want)
    basis = c.multivector.basis()
    for i in range(len(sig)):
        for j in range(i):
            same(basis[i] * basis[j] + basis[j] * basis[i], {}, 'generators anticommute')
    # algebras that share a name have no product
    q = case['overlap'] % len(parts[0])
    other = Algebra(gen.desc(sigs[1] + '+', list(parts[1]) + [parts[0][q]]))
    try:
        bad = A[0] * other
    except Exception:
        return [f'factors{len(A)}'] + ([] if nz > 1 else ['trivial'])
    check(False, lambda: f'algebras sharing {parts[0][q]!r} were multiplied: {bad.description.description_str}')


SUBS = [
    Sub('parse', parse_case, run_parse, quick=900, thorough=20000, about='descriptions and triples'),
    Sub('names', name_case, run_name, quick=900, thorough=20000, about='blade names'),
    Sub('product', product_case, run_product, quick=300, thorough=8000, about='products of algebras'),
]
