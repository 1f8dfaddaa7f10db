import re
import numpy as np
from hypothesis import strategies as st
from ..core import Sub
from .. import gen
from ..nv import *
from .c06 import UNARY, BIN, UNAMES, BNAMES
from .c09 import Model
from .c22 import names as gen_names

ID = 'C23'
RULE = ('tables: generated unary and binary operators on generated subspaces, also sliced, negated, swapped and selected, whose '
        'printed table is decoded and compared cell by cell with the reference product; labels: generated subspaces in algebras '
        'with generated names; non-trivial when the table has a nonempty cell or the subspace at least two blades')


def bits(s):
    check(re.fullmatch('[01]*', s), lambda: f'{s!r} is not a bit string')
    return int(s[::-1] or '0', 2)


def decode(text, arity):
    """Table as {(input blades): (sign, blade)}"""
    rows = [[x for x in re.split('[║│]', l)][1:-1] for l in text.split('\n') if '║' in l]
    check(len({len(l) for l in text.split('\n')}) == 1, 'lines of different length')
    check(rows and len({len(x) for x in rows}) == 1, 'ragged table')
    head, body = rows[0], rows[1:]
    cols = [bits(x.strip()) for x in head[1:]]
    out = {}
    if arity == 1:
        check(len(body) == 1, 'a table of a unary operator has one line')
        body = [[''] + body[0][1:]]
        lines = [None]
    else:
        lines = [bits(x[0].strip()) for x in body]
    for l, row in zip(lines, body):
        for k, x in zip(cols, row[1:]):
            x = x.strip()
            if x:
                check(x[0] in '+-', lambda: f'cell {x!r}')
                out[(k,) if arity == 1 else (l, k)] = (1 if x[0] == '+' else -1, bits(x[1:]))
    return head[0].strip(), lines, cols, out


@st.composite
def table_case(draw, tier):
    s = draw(gen.sig(1, 8, weights=[1, 2, 2, 3, 3, 4, 5] if draw(st.integers(0, 5)) else [6, 7, 8]))
    n = len(s)
    arity = draw(st.sampled_from([1, 2, 2]))
    name = draw(st.sampled_from(UNAMES if arity == 1 else BNAMES))
    if n == 1 and name == 'bivector_product':
        name = 'geometric_product'
    cap = 32 if n < 5 else 16 if n < 6 else 6
    kinds = None if n < 6 else ['few', 'single', 'few']
    mods = draw(st.lists(st.tuples(st.sampled_from(['neg', 'swap', 'slice', 'select', 'squeeze', 'grade']), st.integers(0, 2 ** 32 - 1)).map(list), max_size=3))
    return dict(sig=s, arity=arity, name=name, ins=[draw(gen.blades(n, cap=cap, kinds=kinds)) for _ in range(arity)], mods=mods,
                sel=draw(gen.blades(n)))


def run_table(case):
    c, r = ctx(case['sig']), ref(case['sig'])
    ins = [list(i) for i in case['ins']]
    f = (UNARY if case['arity'] == 1 else BIN)[case['name']]
    op = getattr(c.algebra.operator, case['name'])(*(space(c, i) for i in ins))
    fn = lambda *xs: f(r, *xs)
    for m, k in case['mods']:
        g = fn
        if m == 'neg':
            op, fn = -op, lambda *xs, g=g: r.scale(g(*xs), -1)
        elif m == 'swap' and len(ins) == 2:
            op, fn, ins = op.swapaxes(0, 1), lambda x, y, g=g: g(y, x), ins[::-1]
        elif m == 'slice':
            ins = [[b for j, b in enumerate(i) if k >> (j + 16 * a) & 1] for a, i in enumerate(ins)]
            op = op.slice(tuple(space(c, i) for i in ins))
        elif m == 'select':
            op = op.select_subspace(space(c, case['sel']))
            fn = lambda *xs, g=g: {b: v for b, v in g(*xs).items() if b in case['sel']}
        elif m == 'grade':
            q = k % (r.n + 1)
            op = op.select_grade(q)
            fn = lambda *xs, g=g, q=q: {b: v for b, v in g(*xs).items() if gen.grade(b) == q}
        elif m == 'squeeze':
            op = op.squeeze()
    want = {}
    if case['arity'] == 1:
        keys = [(a,) for a in ins[0]]
    else:
        keys = [(a, b) for a in ins[0] for b in ins[1]]
    for key in keys:
        d = {b: v for b, v in fn(*({a: 1} for a in key)).items() if v}
        if len(d) > 1 or any(v not in (1, -1) for v in d.values()):
            return ['not signed blades', 'trivial']
        for b, v in d.items():
            want[key] = (v, b)
    text = str(op)
    check(isinstance(text, str), 'not a string')
    sig, lines, cols, got = decode(text, case['arity'])
    check(sig == case['sig'], lambda: f'signature {sig}')
    can = [gen.order_canonical(i) for i in ins]
    check(cols == can[-1], lambda: f'columns {cols}, expected {can[-1]}')
    check(case['arity'] == 1 or lines == can[0], lambda: f'lines {lines}, expected {can[0]}')
    for key in keys:
        check(got.get(key) == want.get(key),
              lambda: f"{case['name']}: cell of {' and '.join(format(k, 'b')[::-1] for k in key)} reads {got.get(key)}, the operator gives {want.get(key)}")
    check(str(op) == text, 'printing twice')
    # other entries are refused, rather than misprinted
    if want:
        try:
            bad = str(op * 2)
        except Exception:
            bad = None
        if bad is not None:
            sig, lines, cols, got2 = decode(bad, case['arity'])
            check(not got2, 'a table of entries 2 was printed as signed blades')
    return [f"arity{case['arity']}"] + ([] if want else ['trivial'])


@st.composite
def label_case(draw, tier):
    n = draw(st.sampled_from([1, 2, 3, 3, 4, 4, 5, 6, 8, 10]))
    s = draw(st.lists(st.sampled_from('++-0'), min_size=n, max_size=n).map(''.join))
    kinds = None if n <= 6 else ['few', 'few', 'grade', 'subset']
    return dict(sig=s, names=draw(gen_names(n)), b=draw(gen.blades(n, kinds=kinds)),
                near=draw(st.sampled_from([None, None, 'bivector', 'even_grade', 'odd_grade', 'self_reverse', 'scalar_pseudoscalar', 'nonscalar',
                                           'vector', 'antivector', 'trivector', 'bireflection', 'trireflection', 'antibivector'])),
                drop=draw(st.one_of(st.none(), st.integers(0, 1000))))


def run_label(case):
    sig, nm = case['sig'], case['names']
    n = len(sig)
    m = Model(sig)
    c = ctx(sig, names=nm)
    b = case['b']
    if case['near'] and n <= 5:
        f = m.family(case['near'])
        if f:
            b = sorted(f)
            if case['drop'] is not None:
                b = [x for i, x in enumerate(b) if i != case['drop'] % len(b)]
    can = gen.order_canonical(b)
    s = space(c, b)
    want = ','.join(format(x, f'0{n}b')[::-1] for x in can)
    check(s.bit_str == want, lambda: f'bit_str {s.bit_str!r}, expected {want!r}')
    if b:
        check(c.subspace.from_bit_str(s.bit_str) is s, 'from_bit_str(bit_str)')
        bb = np.asarray(s.bit_blades())
        check(bb.T.tolist() == [[x >> i & 1 for i in range(n)] for x in can] or bb.tolist() == [[x >> i & 1 for i in range(n)] for x in can], 'bit_blades')
    want = ','.join(''.join(nm[i] for i in range(n) if x >> i & 1) or '1' for x in can)
    check(s.named_str == want, lambda: f'named_str {s.named_str!r}, expected {want!r}')
    if n > 5:
        return ['large'] + ([] if len(b) > 1 else ['trivial'])
    label = s.pretty_str
    if label is not None:
        kind, _, fam = label.partition('_')
        check(kind in ('is', 'in'), lambda: f'label {label!r}')
        f = m.family(fam)
        check(f is not None, lambda: f'label {label!r} names a family that does not exist here')
        if kind == 'is':
            check(set(b) == f, lambda: f'label {label!r} on blades {can}, which is not the whole of {sorted(f)}')
        else:
            check(set(b) <= f, lambda: f'label {label!r} on blades {can}, not within {sorted(f)}')
    else:
        check(False, 'no label, but every subspace lies in the full one')
    check(want in repr(s) and label in repr(s), lambda: f'repr {s!r}')
    x = c.multivector(subspace=s, values=np.arange(len(b)) + 1)
    t = repr(x)
    check(want in t and label in t and str(x.values) in t, lambda: f'repr of a multivector: {t!r}')
    return [label.split('_')[0]] + ([] if len(b) > 1 else ['trivial'])


SUBS = [
    Sub('tables', table_case, run_table, quick=1500, thorough=40000, about='printed operator tables'),
    Sub('tables_high', lambda t: gen.high(table_case(t), 9, 11), run_table, quick=100, thorough=3000, about='printed operator tables, d 9 to 11'),
    Sub('labels', label_case, run_label, quick=1500, thorough=40000, about='bit, named and readable labels'),
]
