import numpy as np
from hypothesis import strategies as st
from ..core import Sub
from .. import gen
from ..nv import *
from numga.operator.operator import Operator
from .c02 import DEF as BINARY
from .c04 import DEF as ANTI
from .c03 import SIGNS, DUALS

ID = 'C06'
RULE = ('a generated tree of combinators (constructors fed with operators, fuse, bind by position or by slot, swapaxes, scale, '
        'divide, negate, add, subtract, add_broadcast, select, select grade, grade selection, squeeze, slice, deslice, sum over an '
        'argument) over generated leaf operators, evaluated on integer multivectors and compared with the same tree of '
        'functions on reference multivectors; non-trivial when the value is nonzero')

UNARY = {k: (lambda r, x, f=f: getattr(r, f)(x)) for k, f in {**SIGNS, **DUALS}.items() if k != 'study_conjugate'}
BIN = {k: v for k, v in {**BINARY, **ANTI}.items() if k not in ('study_conjugate_product',)}
CONSTRUCT = {**{k: 1 for k in UNARY}, **{k: 2 for k in BIN}}
UNAMES, BNAMES = sorted(UNARY), sorted(BIN)
DENSE = ['subset', 'grade', 'even', 'odd', 'full', 'few', 'grades'] * 3 + ['single', 'empty']
SIMPLE = ['geometric_product', 'wedge_product', 'inner_product', 'commutator_product', 'regressive_product',
          'right_contraction_product', 'anti_geometric_product']
FORMULA = {
    'even': lambda *g: (sum(g)) % 2 == 0,
    'out>=first': lambda *g: g[-1] >= g[0],
    'last!=1': lambda *g: g[-1] != 1,
    'sum': lambda *g: sum(g[:-1]) == g[-1],
    'first<=1': lambda *g: (g[0] <= 1) + 0 * g[-1] > 0,
}


class Node:
    """An operator, next to the function it should denote"""
    def __init__(self, op, f, ins):
        self.op, self.f, self.ins = op, f, [list(i) for i in ins]
        check(op.arity == len(ins), 'arity')
        check([set(blist(s)) for s in op.inputs] == [set(i) for i in ins], 'input subspaces')

    @property
    def out(self):
        return blist(self.op.output)


def keep(x, bl):
    s = set(bl)
    return {b: v for b, v in x.items() if b in s}


def build(t, c, r):
    F, kind = c.algebra.operator, t[0]
    if kind == 'make':       # constructor applied to subspaces and operators
        name, args = t[1], [a if a[0] == 'space' else build(a, c, r) for a in t[2]]
        raw = [space(c, a[1]) if isinstance(a, list) else a.op for a in args]
        op = getattr(F, name)(*raw)
        g = (UNARY if len(args) == 1 else BIN)[name]
        ins, spans = [], []
        for a in args:
            k = [a[1]] if isinstance(a, list) else a.ins
            spans.append((len(ins), len(ins) + len(k)))
            ins += k

        def f(*xs):
            vals = [xs[i] if isinstance(a, list) else a.f(*xs[i:j]) for a, (i, j) in zip(args, spans)]
            return g(r, *vals)
        return Node(op, f, ins)
    if kind == 'raw':       # an operator given by its entries
        ins, o, fill = t[1], t[2], t[3]
        axes = [gen.order_canonical(i) for i in ins + [o]]
        shape = tuple(len(a) for a in axes)
        k = np.array([fill[i % len(fill)] for i in range(int(np.prod(shape)))], dtype=int).reshape(shape)
        if t[4]:
            k = k * np.eye(*shape[-2:], dtype=int)
        op = Operator.build(k, tuple(space(c, a) for a in axes)) if t[5] else Operator(k, tuple(space(c, a) for a in axes))

        def f(*xs):
            out = {}
            for idx in np.argwhere(k):
                v = int(k[tuple(idx)])
                for x, a, i in zip(xs, axes, idx):
                    v = v * x.get(a[i], 0)
                    if not v:
                        break
                if v:
                    out[axes[-1][idx[-1]]] = out.get(axes[-1][idx[-1]], 0) + v
            return out
        return Node(op, f, ins)
    a = build(t[1], c, r)
    if kind == 'fuse' or kind == 'bind':
        # t[2]: {slot: tree}; child outputs are brought to the subspace of the slot
        slots = {}
        for k, sub in sorted(t[2].items()):
            i = int(k) % len(a.ins)
            if i not in slots:
                if sub[0] == 'diag':
                    al = gen.order_canonical(a.ins[i])
                    sub = ['raw', [al], al, [sub[1][k % len(sub[1])] for k in range(len(al)) for _ in range(len(al))], True, False]
                ch = build(sub, c, r)
                target = space(c, a.ins[i])
                ch2 = ch.op.select_subspace(target)
                slots[i] = Node(ch2, lambda *xs, ch=ch, i=i: keep(ch.f(*xs), a.ins[i]), ch.ins)
        ops = {i: n.op for i, n in slots.items()}
        if kind == 'fuse':
            op = a.op
            for i in sorted(ops, reverse=True):
                op = ops[i].fuse(op, axis=i)
        elif t[3] and len(ops) == len(a.ins):
            op = a.op.bind(*(ops[i] for i in range(len(ops))))
        elif t[3] and sorted(ops) == list(range(len(ops))):
            op = a.op.bind(*(ops[i] for i in range(len(ops))))      # leading arguments only
        else:
            op = a.op.bind(ops)
        ins, plan = [], []
        for i, s in enumerate(a.ins):
            k = slots[i].ins if i in slots else [s]
            plan.append((slots.get(i), len(ins), len(ins) + len(k)))
            ins += k

        def f(*xs):
            return a.f(*(n.f(*xs[i:j]) if n else xs[i] for n, i, j in plan))
        return Node(op, f, ins)
    if kind == 'swap':
        i, j = t[2] % len(a.ins), t[3] % len(a.ins)
        p = list(range(len(a.ins)))
        p[i], p[j] = p[j], p[i]
        return Node(a.op.swapaxes(i, j), lambda *xs: a.f(*(xs[k] for k in p)), [a.ins[k] for k in p])
    if kind == 'mul':
        k = t[2]
        op = [lambda: a.op * k, lambda: k * a.op, lambda: a.op.mul(k)][t[3] % 3]()
        return Node(op, lambda *xs: r.scale(a.f(*xs), k), a.ins)
    if kind == 'div':
        return Node(a.op.div(t[2]), lambda *xs: r.scale(a.f(*xs), 1 / t[2]), a.ins)
    if kind == 'neg':
        return Node(-a.op if t[2] else +a.op, (lambda *xs: r.scale(a.f(*xs), -1)) if t[2] else a.f, a.ins)
    if kind == 'select':
        o = space(c, t[2])
        op = a.op.select_subspace(o)
        check(op.output is o, 'select_subspace output')
        return Node(op, lambda *xs: keep(a.f(*xs), t[2]), a.ins)
    if kind == 'grade':
        k = t[2] % (r.n + 1)
        op = a.op.select_grade(k)
        check(op.output is c.subspace.k_vector(k), 'select_grade output')
        return Node(op, lambda *xs: {b: v for b, v in a.f(*xs).items() if r.grade(b) == k}, a.ins)
    if kind == 'squeeze':
        op = a.op.squeeze()
        check(op.output in a.op.output, 'squeeze enlarges the output')
        return Node(op, a.f, a.ins)
    if kind == 'slice':
        ins = [[b for j, b in enumerate(s) if m >> j & 1] for s, m in zip(a.ins, t[2] + [255] * len(a.ins))]
        sp = tuple(space(c, s) for s in ins)
        op = a.op.slice(sp) if t[3] else a.op[sp if len(sp) > 1 else sp[0]]
        return Node(op, a.f, ins)
    if kind == 'deslice':
        ins = [sorted(set(s) | set(e)) for s, e in zip(a.ins, t[2] + [[]] * len(a.ins))]
        out = space(c, sorted(set(a.out) | set(t[3])))
        op = a.op.deslice([space(c, s) for s in ins] + [out])
        check(op.output is out, 'deslice output')
        return Node(op, lambda *xs: a.f(*(keep(x, s) for x, s in zip(xs, a.ins))), ins)
    if kind == 'sum':
        i = t[2] % len(a.ins)
        ones = {b: 1 for b in a.ins[i]}
        rest = a.ins[:i] + a.ins[i + 1:]
        if not rest:
            return a
        return Node(a.op.sum(i), lambda *xs: a.f(*xs[:i], ones, *xs[i:]), rest)
    if kind == 'formula':
        g = FORMULA[t[2]]
        op = a.op.grade_selection(g)

        def f(*xs):
            out = {}
            split = [{} for _ in xs]
            for d, x in zip(split, xs):
                for b, v in x.items():
                    d.setdefault(r.grade(b), {})[b] = v

            def rec(i, gs, parts):
                if i == len(xs):
                    for b, v in a.f(*parts).items():
                        if g(*gs, r.grade(b)):
                            out[b] = out.get(b, 0) + v
                    return
                for k, p in split[i].items():
                    rec(i + 1, gs + [k], parts + [p])
            rec(0, [], [])
            return out
        return Node(op, f, a.ins)
    if kind == 'add':
        b = build(t[2], c, r)
        s = -1 if t[3] else 1
        if [set(i) for i in a.ins] == [set(i) for i in b.ins] and not t[4]:
            o = space(c, sorted(set(a.out) | set(b.out)))
            A, B = a.op.select_subspace(o), b.op.select_subspace(o)
            op = A - B if s < 0 else A + B
            return Node(op, lambda *xs: r.add(a.f(*xs), b.f(*xs), s), a.ins)
        if len(a.ins) == len(b.ins):
            B = -b.op if s < 0 else b.op
            op = a.op.add_broadcast(B)
            ins = [sorted(set(i) | set(j)) for i, j in zip(a.ins, b.ins)]
            return Node(op, lambda *xs: r.add(a.f(*(keep(x, i) for x, i in zip(xs, a.ins))),
                                              b.f(*(keep(x, i) for x, i in zip(xs, b.ins))), s), ins)
        return a
    raise AssertionError(kind)


@st.composite
def tree(draw, n, depth, arity):
    """Tree with at most `arity` arguments"""
    b = lambda: draw(gen.blades(n, cap=6, kinds=DENSE))
    leaf = depth <= 0
    kind = 'make' if leaf else draw(st.sampled_from(['make', 'make', 'fuse', 'bind', 'bind', 'swap', 'mul', 'neg', 'select', 'grade',
                                                     'squeeze', 'slice', 'deslice', 'sum', 'formula', 'add', 'add', 'div']))
    sub = lambda d=1, a=arity: draw(tree(n, depth - d, a))
    if kind == 'make' and draw(st.integers(0, 5)) == 0:
        ins = [b() for _ in range(draw(st.integers(1, min(arity, 3))))]
        diag = draw(st.booleans())
        out = draw(gen.blades(n, cap=6, kinds=DENSE))
        if diag and draw(st.booleans()):
            out = ins[-1]
        fill = draw(st.lists(st.integers(-3, 3), min_size=1, max_size=12))
        return ['raw', ins, out, fill, diag, draw(st.booleans())]
    if kind == 'make':
        two = arity >= 2 and draw(st.integers(0, 3)) > 0
        if not two:
            arg = ['space', b()] if leaf or draw(st.booleans()) else sub()
            return ['make', draw(st.sampled_from(UNAMES)), [arg]]
        args, left = [], arity
        names = BNAMES + ['geometric_product', 'reverse_product', 'anti_geometric_product', 'pseudoscalar_negation_product'] * 5
        for i in range(2):
            if leaf or left < 3 - i or draw(st.booleans()):
                args.append(['space', b()])
                left -= 1
            else:
                a = sub(1, left - (1 - i))
                args.append(a)
                left -= count(a)
        return ['make', draw(st.sampled_from(names)), args]
    if kind in ('fuse', 'bind'):
        base = sub(1, min(arity, 2))
        k = count(base)
        slots, left = {}, arity - k
        for i in range(k):
            if draw(st.booleans()):
                ch = sub(1, 1 + max(left, 0)) if draw(st.integers(0, 5)) else ['diag', draw(st.lists(st.sampled_from([1, 1, -1, 3, 2, 0]), min_size=1, max_size=4))]
                left -= count(ch) - 1
                slots[str(i)] = ch
        if not slots:
            slots['0'] = sub(1, 1)
        return [kind, base, slots, draw(st.booleans())]
    if kind == 'add':
        a = sub()
        mode = draw(st.integers(0, 2))
        if mode == 0:
            o = ['make', draw(st.sampled_from(UNAMES)), [a]]
        elif mode == 1:
            o = ['swap', a, draw(st.integers(0, 3)), draw(st.integers(0, 3))]
        else:
            o = sub()
        return ['add', a, o, draw(st.booleans()), draw(st.booleans())]
    a = sub()
    if kind == 'swap':
        return [kind, a, draw(st.integers(0, 3)), draw(st.integers(0, 3))]
    if kind == 'mul':
        return [kind, a, draw(st.sampled_from([2, -1, 3, 100, -7, 0.5, 1, 0])), draw(st.integers(0, 2))]
    if kind == 'div':
        return [kind, a, draw(st.sampled_from([2, -1, 4, 1]))]
    if kind == 'neg':
        return [kind, a, draw(st.booleans())]
    if kind == 'select':
        return [kind, a, draw(gen.blades(n, cap=8))]
    if kind == 'grade':
        return [kind, a, draw(st.integers(0, 5))]
    if kind == 'slice':
        return [kind, a, [draw(st.sampled_from([63, 61, 59, 47, 31, 30, 42, 21, 7, 0])) for _ in range(count(a))], draw(st.booleans())]
    if kind == 'deslice':
        return [kind, a, [draw(gen.blades(n, cap=3)) for _ in range(count(a))], draw(gen.blades(n, cap=4))]
    if kind == 'sum':
        return [kind, a, draw(st.integers(0, 3))]
    if kind == 'formula':
        return [kind, a, draw(st.sampled_from(sorted(FORMULA)))]
    return [kind, a]


def count(t):
    """number of arguments of a tree"""
    if t[0] in ('space', 'diag'):
        return 1
    if t[0] == 'make':
        return sum(count(a) for a in t[2])
    if t[0] == 'raw':
        return len(t[1])
    k = count(t[1])
    if t[0] in ('fuse', 'bind'):
        done = set()
        for s, ch in sorted(t[2].items()):
            i = int(s) % k
            if i not in done:
                done.add(i)
        base = k
        for i in done:
            base += count(t[2][str(i)]) - 1
        return base
    if t[0] == 'sum' and k > 1:
        return k - 1
    return k


@st.composite
def case(draw, tier):
    s = draw(gen.sig(2, 4, weights=[2, 3, 3, 3, 4, 4] if tier == 'quick' else [2, 3, 3, 4, 4, 5]))
    n = len(s)
    t = draw(tree(n, draw(st.sampled_from([1, 2, 2, 3, 3, 4])), 4))
    return dict(sig=s, tree=t, values=[draw(gen.nz_ints(2 ** n)) for _ in range(count(t))])


def run(case):
    c, r = ctx(case['sig']), ref(case['sig'])
    node = build(case['tree'], c, r)
    xs = [{b: v[b] for b in s} for s, v in zip(node.ins, case['values'])]
    want = node.f(*xs)
    mvs = [mk(c, [list(x), list(x.values())]) for x in xs]
    out = call(c, node.op, *mvs)
    check(out.subspace is node.op.output, 'output subspace')
    same(out, want, 'tree')
    return [case['tree'][0], f'arity{node.op.arity}'] + ([] if nonzero(want) else ['trivial'])


@st.composite
def assoc_case(draw, tier):
    s = draw(gen.sig(2, 4))
    n = len(s)
    f = gen.mv(n, cap=5, empty=False, values=gen.nz_ints)
    return dict(sig=s, ops=[draw(st.sampled_from(SIMPLE)) for _ in range(3)], xs=[draw(f) for _ in range(4)],
                order=draw(st.permutations([0, 1])))


def run_assoc(case):
    """((a . b) . (c . d)) fused in every order, and evaluated step by step"""
    c, r = ctx(case['sig']), ref(case['sig'])
    F = c.algebra.operator
    xs = [mk(c, x) for x in case['xs']]
    ds = [dct(x) for x in case['xs']]
    p, q, o = case['ops']
    P, Q = getattr(F, p)(xs[0].subspace, xs[1].subspace), getattr(F, q)(xs[2].subspace, xs[3].subspace)
    want = BIN[o](r, BIN[p](r, ds[0], ds[1]), BIN[q](r, ds[2], ds[3]))
    O = getattr(F, o)(P.output, Q.output)
    variants = {
        'constructor': getattr(F, o)(P, Q), 'bind': O.bind(P, Q), 'bind dict': O.bind({1: Q, 0: P}),
        'right then left': P.fuse(Q.fuse(O, 1), 0), 'left then right': Q.fuse(P.fuse(O, 0), 2),
        'staged bind': O.bind({0: P}).bind({2: Q}), 'staged bind 2': O.bind({1: Q}).bind({0: P}),
        'half constructed': getattr(F, o)(P, Q.output).bind({2: Q}),
        'half constructed 2': getattr(F, o)(P.output, Q).bind({0: P}),
    }
    for k, v in variants.items():
        same(call(c, v, *xs), want, k)
    same(call(c, O, call(c, P, *xs[:2]), call(c, Q, *xs[2:])), want, 'step by step')
    same(call(c, variants['bind'].swapaxes(0, 3).swapaxes(1, 2), *xs[::-1]), want, 'swapped arguments')
    return [o] + ([] if nonzero(want) else ['trivial'])


SUBS = [
    Sub('trees', case, run, quick=4000, thorough=80000, about='combinator trees against the functions they denote'),
    Sub('orders', assoc_case, run_assoc, quick=700, thorough=15000, about='all orders and spellings of feeding two operators into a third'),
    Sub('orders_high', lambda t: gen.high(assoc_case(t), 9, 10), run_assoc, quick=100, thorough=3000, about='orders and spellings, d 9 and 10'),
    Sub('high', lambda t: gen.high(case(t)), run, quick=300, thorough=3000, about='combinator trees, d 9 to 11'),
]
