"""Generators.  All cases are plain JSON values."""
from hypothesis import strategies as st

NAMES = 'abcdefghijklmnopqrstuvwxyz'


def metric(sig):
    return [{'+': 1, '-': -1, '0': 0}[c] for c in sig]


def desc(sig, names=None):
    return ''.join(n + s for n, s in zip(names or NAMES, sig))


def sig(lo=1, hi=5, weights=None, signs='+-0'):
    """Signature strings in any order, e.g. '+0--'"""
    if HIGH:
        lo, hi, weights = *HIGH[-1], None
    sizes = list(range(lo, hi + 1))
    pool = weights or sum(([n] * min(3, n) for n in sizes), [])
    # half of the generators positive, as larger mixed signatures are otherwise nearly always degenerate
    alphabet = '+' * (2 if '+' in signs else 0) + signs
    return st.sampled_from(pool).flatmap(lambda n: st.text(alphabet=alphabet, min_size=n, max_size=n)
                                         if False else st.lists(st.sampled_from(alphabet), min_size=n, max_size=n).map(''.join))


HIGH = []


@st.composite
def high(draw, case, lo=9, hi=11):
    """Cases of another strategy, with signatures of `lo` to `hi` generators: blades need more than one byte.  Subspaces are small, and contain
    blades that differ in their upper byte only"""
    HIGH.append((lo, hi))
    try:
        return draw(case)
    finally:
        HIGH.pop()


def grade(b):
    return bin(b).count('1')


KINDS = ['subset'] * 8 + ['few'] * 6 + ['grades'] * 5 + ['grade'] * 4 + ['even', 'odd', 'full'] * 2 + ['single', 'empty']


@st.composite
def blades(draw, n, cap=None, empty=True, kinds=None):
    """A set of blades, as sorted list of bit patterns"""
    full = range(2 ** n)
    kind = draw(st.sampled_from(kinds or KINDS))
    if HIGH:
        cap = min(cap or 8, 8)
        if kind == 'grade' and draw(st.booleans()):
            k = draw(st.sampled_from([0, 1, 1, 2, 2, 3, n - 1, n]))
            base = [2 ** (k % (n + 1)) - 1 if k else 0]
            base += draw(st.lists(st.permutations(range(n)).map(lambda p: sum(1 << i for i in p[:k])), min_size=1, max_size=5))
            r = [b for b in base if grade(b) == k]
        else:
            low = draw(st.sampled_from([7, 15, 51, 255]))
            base = draw(st.lists(st.integers(0, 2 ** n - 1).map(lambda b: b & low), min_size=1, max_size=3))
            flips = draw(st.lists(st.sampled_from(sorted({0, 256, 512 % 2 ** n, 65536 % 2 ** n, 1 << (n - 1), 7 << 8 & (2 ** n - 1)})), min_size=1, max_size=3))
            r = [b ^ f for b in base for f in flips]
            if kind in ('even', 'odd'):
                r = [b if grade(b) % 2 == (kind == 'odd') else b ^ 1 for b in r]
            if kind == 'single':
                r = r[-1:]
            if kind == 'empty' and empty:
                r = []
        kind = 'few' if kind != 'empty' else kind
    elif kind == 'grade':
        k = draw(st.integers(0, n))
        r = [b for b in full if grade(b) == k]
    elif kind == 'grades':
        m = draw(st.integers(0, 2 ** (n + 1) - 1))
        r = [b for b in full if m >> grade(b) & 1]
    elif kind == 'subset':
        m = draw(st.binary(min_size=2 ** n, max_size=2 ** n))
        r = [b for b in full if m[b] & 1]
    elif kind == 'few':
        r = draw(st.lists(st.integers(0, 2 ** n - 1), min_size=1 + (n > 1), max_size=6))
    elif kind == 'even':
        r = [b for b in full if grade(b) % 2 == 0]
    elif kind == 'odd':
        r = [b for b in full if grade(b) % 2 == 1]
    elif kind == 'full':
        r = list(full)
    elif kind == 'single':
        r = [draw(st.integers(0, 2 ** n - 1))]
    else:
        r = []
    r = sorted(set(r))
    if not r and (kind != 'empty' or not empty):
        r = [draw(st.integers(0, 2 ** n - 1))]
    if cap and len(r) > cap:
        start = draw(st.integers(0, len(r) - 1))
        r = sorted((r + r)[start:start + cap])
    return r


INTS = [1, -1, 2, -2, 3, -3, 0, 1, 2, -1, -3]


def ints(k, table=INTS):
    """k small integers"""
    return st.binary(min_size=k, max_size=k).map(lambda bs: [table[b % len(table)] for b in bs])


def nz_ints(k):
    return ints(k, [1, -1, 2, -2, 3, -3, 4])


def floats(k, scale=2.0):
    """k dyadic floats in [-scale, scale]"""
    return st.binary(min_size=2 * k, max_size=2 * k).map(
        lambda bs: [round((((bs[2 * i] << 8) | bs[2 * i + 1]) - 32768) / 32768 * scale * 1024) / 1024 for i in range(k)])


@st.composite
def mv(draw, n, cap=None, values=ints, empty=True, kinds=None):
    """[blades, values]"""
    b = draw(blades(n, cap, empty, kinds))
    return [b, draw(values(len(b)))]


def order_canonical(bl):
    return sorted(bl, key=lambda b: (grade(b), b))


def shape(max_rank=2, dims=(1, 2, 3)):
    return st.lists(st.sampled_from(dims), min_size=0, max_size=max_rank)


# --- subspaces of hundreds of blades, described compactly
@st.composite
def large(draw, dims=(8, 9, 9, 9, 10), few=3):
    """A signature of 8 to 10 generators, a subspace of 100 to 1024 blades and one of a few blades"""
    n = draw(st.sampled_from(dims))
    s = draw(sig(n, n))
    return dict(sig=s, kind=draw(st.sampled_from(['full', 'full', 'even', 'odd', 'upper', 'most', 'half'])),
                seed=draw(st.integers(0, 999)), left=draw(st.booleans()),
                few=draw(st.lists(st.integers(0, 2 ** n - 1), min_size=1, max_size=few, unique=True)))


def large_blades(n, kind, seed):
    full = range(2 ** n)
    pick = {
        'full': lambda b: True,
        'even': lambda b: grade(b) % 2 == 0,
        'odd': lambda b: grade(b) % 2 == 1,
        'upper': lambda b: 2 * grade(b) >= n,
        'most': lambda b: (b * 2654435761 + seed * 40503) >> 7 & 7,
        'half': lambda b: (b * 2654435761 + seed * 40503) >> 7 & 1,
    }[kind]
    return [b for b in full if pick(b)]


def large_mv(n, kind, seed):
    b = large_blades(n, kind, seed)
    return [b, [[1, -1, 2, -2, 3, -3, 1][(k * 7919 + seed * 31 + (k >> 3)) % 7] for k in b]]


def few_mv(bl):
    bl = sorted(bl)
    return [bl, [[1, -2, 3, -1][i % 4] for i in range(len(bl))]]
