import numpy as np
from hypothesis import strategies as st
from ..core import Sub
from .. import gen
from ..nv import *

ID = 'C20'
RULE = ('model: generated rule sets (conditions over one to three subspaces, any priority) and histories of calls over several dispatchers '
        'and algebras, against a list of rules searched in order; real: histories of calls of the shipped dispatched functions, each '
        'compared with the same call made first thing in a fresh algebra; non-trivial when at least two rules were chosen and some call '
        'had several applicable rules (model), or when at least three calls gave results (real)')

# conditions, as plain values.  Each is evaluated on the blades by the model, and on the subspaces by the code
FAMS = {
    'scalar': lambda k, n: k == 0, 'vector': lambda k, n: k == 1, 'even_grade': lambda k, n: k % 2 == 0, 'odd_grade': lambda k, n: k % 2 == 1,
    'pseudoscalar': lambda k, n: k == n, 'self_reverse': lambda k, n: k % 4 in (0, 1), 'full': lambda k, n: True,
    'nothing': lambda k, n: False,
}


def model_cond(cond, args):
    """args: list of (blades, sig)"""
    kind = cond[0]
    if kind == 'true':
        return True
    if kind == 'false':
        return False
    if kind == 'not':
        return not model_cond(cond[1], args)
    if kind == 'and':
        return model_cond(cond[1], args) and model_cond(cond[2], args)
    if kind == 'or':
        return model_cond(cond[1], args) or model_cond(cond[2], args)
    blades, sig = args[cond[1] % len(args)]
    n = len(sig)
    if kind == 'inside':
        return all(FAMS[cond[2]](gen.grade(b), n) for b in blades)
    if kind == 'equals':
        return set(blades) == {b for b in range(2 ** n) if FAMS[cond[2]](gen.grade(b), n)}
    if kind == 'len':
        return len(blades) > cond[2]
    if kind == 'dim':
        return n == cond[2]
    if kind == 'degenerate':
        return '0' in sig
    if kind == 'has':
        return cond[2] in blades
    if kind == 'same':
        return set(blades) == set(args[0][0]) and sig == args[0][1]
    raise KeyError(kind)


def code_cond(cond):
    def f(*subs):
        kind = cond[0]
        if kind == 'true':
            return True
        if kind == 'false':
            return False
        if kind == 'not':
            return not code_cond(cond[1])(*subs)
        if kind == 'and':
            return code_cond(cond[1])(*subs) and code_cond(cond[2])(*subs)
        if kind == 'or':
            return code_cond(cond[1])(*subs) or code_cond(cond[2])(*subs)
        s = subs[cond[1] % len(subs)]
        if kind in ('inside', 'equals'):
            if cond[2] == 'nothing':
                return len(s) == 0
            return getattr(getattr(s, kind), cond[2])()
        if kind == 'len':
            return len(s) > cond[2]
        if kind == 'dim':
            return s.algebra.n_dimensions == cond[2]
        if kind == 'degenerate':
            return len(s.algebra.subspace.degenerate()) > 0
        if kind == 'has':
            return cond[2] in blist(s)
        if kind == 'same':
            return s is subs[0]
    return f


leaf = st.one_of(
    st.just(['true']), st.just(['false']),
    st.tuples(st.just('inside'), st.integers(0, 2), st.sampled_from(sorted(FAMS))).map(list),
    st.tuples(st.just('inside'), st.integers(0, 2), st.sampled_from(sorted(FAMS))).map(list),
    st.tuples(st.just('equals'), st.integers(0, 2), st.sampled_from(sorted(FAMS))).map(list),
    st.tuples(st.just('len'), st.integers(0, 2), st.integers(0, 6)).map(list),
    st.tuples(st.just('dim'), st.integers(0, 2), st.integers(1, 3)).map(list),
    st.tuples(st.just('degenerate'), st.integers(0, 2)).map(list),
    st.tuples(st.just('has'), st.integers(0, 2), st.integers(0, 7)).map(list),
    st.tuples(st.just('same'), st.integers(0, 2)).map(list),
)
leaf = st.one_of(leaf, st.tuples(st.just('inside'), st.integers(0, 2), st.sampled_from(['full', 'even_grade', 'odd_grade', 'self_reverse'])).map(list))
cond = st.one_of(leaf, leaf, st.tuples(st.just('not'), leaf).map(list), st.tuples(st.sampled_from(['and', 'or']), leaf, leaf).map(list))


@st.composite
def model_case(draw, tier):
    sigs = [draw(gen.sig(1, 3)) for _ in range(draw(st.integers(1, 3)))]
    pool = []
    for _ in range(draw(st.sampled_from([3, 4, 5, 6, 7]))):
        a = draw(st.integers(0, len(sigs) - 1))
        pool.append([a] + draw(gen.mv(len(sigs[a]))))
    disp = []
    for _ in range(draw(st.sampled_from([1, 1, 2]))):
        arity = draw(st.sampled_from([1, 1, 2, 2, 3]))
        rules = draw(st.lists(st.tuples(cond, st.one_of(st.none(), st.integers(0, 9)), st.sampled_from([False, False, False, True])).map(list),
                             min_size=draw(st.sampled_from([1, 3, 4])), max_size=8))
        disp.append(dict(arity=arity, rules=rules, method=draw(st.booleans())))
    calls = draw(st.lists(st.tuples(st.integers(0, len(disp) - 1), st.lists(st.integers(0, len(pool) - 1), min_size=3, max_size=3),
                                    st.booleans()).map(list), min_size=5, max_size=16))
    late = draw(st.lists(st.tuples(st.integers(1, len(calls) - 1), st.integers(0, len(disp) - 1), cond, st.one_of(st.none(), st.integers(0, 9))).map(list),
                         max_size=3)) if draw(st.integers(0, 2)) == 0 else []
    return dict(sigs=sigs, pool=pool, disp=disp, calls=calls, fresh=draw(st.booleans()), late=late)


class RuleError(ArithmeticError):
    pass


def run_model(case):
    from numga.dynamic_dispatch import SubspaceDispatch
    mkctx = new_ctx if case['fresh'] else ctx
    cs = [mkctx(s) for s in case['sigs']]
    pool = [mk(cs[a], [b, v]) for a, b, v in case['pool']]
    info = [(b, case['sigs'][a]) for a, b, v in case['pool']]
    # the same signature may occur twice; those are then equal for a shared context and distinct for fresh ones
    ident = [case['sigs'].index(case['sigs'][a]) if not case['fresh'] else a for a, b, v in case['pool']]
    owners, disps, models = [], [], []
    for i, d in enumerate(case['disp']):
        D = SubspaceDispatch(f'doc {i}')
        model = []
        for k, (cnd, pos, raises) in enumerate(d['rules']):
            def func(*args, tag=(i, k), raises=raises):
                if raises and np.size(args[0].values) % 2:
                    raise RuleError(tag, args)
                return tag, args
            p = None if pos is None else pos % (len(model) + 1)
            decorated = D.register(code_cond(cnd), position=p)(func) if k % 2 else D.register(code_cond(cnd), p)(func)
            check(decorated is func, 'register does not hand back the function it decorates')
            model.insert(len(model) if p is None else p, (cnd, (i, k), raises))
        owner = type('Owner', (), {'f': D})
        owners.append(owner)
        disps.append(D)
        models.append(model)
    chosen, several = set(), 0
    before = {}
    for at, (di, idx, vary) in enumerate(case['calls']):
        # rules that come in between the calls
        for k, (when, dl, cnd, pos) in enumerate(case.get('late', [])):
            if when == at:
                def func(*args, tag=(dl, 'late', k)):
                    return tag, args
                p = None if pos is None else pos % (len(models[dl]) + 1)
                check(disps[dl].register(code_cond(cnd), position=p)(func) is func, 'register does not hand back the function it decorates')
                models[dl].insert(len(models[dl]) if p is None else p, (cnd, (dl, 'late', k), False))
        d = case['disp'][di]
        idx = [j % len(pool) for j in idx[:d['arity']]]
        args = tuple(pool[j] for j in idx)
        if vary:
            # same subspaces, other values: the choice is the same
            args = tuple(cs[case['pool'][j][0]].multivector(subspace=x.subspace, values=x.values * 0 - 7) for j, x in zip(idx, args))
        meta = [(info[j][0], info[j][1]) for j in idx]

        def holds(cnd):
            if cnd[0] == 'same':
                j = cnd[1] % len(idx)
                return set(meta[j][0]) == set(meta[0][0]) and ident[idx[j]] == ident[idx[0]]
            if cnd[0] == 'not':
                return not holds(cnd[1])
            if cnd[0] in ('and', 'or'):
                x, y = holds(cnd[1]), holds(cnd[2])
                return (x and y) if cnd[0] == 'and' else (x or y)
            return model_cond(cnd, meta)
        hits = [(tag, raises) for cnd, tag, raises in models[di] if holds(cnd)]
        several += len(hits) > 1
        D = disps[di]
        try:
            if d['method']:
                got = D.__get__(args[0], type(args[0]))(*args[1:])
            else:
                got = D(*args)
        except RuleError as e:
            got = ('error',) + e.args
        except Exception as e:
            check(not hits, f'rejected arguments that a rule accepts: {type(e).__name__}: {e}')
            continue
        check(hits, f'no rule applies, but {got[-2]} was used')
        tag, raises = hits[0]
        # a choice made for these subspaces before a rule was put in front of it may stand
        key = (di, tuple((ident[j], tuple(sorted(info[j][0]))) for j in idx))
        old = before.get(key)
        if old is not None and old[0] != tag and got[-2] == old[0]:
            tag, raises = old
        before[key] = tag, raises
        chosen.add(tag)
        want = ('error', tag) if raises and np.size(args[0].values) % 2 else (tag,)
        check(got[:-1] == want, f'rule {got[:-1]} used; the first applicable one is {want}')
        check(len(got[-1]) == len(args) and all(x is y for x, y in zip(got[-1], args)), 'the rule was not given the arguments of the call')
    check(all(o.f is D for o, D in zip(owners, disps)), 'access through the class')
    return [f'rules{len(chosen)}'] + ([] if len(chosen) > 1 and several else ['trivial'])


UNARY = ['inverse', 'motor_inverse', 'exp', 'log', 'motor_log', 'square_root', 'inverse_square_root', 'motor_square_root', 'study_norm_squared',
         'study_norm', 'norm_squared', 'norm', 'normalized', 'decompose_polar', 'decompose_invariant', 'motor_translator', 'motor_rotor',
         'exp_quadratic', 'motor_log_quadratic', 'exp_linear', 'exp_linear_normalized', 'motor_log_linear', 'motor_log_linear_normalized']
BINARY = ['motor_split', 'motor_geometric_mean']


@st.composite
def real_case(draw, tier):
    s = draw(gen.sig(1, 4, weights=[1, 2, 2, 3, 3, 3, 4, 4]))
    n = len(s)
    kinds = ['grade'] * 6 + ['even'] * 4 + ['subset', 'few', 'few', 'single', 'grades', 'empty']
    pool = [draw(gen.mv(n, cap=8, values=lambda k: gen.floats(k, 2.0), kinds=kinds)) for _ in range(draw(st.integers(1, 3)))]
    calls = draw(st.lists(st.tuples(st.sampled_from(UNARY * 2 + BINARY), st.integers(0, 2), st.integers(0, 2)).map(list), min_size=3, max_size=8))
    return dict(sig=s, pool=pool, calls=calls)


def outcome(f):
    try:
        with np.errstate(all='ignore'):
            r = f()
    except Exception as e:
        return type(e).__name__
    r = r if isinstance(r, tuple) else (r,)
    return [(blist(x.subspace), arr(x).tobytes(), arr(x).shape) for x in r]


def run_real(case):
    c = new_ctx(case['sig'])
    pool = [mk(c, m) for m in case['pool']]
    # an algebra that shares blade patterns but not products, used in between
    other = ctx(case['sig'][::-1] if case['sig'][::-1] != case['sig'] else '-' * len(case['sig']))
    opool = [mk(other, m) for m in case['pool']]
    ok = 0
    for name, i, j in case['calls']:
        i, j = i % len(pool), j % len(pool)
        idx = (i, j) if name in BINARY else (i,)
        got = outcome(lambda: getattr(pool[idx[0]], name)(*[pool[k] for k in idx[1:]]))
        outcome(lambda: getattr(opool[idx[0]], name)(*[opool[k] for k in idx[1:]]))
        again = outcome(lambda: getattr(pool[idx[0]], name)(*[pool[k] for k in idx[1:]]))
        f = new_ctx(case['sig'])
        fp = [mk(f, m) for m in case['pool']]
        first = outcome(lambda: getattr(fp[idx[0]], name)(*[fp[k] for k in idx[1:]]))
        check(got == first, f'{name}: {show(got)} in a session, {show(first)} in a fresh algebra')
        check(again == got, f'{name}: {show(got)}, then {show(again)} on a second call')
        ok += not isinstance(got, str)
    return [] if ok > 2 else ['trivial']


def show(o):
    if isinstance(o, str):
        return 'raised ' + o
    return ' and '.join(f'blades {b} values {np.frombuffer(v).reshape(s).tolist()}' for b, v, s in o)


SUBS = [
    Sub('model', model_case, run_model, quick=2500, thorough=60000, about='generated dispatchers against a list of rules'),
    Sub('real', real_case, run_real, quick=350, thorough=8000, about='the shipped dispatched functions, in histories'),
]
