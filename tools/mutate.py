"""Mutation analysis of the checks (development tool; no check uses it).

    python3 tools/mutate.py gen            list all mutants into /tmp/w/mut/mutants.json
    python3 tools/mutate.py test N SEED    run the stable tests on a sample of N mutants; survivors into survivors.json
    python3 tools/mutate.py check          run the checks on the survivors until one of them notices; results in checked.json
"""
import ast
import concurrent.futures as cf
import copy
import json
import os
import queue
import random
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/w/mut'
PY = '/opt/venv/bin/python'
ENV = dict(PATH=os.environ['PATH'], HOME='/root', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', JAX_PLATFORMS='cpu',
           OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', VERIF_SEED='1', MPLCONFIGDIR='/opt/vp-cache/mpl')

CMP = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div, ast.Add], ast.FloorDiv: [ast.Mult], ast.Div: [ast.Mult], ast.LShift: [ast.RShift],
       ast.RShift: [ast.LShift], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd, ast.BitXor], ast.BitXor: [ast.BitOr], ast.Mod: [ast.FloorDiv], ast.Pow: [ast.Mult]}
NAMES = [('union', 'intersection'), ('reverse', 'conjugate'), ('reverse', 'involute'), ('left_complement', 'right_complement'), ('wedge', 'inner'),
         ('select', 'restrict'), ('degenerate', 'nondegenerate'), ('cos', 'sin'), ('min', 'max'), ('inside', 'equals'), ('any', 'all'),
         ('zeros', 'ones'), ('right_hodge', 'left_hodge'), ('left_complement_dual', 'right_complement_dual'), ('commutator', 'product'),
         ('union', 'difference'), ('squared', 'symmetric_reverse_product'), ('select_subspace', 'restrict_subspace'), ('blades', 'grades'),
         ('n_dimensions', 'n_blades'), ('inverse', 'reverse'), ('arange', 'zeros'), ('sqrt', 'abs'), ('norm', 'norm_squared'), ('scalar', 'pseudoscalar'),
         ('vector', 'antivector'), ('product', 'wedge'), ('inputs', 'axes'), ('union', 'product'), ('even_grade', 'odd_grade')]
SWAP = {}
for a, b in NAMES:
    SWAP.setdefault(a, []).append(b)
    SWAP.setdefault(b, []).append(a)


def files():
    out = subprocess.run(['git', '-C', '/repo', 'ls-files', 'numga'], capture_output=True, text=True).stdout.split()
    return [f for f in out if f.endswith('.py') and '/test' not in f and '/examples/' not in f and 'benchmark' not in f]


def edits(node):
    """(description, function changing the node in place)"""
    def setter(**kw):
        def f(n):
            for k, v in kw.items():
                setattr(n, k, v)
        return f
    if isinstance(node, ast.Compare):
        for alt in CMP.get(type(node.ops[0]), []):
            yield f'{type(node.ops[0]).__name__}->{alt.__name__}', setter(ops=[alt()] + node.ops[1:])
    if isinstance(node, (ast.BinOp, ast.AugAssign)):
        for alt in BIN.get(type(node.op), []):
            yield f'{type(node.op).__name__}->{alt.__name__}', setter(op=alt())
    if isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Sub, ast.Mult, ast.Div, ast.FloorDiv)):
        yield 'swap operands', lambda n: (lambda l, r: (setattr(n, 'left', r), setattr(n, 'right', l)))(n.left, n.right)
    if isinstance(node, ast.BoolOp):
        yield 'and<->or', setter(op=ast.Or() if isinstance(node.op, ast.And) else ast.And())
        for i in range(len(node.values)):
            if len(node.values) > 1:
                yield f'drop operand {i}', lambda n, i=i: n.values.pop(i)
    if isinstance(node, ast.UnaryOp):
        if isinstance(node.op, ast.Not):
            yield 'drop not', lambda n: setattr(n, 'op', ast.UAdd()) or setattr(n, 'operand', ast.Call(ast.Name('bool', ast.Load()), [n.operand], []))
        else:
            yield f'drop {type(node.op).__name__}', lambda n: setattr(n, 'op', ast.UAdd())
    if isinstance(node, ast.Constant):
        if isinstance(node.value, bool):
            yield 'flip', setter(value=not node.value)
        elif isinstance(node.value, (int, float)):
            yield '+1', setter(value=node.value + 1)
            if node.value:
                yield '-1', setter(value=node.value - 1)
    if isinstance(node, ast.Call):
        if len(node.args) >= 2 and not any(isinstance(a, ast.Starred) for a in node.args):
            yield 'swap arguments', lambda n: n.args.__setitem__(slice(0, 2), [n.args[1], n.args[0]])
        for i, k in enumerate(node.keywords):
            if k.arg:
                yield f'drop {k.arg}', lambda n, i=i: n.keywords.pop(i)
    if isinstance(node, ast.Attribute) and node.attr in SWAP and isinstance(node.ctx, ast.Load):
        for alt in SWAP[node.attr]:
            yield f'{node.attr}->{alt}', setter(attr=alt)
    if isinstance(node, (ast.If, ast.IfExp, ast.While)):
        for v in (True, False):
            if not (isinstance(node, ast.While) and v):
                yield f'condition {v}', setter(test=ast.Constant(v))
    if isinstance(node, ast.Slice):
        if node.lower is not None:
            yield 'drop lower', setter(lower=None)
        if node.upper is not None:
            yield 'drop upper', setter(upper=None)
    if isinstance(node, ast.Return) and isinstance(node.value, ast.Call) and isinstance(node.value.func, ast.Attribute) and len(node.value.args) <= 1:
        # skip the last step of a chain
        yield f'skip .{node.value.func.attr}()', lambda n: setattr(n, 'value', n.value.func.value)


def skip(node, parents):
    return isinstance(node, (ast.Assert, ast.Raise, ast.Import, ast.ImportFrom))


def walk(tree):
    """nodes in a fixed order, without annotations, docstrings, assertions"""
    def go(n):
        if isinstance(n, (ast.Assert, ast.Raise, ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('print', 'SubspaceDispatch', 'isinstance', 'TypeVar'):
            return
        yield n
        for f, v in ast.iter_fields(n):
            if f in ('annotation', 'returns'):
                continue
            for c in (v if isinstance(v, list) else [v]):
                if isinstance(c, ast.AST):
                    yield from go(c)
    return list(go(tree))


def all_mutants():
    out = []
    for f in files():
        src = open('/repo/' + f).read()
        tree = ast.parse(src)
        for i, n in enumerate(walk(tree)):
            for j, (d, e) in enumerate(edits(n)):
                out.append(dict(file=f, node=i, edit=j, what=d, line=getattr(n, 'lineno', 0)))
    return out


def mutate(m):
    tree = ast.parse(open('/repo/' + m['file']).read())
    n = walk(tree)[m['node']]
    before = ast.unparse(n)
    list(edits(n))[m['edit']][1](n)
    ast.fix_missing_locations(tree)
    m['before'], m['after'] = before[:300], ast.unparse(n)[:300]
    return ast.unparse(tree)


def name(m):
    return f"{m['file']}:{m['line']}:{m['node']}.{m['edit']}"


def sh(cmd, cwd, timeout, env=ENV):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out = p.communicate(timeout=timeout)[0]
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 'timeout', ''


def copies(k):
    q = queue.Queue()
    for i in range(k):
        d = f'{W}/copy{i}'
        shutil.rmtree(d, ignore_errors=True)
        subprocess.run(['cp', '-a', '/repo', d], check=True)
        q.put(d)
    return q


def run_tests(m, pool, order, unstable):
    d = pool.get()
    try:
        try:
            src = mutate(m)
        except Exception as e:
            return m, f'nomutant {e}'
        open(f'{d}/{m["file"]}', 'w').write(src)
        rc, out = sh([PY, '-m', 'pytest', '-x', '-q', '-p', 'no:cacheprovider', '--randomly-seed=1', '--randomly-dont-reorganize', '-p', 'no:xdist', '--timeout=120'] + unstable + order, d, 900)
        return m, ('killed' if rc else 'survived')
    finally:
        subprocess.run(['git', '-C', d, 'checkout', '-q', '--', '.'])
        subprocess.run(['rm', '-rf', f'{d}/operators/110'])
        pool.put(d)


def cmd_test(n, seed, j=7):
    ms = json.load(open(f'{W}/mutants.json'))
    done = json.load(open(f'{W}/tested.json')) if os.path.exists(f'{W}/tested.json') else {}
    random.Random(seed).shuffle(ms)
    skip = os.environ.get('MUTATE_SKIP', '').split()        # file:line prefixes which are of no interest
    ms = [m for m in ms if name(m) not in done and not any(s in name(m) for s in skip)][:n]
    unstable = json.load(open(f'{W}/unstable.json'))
    un = [x for u in unstable for x in ('--deselect', u)]
    order = ['numga']
    pool = copies(j)
    with cf.ThreadPoolExecutor(j) as ex:
        for i, (m, r) in enumerate(ex.map(lambda m: run_tests(m, pool, order, un), ms)):
            m['tests'] = r
            done[name(m)] = m
            if r == 'survived':
                print(name(m), m['what'], '|', m['before'], '->', m['after'], flush=True)
            if i % 20 == 0:
                json.dump(done, open(f'{W}/tested.json', 'w'), indent=0)
    json.dump(done, open(f'{W}/tested.json', 'w'), indent=0)
    print(sum(m['tests'] == 'survived' for m in done.values()), 'survivors of', len(done))


FIRST = [('bitops', 'C01 C03'), ('algebra/algebra', 'C01 C03 C22'), ('description', 'C22 C25 C23'), ('flyweight', 'C09 C21'), ('dynamic', 'C20'),
         ('sparse_tensor', 'C24 C06'), ('operator/factory', 'C02 C03 C04 C07 C08'), ('operator/operator', 'C06 C05 C23 C07'), ('operator/abstract', 'C14 C13 C12'),
         ('subspace', 'C09 C25 C23 C05'), ('python', 'C13 C28'), ('jax', 'C27 C13 C12 C14'), ('torch', 'C13 C12 C14 C28'), ('numpy', 'C12 C13 C14 C28'),
         ('logexp', 'C18'), ('roots', 'C16 C17'), ('norms', 'C17'), ('decompose', 'C19'), ('inverse', 'C15'), ('optimized', 'C26'),
         ('numerical_normalize', 'C29'), ('multivector/factory', 'C28 C10'), ('multivector/multivector', 'C11 C10 C13 C15'), ('multivector/names', 'C10'),
         ('helper', 'C12 C13'), ('context', 'C28 C13'), ('util', 'C21 C05')]


def run_checks(m, pool, props):
    d = pool.get()
    try:
        open(f'{d}/{m["file"]}', 'w').write(mutate(m))
        first = [p for k, v in FIRST if k in m['file'] for p in v.split()]
        env = dict(ENV, NUMGA_REPO=d)
        odd = []
        for p in first + [p for p in props if p not in first]:
            rc, out = sh([sys.executable, 'harness/run.py', p, '--tier', 'quick', '--no-evidence'], HERE, 900, env)
            if rc == 1:
                return m, p, [l for l in out.splitlines() if l.strip()][:1]
            if rc != 0:
                odd.append((p, rc, out[-300:]))
        return m, None, odd
    finally:
        subprocess.run(['git', '-C', d, 'checkout', '-q', '--', '.'])
        pool.put(d)


def cmd_check(j=3):
    done = json.load(open(f'{W}/tested.json'))
    res = json.load(open(f'{W}/checked.json')) if os.path.exists(f'{W}/checked.json') else {}
    ms = [m for k, m in done.items() if m['tests'] == 'survived' and k not in res]
    props = [json.loads(l)['id'] for l in open(HERE + '/properties.jsonl')]
    pool = copies(j)
    with cf.ThreadPoolExecutor(j) as ex:
        for f in cf.as_completed([ex.submit(run_checks, m, pool, props) for m in ms]):
            m, p, note = f.result()
            res[name(m)] = dict(m, caught=p, note=note)
            print('CAUGHT' if p else 'UNCAUGHT', p or '', name(m), m['what'], '|', m['before'][:150], '->', m['after'][:150], note if not p else '', flush=True)
            json.dump(res, open(f'{W}/checked.json', 'w'), indent=0)


if __name__ == '__main__':
    os.makedirs(W, exist_ok=True)
    if sys.argv[1] == 'gen':
        ms = all_mutants()
        json.dump(ms, open(f'{W}/mutants.json', 'w'))
        c = {}
        for m in ms:
            c[m['file']] = c.get(m['file'], 0) + 1
        print(len(ms), c)
    elif sys.argv[1] == 'test':
        cmd_test(int(sys.argv[2]), int(sys.argv[3]), *(int(x) for x in sys.argv[4:]))
    else:
        cmd_check(*(int(x) for x in sys.argv[2:]))
