"""Runner: generated-input search for one property.

A property module defines ID, RULE and SUBS, a list of Sub.  A Sub has a Hypothesis strategy producing
JSON-serialisable cases, and a function run(case) that returns labels, or raises Violation.
"""
import argparse, hashlib, json, os, signal, sys, time, traceback, zlib, importlib, multiprocessing as mp

from . import env

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    pass


class HarnessError(Exception):
    pass


class Endless(BaseException):
    """A case used up its processor time; not an Exception, as there is no point in shrinking it"""


QUICK = 2.5                 # the quick counts of the sub-checks, times this
CASE_SECONDS = dict(quick=100, thorough=400)      # processor time; ordinary cases take well below a second


def ring(signum, frame):
    raise Endless()


class Sub:
    def __init__(self, name, strategy, run, quick=200, thorough=None, fixed=None, shards=None, about=''):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough = quick, thorough or quick * 25
        self.fixed = fixed          # tier -> list of cases which are always executed
        self.shards = shards
        self.about = about


def execute(sub, case):
    """Run a single case; only ever raises Violation or HarnessError"""
    try:
        return list(sub.run(case) or ())
    except Violation:
        raise
    except HarnessError:
        raise
    except Exception as e:
        frames = traceback.extract_tb(e.__traceback__)
        mark = os.path.realpath(env.REPO) + os.sep
        inside = [f for f in frames if os.path.realpath(f.filename).startswith(mark)]
        text = f'{type(e).__name__}: {e}'[:400]
        if inside:
            f = inside[-1]
            raise Violation(f'raised on valid input: {text} (in {os.path.relpath(f.filename, env.REPO)}, {f.name})')
        if isinstance(e, (ImportError, NameError, NotImplementedError)):
            raise HarnessError(''.join(traceback.format_exception(e)))
        f = frames[-1]
        raise Violation(f'result unusable: {text} (in {os.path.basename(f.filename)}:{f.lineno})')


def case_hash(name, case):
    return hashlib.blake2b((name + json.dumps(case, sort_keys=True)).encode(), digest_size=8).hexdigest()


def run_task(prop_name, idx, shard, shards, n, seed, tier, conn):
    """Body of a worker process: one shard of one sub-check"""
    out = dict(sub=idx, shard=shard, evaluations=0, hashes=[], labels={}, samples=[], fail=None, error=None)
    try:
        devnull = open(os.devnull, 'w')
        sys.stdout = devnull
        mod = importlib.import_module('harness.props.' + prop_name)
        sub = mod.SUBS[idx]
        hashes = set()
        last = {}
        signal.signal(signal.SIGPROF, ring)

        def do(case):
            out['evaluations'] += 1
            signal.setitimer(signal.ITIMER_PROF, CASE_SECONDS[tier])
            try:
                labels = execute(sub, case)
            except Violation as e:
                last['fail'] = (case, str(e))
                raise
            except Endless:
                last['fail'] = (case, f'not done after {CASE_SECONDS[tier]} s of processor time')
                raise
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
            for l in labels:
                out['labels'][l] = out['labels'].get(l, 0) + 1
            if 'trivial' not in labels:
                h = case_hash(sub.name, case)
                if h not in hashes:
                    hashes.add(h)
                    if len(hashes) in (1, 4, 12, 40) or not out['samples']:
                        out['samples'].append(dict(check=sub.name, case=shorten(case), labels=labels))

        fixed = sub.fixed(tier) if sub.fixed else []
        try:
            for i, case in enumerate(fixed):
                if i % shards == shard:
                    do(case)
            if n > 0 and sub.strategy is not None:
                import hypothesis
                from hypothesis import settings, HealthCheck, Phase, Verbosity, given
                import hypothesis.internal.conjecture.engine as eng
                eng.MAX_SHRINKING_SECONDS = 40
                try:
                    # generation must not depend on constants appearing in the source of the code under test
                    import hypothesis.internal.conjecture.providers as prov
                    empty = prov.Constants()
                    prov._get_local_constants = lambda: empty
                except Exception:
                    pass
                strat = sub.strategy(tier) if callable(sub.strategy) else sub.strategy

                @hypothesis.seed(zlib.crc32(f'{seed}/{mod.ID}/{sub.name}/{shard}'.encode()))
                @settings(max_examples=n, database=None, deadline=None, suppress_health_check=list(HealthCheck),
                          phases=(Phase.generate, Phase.shrink), verbosity=Verbosity.quiet, print_blob=False,
                          report_multiple_bugs=False)
                @given(strat)
                def test(case):
                    do(case)
                test()
        except Violation as e:
            case, msg = last['fail']
            out['fail'] = dict(case=case, message=msg)
        except HarnessError as e:
            out['error'] = str(e)
        except BaseException as e:
            if last.get('fail'):      # hypothesis may wrap the failure (flaky, exception groups)
                case, msg = last['fail']
                out['fail'] = dict(case=case, message=msg + f' [{type(e).__name__}]')
            else:
                out['error'] = ''.join(traceback.format_exception(e))
        out['hashes'] = list(hashes)
    except BaseException as e:
        out['error'] = ''.join(traceback.format_exception(e))
    conn.send(out)
    conn.close()
    os._exit(0)


def shorten(x, n=1500):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + '...'


def run_all(prop_name, mod, tier, seed, only=None, scale=1.0):
    ncpu = min(8, os.cpu_count() or 1)
    tasks = []
    for idx, sub in enumerate(mod.SUBS):
        if only and sub.name not in only:
            continue
        n = int((sub.quick * QUICK if tier == 'quick' else sub.thorough) * scale)
        shards = sub.shards or max(1, min(ncpu, n // 25))
        for s in range(shards):
            k = n // shards + (1 if s < n % shards else 0)
            tasks.append((idx, s, shards, k))
    # interleave so that expensive sub-checks start early
    tasks.sort(key=lambda t: (t[1], t[0]))
    ctx = mp.get_context('fork')
    results, running, pending = [], [], list(tasks)
    while pending or running:
        while pending and len(running) < ncpu:
            idx, s, shards, k = pending.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=run_task, args=(prop_name, idx, s, shards, k, seed, tier, b))
            p.start()
            b.close()
            running.append((p, a, (idx, s)))
        ready = mp.connection.wait([r[1] for r in running])
        for r in list(running):
            p, a, key = r
            if a in ready:
                try:
                    results.append(a.recv())
                except EOFError:
                    results.append(dict(sub=key[0], shard=key[1], evaluations=0, hashes=[], labels={}, samples=[],
                                        fail=None, error=f'worker died: {mod.SUBS[key[0]].name} shard {key[1]}'))
                p.join()
                running.remove(r)
        if any(r['fail'] for r in results):
            pending = []      # a failure decides; let the running shards finish
    results.sort(key=lambda r: (r['sub'], r['shard']))
    return results


def main():
    env.reexec()
    if sys.argv[1:] == ['--setup']:
        env.setup()
        import hypothesis, numpy, numga
        print('hypothesis', hypothesis.__version__, 'numpy', numpy.__version__, 'numga', numga.__file__)
        raise SystemExit(0)
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=None)
    ap.add_argument('--replay')
    ap.add_argument('--only', nargs='*')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--times', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED') or 1)
    env.setup()
    t0 = time.time()
    name = a.property.lower()
    try:
        mod = importlib.import_module('harness.props.' + name)
    except Exception:
        traceback.print_exc()
        raise SystemExit(2)
    os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)

    if a.replay:
        r = json.load(open(a.replay))
        sub = {s.name: s for s in mod.SUBS}[r['check']]
        try:
            labels = execute(sub, r['case'])
        except Violation as e:
            print(f'{sub.name}: {e}')
            print(f'VIOLATION property={mod.ID} replay={a.replay}')
            raise SystemExit(1)
        print('passes', labels)
        raise SystemExit(0)

    results = run_all(name, mod, a.tier, seed, a.only, a.scale)
    labels, samples, hashes, per, evals = {}, [], set(), {}, 0
    for r in results:
        sub = mod.SUBS[r['sub']]
        evals += r['evaluations']
        d = per.setdefault(sub.name, dict(evaluations=0, nontrivial=set(), labels={}))
        d['evaluations'] += r['evaluations']
        d['nontrivial'].update(r['hashes'])
        for k, v in r['labels'].items():
            d['labels'][k] = d['labels'].get(k, 0) + v
        if sum(s['check'] == sub.name for s in samples) < 2:
            samples += r['samples'][-1:]
    for k, d in per.items():
        d['nontrivial'] = len(d['nontrivial'])
    distinct = sum(d['nontrivial'] for d in per.values())
    wall = time.time() - t0
    fails = [r for r in results if r['fail']]
    errors = [r for r in results if r['error']]
    lines = []
    for r in fails:
        sub = mod.SUBS[r['sub']]
        h = case_hash(sub.name, r['fail']['case'])
        path = os.path.join(ROOT, 'replays', f'{mod.ID}-{sub.name}-{h}.json')
        json.dump(dict(property=mod.ID, check=sub.name, case=r['fail']['case'], message=r['fail']['message'],
                       seed=seed, tier=a.tier), open(path, 'w'), indent=1)
        lines.append((sub.name, r['fail'], path))
    ev = dict(property=mod.ID, tier=a.tier, seed=seed, level='exploration',
              coverage=dict(evaluations=evals, distinct_nontrivial=distinct, rule=mod.RULE, samples=samples,
                            checks={k: dict(d, about=next(s.about for s in mod.SUBS if s.name == k)) for k, d in per.items()}),
              assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(wall, 2), violations=len(fails))
    if not a.no_evidence and not a.only:
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, 'evidence', mod.ID + '.json'), 'w'), indent=1)
    if a.times:
        for k, d in per.items():
            print(f"  {k}: {d['evaluations']} cases, {d['nontrivial']} nontrivial, {d['labels']}")
    for n, f, path in lines:
        print(f'{n}: {f["message"]}\n  case: {json.dumps(f["case"])[:1500]}')
    if lines:
        print(f'VIOLATION property={mod.ID} replay={lines[0][2]}')
        raise SystemExit(1)
    if errors:
        for r in errors:
            print(r['error'], file=sys.stderr)
        raise SystemExit(2)
    for k in known_lines(mod.ID):
        print(k)
    print(f'{mod.ID}: held on {evals} cases ({distinct} distinct non-trivial), {wall:.1f} s')
    raise SystemExit(0)


def known_lines(pid):
    f = os.path.join(ROOT, 'known_findings.txt')
    if not os.path.exists(f):
        return []
    return [l.strip() for l in open(f) if l.startswith('KNOWN-FINDING:') and f'property={pid} ' in l]
