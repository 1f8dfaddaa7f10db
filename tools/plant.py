"""Build and confirm planted bugs (development tool; no check uses it).

    python3 tools/plant.py SPEC.py [ID ...] [-j N] [--recheck]

SPEC.py defines BUGS, a list of dicts:
    id, property, edits=[(file, old, new[, nth])], demo (python source), needs, breaks

For each one: copy /repo to a scratch folder, edit, write patch.diff, run the stable tests on the copy,
run the demo on the clean tree and on the copy, and run the property's quick check against the copy.
What is confirmed lands in seeded/<id>/, with or without being caught; the outcome goes to stdout
and to /tmp/w/bugs/results.json.
--recheck: only rerun the property check of what is already in seeded/.
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import textwrap

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')
WORK = '/tmp/w/bugs'
PY = '/opt/venv/bin/python'
ENV = dict(
	PATH=os.environ['PATH'], HOME='/root', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
	JAX_PLATFORMS='cpu', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', VERIF_SEED='1',
	PYTHONPYCACHEPREFIX='/opt/vp-cache/none', MPLCONFIGDIR='/opt/vp-cache/mpl')


def sh(cmd, cwd, timeout=900, env=None):
	try:
		p = subprocess.run(cmd, cwd=cwd, env=env or ENV, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
		return p.returncode, p.stdout
	except subprocess.TimeoutExpired as e:
		return 'timeout', str(e.stdout)[-500:]


def tests(copy, bug, workers):
	xml = f'{WORK}/{bug}.xml'
	out = f'{WORK}/{bug}.json'
	sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--randomly-seed=1', '--randomly-dont-reorganize',
		'-n', str(workers), '--timeout=300', '--continue-on-collection-errors', '-o', 'junit_family=xunit2', f'--junitxml={xml}'], copy)
	sh(['/usr/bin/python3', '/opt/vp/results.py', out, f'junit:{xml}'], copy)
	passed = set(json.load(open(out))['passed'])
	stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
	return sorted(stable - passed)


def touches_fixes(diff):
	"""Removed lines that this work's own commits added"""
	bad, n, removed, f = [], 0, 0, None
	for l in diff.splitlines():
		if l.startswith('--- a/'):
			f = l[6:]
		elif l.startswith('@@'):
			n = int(l.split()[1].split(',')[0][1:])
		elif l.startswith('-') and not l.startswith('---'):
			removed += 1
			b = subprocess.run(['git', 'blame', '-s', '-L', f'{n},{n}', 'd77c332..HEAD', '--', f], cwd='/repo', text=True, stdout=subprocess.PIPE).stdout
			if not b.startswith('^'):
				bad.append(l)
			n += 1
		elif l.startswith(' '):
			n += 1
	return bad if removed else ['nothing removed']


def check(copy, prop):
	env = dict(ENV, NUMGA_REPO=copy, VERIF_TIER='quick')
	rc, out = sh(['python3', f'{HERE}/harness/run.py', prop, '--no-evidence'], HERE, env=env)
	line = [l for l in out.splitlines() if l.startswith('VIOLATION')]
	return rc, (line or out.splitlines()[-1:] or [''])[0]


def copy_repo(name):
	copy = f'{WORK}/{name}'
	shutil.rmtree(copy, ignore_errors=True)
	subprocess.run(['cp', '-a', '/repo', copy], check=True)
	return copy


def plant(bug, workers):
	name = bug['id']
	copy = copy_repo(name)
	r = dict(id=name, property=bug['property'])
	try:
		for f, old, new, *nth in bug['edits']:
			path = os.path.join(copy, f)
			s = open(path).read()
			n = s.count(old)
			if n != 1 and not nth:
				r['status'] = f'EDIT: {n} matches in {f}: {old[:50]!r}'
				return r
			parts = s.split(old)
			k = nth[0] if nth else 0
			s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
			open(path, 'w').write(s)
		_, diff = sh(['git', 'diff'], copy)
		own = touches_fixes(diff)
		if own:
			r['status'] = f'OWN lines: {own}'
			return r
		folder = os.path.join(WORK, 'stage', name)
		shutil.rmtree(folder, ignore_errors=True)
		os.makedirs(folder)
		open(f'{folder}/patch.diff', 'w').write(diff)
		open(f'{folder}/demo.sh', 'w').write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
		os.chmod(f'{folder}/demo.sh', 0o755)
		demo = 'import os, sys\nsys.path.insert(0, os.getcwd())\nimport numpy as np\n' + textwrap.dedent(bug['demo']).lstrip('\n')
		open(f'{folder}/demo.py', 'w').write(demo)
		json.dump(dict(property=bug['property'], needs=bug['needs'], what_it_breaks=bug['breaks']), open(f'{folder}/meta.json', 'w'), indent=1)
		rc, out = sh(['bash', f'{folder}/demo.sh'], '/repo', 300)
		if rc != 0:
			r['status'] = f'DEMO fails on the clean tree: {out[-600:]}'
			return r
		rc, out = sh(['bash', f'{folder}/demo.sh'], copy, 300)
		r['demo'] = out.strip().splitlines()[-1:] if out else []
		if rc in (0, 'timeout'):
			r['status'] = f'DEMO does not notice ({rc})'
			return r
		missing = tests(copy, name, workers)
		if missing:
			r['status'] = f'TESTS notice: {len(missing)} {missing[:3]}'
			return r
		shutil.rmtree(os.path.join(SEEDED, name), ignore_errors=True)
		shutil.copytree(folder, os.path.join(SEEDED, name))
		r['check'] = check(copy, bug['property'])
		r['status'] = 'CAUGHT' if r['check'][0] == 1 else 'MISSED'
		return r
	except Exception as e:
		r['status'] = f'ERROR {e!r}'
		return r
	finally:
		shutil.rmtree(copy, ignore_errors=True)


def recheck(name):
	copy = copy_repo(name)
	try:
		prop = json.load(open(f'{SEEDED}/{name}/meta.json'))['property']
		rc, out = sh(['git', 'apply', f'{SEEDED}/{name}/patch.diff'], copy)
		if rc:
			return dict(id=name, property=prop, status='APPLY ' + out[-300:])
		c = check(copy, prop)
		return dict(id=name, property=prop, check=c, status='CAUGHT' if c[0] == 1 else 'MISSED')
	finally:
		shutil.rmtree(copy, ignore_errors=True)


if __name__ == '__main__':
	args = sys.argv[1:]
	jobs = 4
	if '-j' in args:
		i = args.index('-j')
		jobs = int(args[i + 1])
		del args[i:i + 2]
	os.makedirs(WORK, exist_ok=True)
	if '--recheck' in args:
		args.remove('--recheck')
		work = [(recheck, n) for n in (args or sorted(os.listdir(SEEDED)))]
	else:
		scope = {}
		exec(open(args[0]).read(), scope)
		work = [(lambda b: plant(b, 3), b) for b in scope['BUGS'] if len(args) == 1 or b['id'] in args[1:]]
	path = f'{WORK}/results.json'
	results = json.load(open(path)) if os.path.exists(path) else {}
	with cf.ThreadPoolExecutor(jobs) as ex:
		for f in cf.as_completed([ex.submit(fn, a) for fn, a in work]):
			r = f.result()
			results[r['id']] = r
			print(r['id'], r['property'], r['status'], r.get('check', ''), r.get('demo', ''), flush=True)
			json.dump(results, open(path, 'w'), indent=1)
