"""Process environment of every check: interpreter, paths, determinism."""
import os, sys

REPO = os.environ.get('NUMGA_REPO', '/repo')
PY = '/opt/venv/bin/python'
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
ENV = dict(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', JAX_PLATFORMS='cpu',
           OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', HOME='/root',
           NUMGA_VERIF_ENV='1')


def reexec():
    """Make sure we run in the library's own interpreter, in a fixed environment"""
    if os.environ.get('NUMGA_VERIF_ENV') != '1' or os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv'):
        if os.environ.get('NUMGA_VERIF_LOOP') == '1':
            raise SystemExit('could not set up the environment')
        e = dict(os.environ); e.update(ENV); e['NUMGA_VERIF_LOOP'] = '1'
        os.execve(PY, [PY, '-W', 'ignore'] + sys.argv, e)


def setup():
    """Import the code under test from the current working tree, without consulting byte code caches"""
    import importlib.machinery as m

    class SourceOnly(m.SourceFileLoader):
        def path_stats(self, path):
            raise OSError('byte code caches are not consulted')

    def hook(path):
        if os.path.realpath(path).startswith(os.path.realpath(REPO)):
            return m.FileFinder(path, (m.ExtensionFileLoader, m.EXTENSION_SUFFIXES), (SourceOnly, m.SOURCE_SUFFIXES))
        raise ImportError
    sys.path_hooks.insert(0, hook)
    sys.path_importer_cache.clear()
    sys.path[:] = [p for p in sys.path if os.path.realpath(p or '.') != os.path.realpath(REPO)]
    sys.path.insert(0, REPO)
    if VT not in sys.path:
        sys.path.append(VT)    # last, so that the library's own numpy wins
    sys.dont_write_bytecode = True
    import numpy as np
    np.seterr(all='ignore')
    import warnings
    warnings.simplefilter('ignore')
