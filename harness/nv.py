"""Adaptors between JSON cases, the code under test and the reference model.  Public API only."""
import functools
import numpy as np

from .core import Violation
from .gen import desc, metric
from .ref import Ref


def ref(sig):
    return Ref(metric(sig))


def new_ctx(sig, backend='numpy', names=None, **kw):
    d = desc(sig, names)
    if backend == 'numpy':
        from numga.backend.numpy.context import NumpyContext as C
    elif backend == 'jax':
        import jax
        jax.config.update('jax_enable_x64', True)
        import jax.numpy as jnp
        from numga.backend.jax.context import JaxContext as C
        kw.setdefault('dtype', jnp.float64)
    elif backend == 'torch':
        import torch
        torch.set_num_threads(1)
        from numga.backend.torch.context import TorchContext as C
        kw.setdefault('dtype', torch.float64)
    elif backend == 'python':
        from numga.backend.python.context import PythonContext as C
    return C(d, **kw)


@functools.lru_cache(maxsize=400)
def _ctx(sig, backend, names, otype):
    kw = {} if otype is None else dict(otype=otype)
    return new_ctx(sig, backend, names, **kw)


def ctx(sig, backend='numpy', names=None, otype=None):
    return _ctx(sig, backend, tuple(names) if names else None, otype)


def space(c, blades):
    return c.subspace.from_blades(list(blades))


def mk(c, m):
    """Multivector from [blades, values]; values are in the order of the given blades"""
    s = space(c, m[0])
    v = np.asarray(m[1], dtype=float)
    if len(m[0]):
        pos = {b: i for i, b in enumerate(m[0])}
        v = v[..., [pos[int(b)] for b in s.blades]]
    return c.multivector(subspace=s, values=v)


def dct(m):
    return {b: v for b, v in zip(m[0], m[1])}


def blist(s):
    return [int(b) for b in s.blades]


def arr(mv):
    """values of a multivector as numpy array"""
    v = mv.values
    if hasattr(v, 'detach'):
        v = v.detach().numpy()
    return np.asarray(v)


def todict(mv):
    v = arr(mv)
    b = blist(mv.subspace)
    check(v.shape[-1:] == (len(b),), f'values of shape {v.shape} for a subspace of {len(b)} blades')
    return {k: v[..., i] for i, k in enumerate(b)}


def check(cond, msg='property violated'):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def fmt(d):
    return {int(k): (float(v) if np.ndim(v) == 0 else np.asarray(v).tolist()) for k, v in sorted(d.items()) if np.any(np.asarray(v) != 0)}


def same(got, want, what='', tol=1e-9, scale=None):
    """Compare two {blade: value} dictionaries, absent is zero"""
    if not isinstance(got, dict):
        got = todict(got)
    if not isinstance(want, dict):
        want = todict(want)
    m = 1.0
    if scale is not None:
        m = max(1.0, scale)
    else:
        for v in want.values():
            a = np.max(np.abs(v)) if np.size(v) else 0
            if np.isfinite(a):
                m = max(m, float(a))
    for k in set(got) | set(want):
        g, w = np.asarray(got.get(k, 0.0), dtype=float), np.asarray(want.get(k, 0.0), dtype=float)
        try:
            d = np.abs(g - w)
        except ValueError:
            raise Violation(f'{what}: batch shapes {g.shape} and {w.shape} on blade {k}')
        if not np.all(d <= tol * m):
            raise Violation(f'{what}: on blade {k:b} got {short(g)} expected {short(w)}; all: got {short(fmt(got))} expected {short(fmt(want))}')
    return m


def short(x, n=300):
    s = str(x.tolist() if isinstance(x, np.ndarray) else x)
    return s if len(s) < n else s[:n] + '...'


def nonzero(d):
    return any(np.any(np.asarray(v) != 0) for v in d.values())


def call(c, op, *mvs):
    """Evaluate a symbolic operator on multivectors of context c"""
    return c.operator(op)(*mvs)
