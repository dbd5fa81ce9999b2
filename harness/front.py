"""Uniform access to the frontends (only through the public entry modules)."""
import importlib
import warnings

import numpy as np

CLS = {'1d': 'Scattering1D', '2d': 'Scattering2D', '3d': 'HarmonicScattering3D',
       'tf': 'TimeFrequencyScattering'}
ALL = ('numpy', 'torch', 'tensorflow', 'jax')


def cls(kind, frontend):
    warnings.simplefilter('ignore')
    return getattr(importlib.import_module('kymatio.' + frontend), CLS[kind])


def tensor(frontend, x, dtype=None):
    x = np.asarray(x) if dtype is None else np.asarray(x, dtype=dtype)
    if frontend == 'torch':
        import torch
        return torch.from_numpy(np.ascontiguousarray(x).copy())
    if frontend == 'tensorflow':
        import tensorflow as tf
        return tf.constant(x)
    if frontend == 'jax':
        import jax.numpy as jnp
        return jnp.asarray(x)
    return x


def to_np(v):
    if isinstance(v, np.ndarray):
        return v
    if hasattr(v, 'detach'):
        v = v.detach().cpu().numpy()
    return np.asarray(v)


def plain(r):
    """Output structure with NumPy leaves."""
    if isinstance(r, dict):
        return {k: to_np(v) for k, v in r.items()}
    if isinstance(r, (list, tuple)):
        return [{k: (to_np(v) if k == 'coef' else v) for k, v in d.items()} for d in r]
    return to_np(r)


def dtype_of(frontend, rng=None):
    return np.float64 if frontend == 'numpy' else np.float32
