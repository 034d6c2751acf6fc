"""Comparison helpers (raise core.Violation)"""
import contextlib
import io
import os
import shutil
import tempfile
import numpy as np
from mc.core import Violation


def fail(msg, key=None):
    raise Violation(msg, key)


def expect(cond, msg, key=None):
    if not cond:
        raise Violation(msg, key)


def arr(x):
    """values of a masked array or array, with masked entries as NaN"""
    if isinstance(x, np.ma.MaskedArray):
        m = np.ma.getmaskarray(x)
        d = np.array(x.data, copy=True)
        if np.iscomplexobj(d):
            d = d.astype(complex)
        else:
            d = d.astype(float)
        d[m] = np.nan
        return d
    return np.asarray(x)


def close(got, want, what, atol=1e-9, rtol=1e-9, key=None, nan_ok=True):
    g = arr(got)
    w = arr(want)
    if g.shape != w.shape:
        raise Violation(f'{what}: shape {g.shape}, expected {w.shape}', key)
    if g.size == 0:
        return 0
    g = g.astype(complex) if np.iscomplexobj(g) or np.iscomplexobj(w) else g.astype(float)
    w = w.astype(g.dtype)
    gn, wn = np.isnan(g), np.isnan(w)
    if not np.array_equal(gn, wn):
        i = np.argwhere(gn != wn)[0]
        raise Violation(f'{what}: missing values differ at {i.tolist()}: '
                        f'got {g[tuple(i)]}, expected {w[tuple(i)]}', key)
    with np.errstate(all='ignore'):
        bad = ~(np.abs(g - w) <= atol + rtol * np.abs(w))
        # equal infinities
        bad &= ~(g == w)
    bad &= ~gn
    if bad.any():
        i = np.argwhere(bad)[0]
        raise Violation(f'{what}: at {i.tolist()} got {g[tuple(i)]!r}, expected '
                        f'{w[tuple(i)]!r} ({int(bad.sum())} of {bad.size} differ)', key)
    return g.size


def close_angle(got, want, what, circle=360.0, atol=1e-7, key=None):
    g, w = arr(got).astype(float), arr(want).astype(float)
    if g.shape != w.shape:
        raise Violation(f'{what}: shape {g.shape}, expected {w.shape}', key)
    if not np.array_equal(np.isnan(g), np.isnan(w)):
        raise Violation(f'{what}: missing values differ', key)
    d = np.abs(np.mod(g - w + circle / 2, circle) - circle / 2)
    bad = d > atol
    if bad.any():
        i = np.argwhere(bad)[0]
        raise Violation(f'{what}: at {i.tolist()} got {g[tuple(i)]!r}, expected '
                        f'{w[tuple(i)]!r} modulo {circle}', key)
    return g.size


def raises(exc, func, what, key=None):
    try:
        r = func()
    except exc:
        return True
    raise Violation(f'{what}: expected {exc}, got result {str(r)[:200]}', key)


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='mc-')
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), \
            contextlib.redirect_stderr(io.StringIO()):
        yield


def snapshot(x):
    """deep, comparable copy of nested arrays / dicts / objects for purity checks"""
    if isinstance(x, np.ma.MaskedArray):
        return ('ma', x.dtype.str, x.shape, np.array(x.data, copy=True).tobytes(),
                np.ma.getmaskarray(x).tobytes(), repr(x.fill_value))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ('obj', [snapshot(i) for i in x.ravel()])
        return ('nd', x.dtype.str, x.shape, x.tobytes())
    if isinstance(x, dict):
        return ('dict', [(repr(k), snapshot(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snapshot(i) for i in x])
    if hasattr(x, '__dict__') and not isinstance(x, type) and not callable(x):
        return (type(x).__name__, [(k, snapshot(v)) for k, v in vars(x).items()
                                   if not k.startswith('__')])
    return repr(x)
