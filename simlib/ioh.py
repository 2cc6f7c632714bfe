"""Shared helpers for the file-based checks."""
import numpy as np

from . import disk as D
from .core import SutError, Violation

READ_ERR = ["EIO", "ESTALE", "interrupt", "memory"]
OPEN_ERR = ["ENOENT", "EACCES", "EMFILE", "EIO"]


def snap(ds):
    """Everything observable of a DataSE."""
    def arr(x):
        return None if x is None else np.array(x, dtype=float).tolist()

    return dict(all=[arr(c) for c in full(ds)], shown=[arr(c) for c in (ds.wavelength, ds.aoi, ds.psi, ds.delta)],
                mask=np.asarray(ds.mask).astype(bool).tolist(), name=ds.name, n=len(ds), filename=str(ds.filename),
                delimiter=ds.delimiter, metadata=repr(ds.metadata), weighted=bool(ds.weighted))


def full(ds):
    """All points, masked ones included, through the public interface."""
    m = np.array(ds.mask, copy=True)
    ds.mask = np.ones(np.shape(m), dtype=bool)
    try:
        return [np.array(c, copy=True) for c in ds.data]
    finally:
        ds.mask = m


def same(a, b):
    return _eq(a, b)


def _eq(a, b):
    if isinstance(a, dict):
        return set(a) == set(b) and all(_eq(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    return a == b


def gen_read_faults(rng, maxn=6):
    """A fault plan for one loading call."""
    x = rng.random()
    if x < 0.25:
        return [dict(op="open", n=rng.choice([1, 1, 1, 2]), kind=rng.choice(OPEN_ERR + ["interrupt"]))]
    if x < 0.9:
        return [dict(op="read", n=rng.randint(1, maxn), kind=rng.choice(READ_ERR))]
    return [dict(op="close", n=1, kind="EIO")]


def no_leak(disk, what):
    left = disk.end()
    if left:
        raise Violation("file-left-open", f"{what} left {left} open")
