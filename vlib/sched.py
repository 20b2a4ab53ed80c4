"""Harness parts for data sources: virtual files plus stand-ins for the file readers.

Symbolic runs: h5py.File, scipy.io.loadmat, numpy.load and PIL.Image.open answer for virtual files.
Concrete replays: real files with the model's content are written and the real readers are used."""
import os
from . import repo
from .repo import jax, jnp, np
from . import symx, vfs
from .symx import *
import h5py, scipy.io, PIL.Image as PILImage
import synthpix.scheduler.base as base_mod
import synthpix.scheduler.hdf5 as hdf5_mod
import synthpix.scheduler.mat as mat_mod
import synthpix.scheduler.numpy as npy_mod
import synthpix.scheduler.episodic as epi_mod
from synthpix.scheduler import *
from synthpix.scheduler.protocol import *
from synthpix.types import SchedulerData

H5 = HDF5FlowFieldScheduler
MAT = MATFlowFieldScheduler
NPY = NumpyFlowFieldScheduler


class Vol:
    """an array whose axis 1 has symbolic length; value at y given by at(y) (an array without that axis)"""

    def __init__(self, n, at, rest):
        self.n, self.at, self.rest = n, at, rest      # rest: shape without axis 1

    @property
    def shape(self): return (self.rest[0], self.n) + tuple(self.rest[1:])
    @property
    def ndim(self): return 1 + len(self.rest)
    @property
    def dtype(self): return np.dtype("float32")
    def __len__(self): return self.rest[0]

    def __getitem__(self, k):
        if k is Ellipsis or k == ():
            return self
        full = list(k) if isinstance(k, tuple) else [k]
        if Ellipsis in full:
            i = full.index(Ellipsis)
            full[i:i + 1] = [slice(None)] * (self.ndim - len(full) + 1)
        full += [slice(None)] * (self.ndim - len(full))
        if all(isinstance(s, slice) and s == slice(None) for s in full):
            return self
        y = full[1]
        if isinstance(y, slice):
            return self.dense()[tuple(full)]
        if y < 0:
            y = y + self.n
        if Or(y < 0, y >= self.n):
            raise IndexError(f"index {y} is out of bounds for axis 1")
        a = self.at(y)
        return a[tuple(s for i, s in enumerate(full) if i != 1)]

    def dense(self):
        m = int(self.n)
        return np.stack([np.asarray(self.at(y)) for y in range(m)], axis=1) if m else np.zeros((self.rest[0], 0) + tuple(self.rest[1:]), np.float32)

    def __array__(self, dtype=None, copy=None): return np.asarray(self.dense(), dtype=dtype)
    def __getattr__(self, a):
        if a.startswith("__") or a in ("at", "n", "rest"):
            raise AttributeError(a)
        return getattr(self.dense(), a)


class FakeDataset:
    """stands for h5py.Dataset; counts reads"""

    def __init__(self, data): self.data, self.reads = data, 0
    @property
    def shape(self): return self.data.shape
    @property
    def ndim(self): return len(self.data.shape)
    @property
    def dtype(self): return self.data.dtype
    def __len__(self): return self.data.shape[0]
    def __getitem__(self, k):
        self.reads += 1
        return self.data[k]
    def __array__(self, dtype=None, copy=None):
        self.reads += 1
        return np.asarray(self.data, dtype=dtype)


class FakeGroup(dict):
    """stands for h5py.Group / an open h5py.File (a mapping in name order)"""

    def __enter__(self): return self
    def __exit__(self, *a): pass
    def close(self): pass
    def __iter__(self): return iter(sorted(dict.keys(self)))
    def keys(self): return sorted(dict.keys(self))
    def values(self): return [self[k] for k in self.keys()]
    def items(self): return [(k, self[k]) for k in self.keys()]
    def visititems(self, f):
        for k, v in self.items():
            f(k, v)


class readers:
    """patched readers: content(path) -> FakeGroup / dict / array or raises; only in symbolic runs"""

    def __init__(self, cx, h5=None, mat=None, npy=None, img=None):
        self.cx, self.h5, self.mat, self.npy, self.img = cx, h5, mat, npy, img

    def __enter__(self):
        items = []
        if not self.cx.concrete:
            if self.h5:
                h5 = self.h5

                class File(FakeGroup):
                    def __init__(self, path, mode="r", *a, **k):
                        super().__init__(h5(path))
                for n, v in (("File", File), ("Dataset", FakeDataset), ("Group", FakeGroup)):
                    items.append((h5py, n, v))
                items.append((h5py, "is_hdf5", lambda p: True))
            if self.mat:
                items.append((scipy.io, "loadmat", lambda path, *a, **k: dict(self.mat(path))))
                items.append((h5py, "is_hdf5", lambda p: False))
            if self.npy:
                items.append((np, "load", lambda path, *a, **k: self.npy(path)))
            if self.img:
                items.append((PILImage, "open", lambda path, *a, **k: self.img(path)))
        self.p = patched(*items)
        self.p.__enter__()
        return self

    def __exit__(self, *a):
        self.p.__exit__()


def write_h5(data):
    def w(path):
        with h5py.File(path, "w") as f:
            f.create_dataset("flow", data=data)
    return w


def write_h5_group(path):
    with h5py.File(path, "w") as f:
        f.create_group("a_group")


def garbage(path):
    with open(path, "wb") as f:
        f.write(b"this is not a data file")
