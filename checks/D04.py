"""HDF5 source: slices of each volume, for every content."""
from vlib.common import main, fingerprint, TIER, SHARD
from vlib.sched import *


def grid(shape): return np.ndindex(*shape)


def volume(cx, name, X, Y, Z, C, tags):
    """an (X, Y, Z, C) array of arbitrary numbers (or of distinct tags)"""
    a = np.empty((X, Y, Z, C), object)
    for n, i in enumerate(grid(a.shape)):
        a[i] = (-1) ** n * (n * 37.5 + 0.125) if tags else cx.real(f"{name}{i}")
    return a.astype(np.float32) if tags or cx.concrete else a


def equal(cx, got, want, tol=1e-5):
    got = np.asarray(got)
    if got.shape != want.shape:
        return False
    if got.dtype != object and want.dtype != object:
        return bool(np.allclose(got.astype(float), want.astype(float), rtol=tol, atol=tol))
    return And(*[wrap(z(got[i]) == z(want[i])) if is_sym(got[i]) or is_sym(want[i]) else got[i] == want[i] for i in grid(got.shape)])


class counted:
    """counts element reads of datasets"""

    def __init__(self, cx, fakes):
        self.cx, self.fakes, self.n = cx, fakes, 0

    def __enter__(self):
        if self.cx.concrete:
            me = self
            g, a = h5py.Dataset.__getitem__, h5py.Dataset.__array__

            def item(s, *k, **kw):
                me.n += 1
                return g(s, *k, **kw)

            def arr(s, *k, **kw):
                me.n += 1
                return a(s, *k, **kw)
            self.p = patched((h5py.Dataset, "__getitem__", item), (h5py.Dataset, "__array__", arr))
            self.p.__enter__()
        return self

    def __exit__(self, *a):
        if self.cx.concrete:
            self.p.__exit__()
        else:
            self.n = sum(f.reads for f in self.fakes)


def contents(F, ymax, side, tags):
    def h(cx):
        fs = vfs.VFS(cx)
        X, Z, C = cx.choose("X", 1, side), cx.choose("Z", 1, side), cx.choose("C", 2, 3)
        Y = [cx.choose(f"Y{f}", 0, ymax) for f in range(F)]
        # the entries of each file in name order: True a dataset, False a group
        entries = [[cx.flag(f"first_is_dataset{f}"), True] if cx.choose(f"entries{f}", 1, 2) == 2 else [cx.flag(f"first_is_dataset{f}")] for f in range(F)]
        vols = [volume(cx, f"v{f}_", X, Y[f], Z, C, tags) for f in range(F)]
        junk = np.full((X, 1, Z, C), 9.0e4, np.float32)          # a second dataset, not to be used
        paths = []
        for f in range(F):
            def w(path, f=f):
                with h5py.File(path, "w") as o:
                    for k, d in enumerate(entries[f]):
                        if d:
                            o.create_dataset("ab"[k], data=vols[f] if k == 0 else junk)
                        else:
                            o.create_group("ab"[k])
            paths.append(fs.add(f"f{f}.h5", 1, write=w if cx.concrete else None))
        fakes = []

        def content(path):
            f = paths.index(str(path))
            out = {}
            for k, d in enumerate(entries[f]):
                out["ab"[k]] = FakeDataset(vols[f] if k == 0 else junk) if d else FakeGroup()
                if d:
                    fakes.append(out["ab"[k]])
            return out
        txt = lambda: f"shapes {[(X, y, Z, C) for y in Y]}, entries {[['dataset' if d else 'group' for d in e] for e in entries]}"
        with fs, readers(cx, h5=content):
            s = H5(list(paths), randomize=False, loop=False)
            if entries[0][0]:
                with counted(cx, fakes) as c:
                    sh = s.get_flow_fields_shape()
                cx.prove("shape", tuple(int(v) for v in sh) == (X, Z, 2), lambda: f"reported shape {sh} for {txt()}")
                cx.prove("shape-without-reading", c.n == 0, lambda: f"{c.n} reads of data to report the shape of {txt()}")
            for f in range(F):
                if not entries[f][0]:
                    continue
                for y in range(Y[f]):
                    try:
                        b = s.get_batch(1)
                    except StopIteration:
                        b = None
                    cx.prove("no-slice-missing", b is not None, lambda: f"the data ended before slice {y} of file {f}: {txt()}")
                    cx.prove("from-this-file", list(b.files) == [paths[f]], lambda: f"slice {y} of file {f} is labelled {b.files}: {txt()}")
                    cx.prove("slice-unchanged", equal(cx, np.asarray(b.flow_fields)[0], vols[f][:, y]), lambda: f"slice {y} of file {f} is {np.asarray(b.flow_fields)[0].tolist()} instead of {vols[f][:, y].tolist()}: {txt()}")
            try:
                s.get_batch(1)
                more = True
            except StopIteration:
                more = False
            cx.prove("no-slice-invented", not more, lambda: f"more than the slices of the volumes: {txt()}")
    return h


def body(ck):
    q = TIER == "quick"
    plans = [(1, 3, 2 if q else 3), (2, 1 if q else 2, 2)]
    for F, y, side in plans:
        name = f"{F} file(s)"
        kind = "every content"
        try:
            n = symx.run(ck, contents(F, y, side, False), name, key="hdf5", deadline=300 if q else 1500, max_paths=400000)
        except symx.Inconclusive as e:
            if "reached native code" not in str(e):
                raise
            kind = "distinct numbers (the code converts the number format)"
            n = symx.run(ck, contents(F, y, side, True), name, key="hdf5", deadline=300 if q else 1500, max_paths=400000)
        ck.sample(f"{name}: {n} paths" + (" in worker 0" if SHARD else "") + f", {kind}")
    ck.bounds = f"volumes with X, Z in 1..{plans[0][2]}, Y in 0..{plans[0][1]}, C in 2..3 and symbolic elements (real numbers); one and two files, each with one or two entries, the first a dataset or a group."


if __name__ == "__main__":
    main("D04", body, shards=4, functions=fingerprint(H5.load_file, H5.get_next_slice, H5.get_flow_fields_shape, BaseFlowFieldScheduler._get_next),
         assumptions=["file contents are served by stand-ins of h5py.File (real files and reader in replays)"],
         outside="larger volumes; number formats (elements are exact numbers); files changed between reads.")
