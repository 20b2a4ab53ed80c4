"""Speed bounds: exact extremes of each component, for every content of the files."""
import tempfile, shutil
from vlib.common import main, fingerprint, TIER, SHARD
from vlib.sched import *
from checks.D04 import grid
import synthpix.sanity as sanity
FN = sanity.calculate_min_and_max_speeds
HANDLED = {}


class Arr(np.ndarray):
    """object array of symbolic numbers whose extremes are terms"""

    def __array_finalize__(self, o): pass
    def astype(self, *a, **k): return self.copy()

    def _ext(self, which, axis=None, out=None, keepdims=False, initial=None, where=None):
        pick = symx.SHADOW[which]
        if axis is None:
            flat = list(np.asarray(self, object).reshape(-1))
            if not flat:
                raise ValueError("zero-size array to reduction operation which has no identity")
            return pick(*flat) if len(flat) > 1 else flat[0]
        ax = axis if isinstance(axis, tuple) else (axis,)
        ax = tuple(a % self.ndim for a in ax)
        keep = [i for i in range(self.ndim) if i not in ax]
        m = np.asarray(self, object).transpose(keep + list(ax)).reshape([self.shape[i] for i in keep] + [-1])
        r = np.empty(m.shape[:-1], object)
        for i in np.ndindex(r.shape):
            r[i] = pick(*m[i]) if len(m[i]) > 1 else m[i][0]
        r = r.view(Arr)
        return r.reshape([1 if i in ax else self.shape[i] for i in range(self.ndim)]) if keepdims else r if r.ndim else r[()]

    def max(self, *a, **k): return self._ext("max", *a, **k)
    def min(self, *a, **k): return self._ext("min", *a, **k)
    def __float__(self): raise Inconclusive("symbolic array to float")

    def __array_function__(self, func, types, args, kwargs):
        n = func.__name__
        if n in ("max", "amax", "nanmax", "min", "amin", "nanmin"):
            return args[0]._ext("max" if "max" in n else "min", *args[1:], **kwargs)
        if n == "ptp":
            raise Inconclusive(n)
        return super().__array_function__(func, types, args, kwargs)

    def __array_ufunc__(self, ufunc, method, *ins, **k):
        if ufunc in (np.maximum, np.minimum, np.fmax, np.fmin):
            pick = symx.SHADOW["max" if "max" in ufunc.__name__ else "min"]
            if method == "reduce":
                return Arr._ext(ins[0].view(Arr), "max" if "max" in ufunc.__name__ else "min", **{a: b for a, b in k.items() if a in ("axis", "keepdims")})
            a, b = np.broadcast_arrays(*[np.asarray(x, object) for x in ins])
            r = np.empty(a.shape, object)
            for i in np.ndindex(r.shape):
                r[i] = pick(a[i], b[i])
            return r.view(Arr)
        r = getattr(ufunc, method)(*[x.view(np.ndarray) if isinstance(x, Arr) else x for x in ins], **k)
        return r.view(Arr) if isinstance(r, np.ndarray) and r.dtype == object else r


def array_of(orig):
    def f(x, *a, **k):
        if isinstance(x, FakeDataset):
            return x[()]
        return x if isinstance(x, Arr) else orig(x, *a, **k)
    return f


def shapes():
    """layouts: 4-D and 3-D with two components are measured, everything else is refused"""
    q = TIER == "quick"
    out = [((2, 1, 2, 2), 1), ((1, 2, 1, 3), 1), ((1, 1, 1, 2), 1), ((2, 2, 2), 1), ((1, 3, 2), 1), ((2, 1, 2), 1), ((2, 2, 1, 4), 1)]
    if not q:
        out += [((2, 2, 2, 2), 1), ((2, 2, 1, 3), 1), ((3, 2, 2), 1), ((1, 1, 3, 2), 1)]
    out += [((2, 2, 3), 0), ((2, 2, 1), 0), ((2, 2), 0), ((2,), 0), ((), 0), ((1, 1, 1, 1, 2), 0), ((1, 2, 1, 1), 0), ((2, 2, 4), 0)]
    return out


def harness(F):
    def h(cx):
        S = shapes()
        ks = [cx.choose(f"layout{f}", -1, len(S) - 1) for f in range(F)]         # -1: no dataset but a group
        vols = []
        for f, k in enumerate(ks):
            a = np.empty(S[k][0] if k >= 0 else (1,), object)
            for i in grid(a.shape):
                a[i] = cx.real(f"v{f}{i}")
            vols.append(a.astype(np.float64) if cx.concrete else a.view(Arr))
        paths = [f"f{f}.h5" for f in range(F)]
        t = tempfile.mkdtemp(prefix="c04") if cx.concrete else None
        if t:
            for f, p in enumerate(paths):
                paths[f] = os.path.join(t, p)
                (write_h5_group if ks[f] < 0 else write_h5(vols[f]))(paths[f])

        def content(path):
            f = paths.index(str(path))
            return {"flow": FakeDataset(vols[f]) if ks[f] >= 0 else FakeGroup()}
        extra = [] if cx.concrete else [(np, "array", array_of(np.array)), (np, "asarray", array_of(np.asarray)), (np, "nanmax", lambda x, *a, **k: np.max(x, *a, **k)), (np, "nanmin", lambda x, *a, **k: np.min(x, *a, **k))]
        try:
            with readers(cx, h5=content), patched((sanity, "tqdm", lambda x, *a, **k: x), *extra):
                try:
                    r = FN(list(paths))
                except (ValueError, TypeError, IndexError, KeyError, AttributeError) as e:
                    if isinstance(e, AttributeError) and "Arr" in str(e):
                        raise Inconclusive(repr(e))
                    r, why = None, e
        finally:
            if t:
                shutil.rmtree(t)
        ok = all(k >= 0 and S[k][1] for k in ks)
        lay = [S[k][0] if k >= 0 else "group" for k in ks]
        if not ok:
            cx.prove("unsupported-layout-refused", r is None, lambda: f"measured {r} from layouts {lay}")
            return
        cx.prove("supported-layout-measured", r is not None, lambda: f"{why!r} for layouts {lay}")
        cx.prove("four-bounds", sorted(r) == ["max_speed_x", "max_speed_y", "min_speed_x", "min_speed_y"], lambda: f"{sorted(r)}")
        show = lambda: f"{r} for files {[np.asarray(v).tolist() for v in vols]}"
        tol = 1e-6 if cx.concrete else 0
        for c, axis in ((0, "x"), (1, "y")):
            vals = [x for v in vols for x in np.asarray(v)[..., c].reshape(-1)]
            M, m = r["max_speed_" + axis], r["min_speed_" + axis]
            if isinstance(M, float) and not np.isfinite(M) or isinstance(m, float) and not np.isfinite(m):
                cx.prove("bounds-finite", False, show)
            cx.prove("nothing-outside", And(*[And(x <= M + tol, x >= m - tol) for x in vals]), show)
            cx.prove("bounds-attained", And(Or(*[abs(x - M) <= tol for x in vals]), Or(*[abs(x - m) <= tol for x in vals])), show)
    return h


def body(ck):
    for F in (1, 2) if TIER == "quick" else (1, 2, 3):
        symx.run(ck, harness(F), f"{F}-files", key="speeds", deadline=400 if TIER == "quick" else 3000)
    ck.bounds = f"1..{2 if TIER == 'quick' else 3} files, each of any of {len(shapes())} layouts (4-D with 2 to 4 components, 3-D with 2, unsupported ones of 0 to 5 dimensions) or a group instead of a dataset, with up to 16 arbitrary real numbers each"
    ck.sample("layouts " + str([s for s, _ in shapes()]) + (" in worker 0" if SHARD else ""))


if __name__ == "__main__":
    main("C04", body, shards=4, functions=fingerprint(FN),
         assumptions=["h5py is replaced by a stand-in holding symbolic numbers (real files in replays); numpy's max and min are terms"],
         outside=["NaN or infinite speeds", "files without data or with several datasets", "rounding when float32 data is converted (exact)"])
