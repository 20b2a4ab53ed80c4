"""MAT source: layout, resizing and scaling of flow and images, for every content."""
from vlib.common import main, fingerprint, TIER, SHARD
from vlib.sched import *
from checks.D04 import grid

FILTERS = [PILImage.Resampling.NEAREST, PILImage.Resampling.BILINEAR, PILImage.Resampling.BOX, PILImage.Resampling.HAMMING, PILImage.Resampling.BICUBIC, PILImage.Resampling.LANCZOS]


class Pict:
    """stands for a PIL image of arbitrary content: resampling is an uninterpreted function of the source"""

    def __init__(self, cx, a, table): self.cx, self.a, self.table = cx, a, table
    @property
    def size(self): return (self.a.shape[1], self.a.shape[0])
    width = property(lambda s: s.a.shape[1])
    height = property(lambda s: s.a.shape[0])
    mode = "F"
    def convert(self, *a, **k): return self
    def copy(self): return self

    def resize(self, size, resample=None, box=None, reducing_gap=None):
        if box is not None:
            raise Inconclusive("resize of a part of the picture")
        w, h = (int(v) for v in size)
        if (w, h) == self.size:
            return self
        return Pict(self.cx, resampled(self.cx, self.a, h, w, self.table), self.table)

    def __array__(self, dtype=None, copy=None): return self.a


def key_of(v): return z(v).sexpr() if is_sym(v) else repr(float(v))


def resampled(cx, a, h, w, table):
    k = (a.shape, tuple(key_of(v) for v in a.reshape(-1)), h, w)
    if k not in table:
        out = np.empty((h, w) + a.shape[2:], object)
        for i in grid(out.shape):
            out[i] = cx.real(f"resampled{len(table)}_{i}")
        table[k] = out
    return table[k]


def plane(cx, name, h, w, image):
    if cx.concrete:
        rng = np.random.RandomState(len(name) * 7 + ord(name[-1]))
        return rng.randint(0, 256, (h, w)).astype(np.uint8) if image else (rng.rand(h, w) * 8 - 4).astype(np.float32)
    a = np.empty((h, w), object)
    for i in grid(a.shape):
        a[i] = cx.real(f"{name}{i}")
    return a


def matches(cx, got, src, h, w, scale, table):
    """got is src resampled to (h, w) times scale"""
    got = np.asarray(got)
    if got.shape != (h, w):
        return False
    same = src.shape[:2] == (h, w)
    if cx.concrete:
        cands = [src] if same else [np.asarray(PILImage.fromarray(src).resize((w, h), f)) for f in FILTERS]
        return any(np.allclose(got.astype(float), c.astype(float) * scale, rtol=1e-4, atol=1e-3) for c in cands)
    want = src if same else resampled(cx, src, h, w, table)
    out = []
    for i in grid((h, w)):
        d, v = got[i] - want[i] * scale, want[i]
        out.append(And(d <= abs(v) * 1e-9, d >= abs(v) * -1e-9))
    return And(*out)


def contents(sizes, outs, versions):
    def h(cx):
        fs = vfs.VFS(cx)
        H, W = sizes[cx.choose("stored_size", 0, len(sizes) - 1)]
        oh, ow = outs[cx.choose("requested_size", 0, len(outs) - 1)]
        first = cx.flag("channels_first")
        cx.assume(not (H == 2 and W == 2) and not (H == 2 and not first and False))
        if first and W == 2:
            cx.assume(False)            # (2, H, 2) is ambiguous
        ih, iw = (H, W) if cx.flag("images_like_flow") else (3, 4)
        images = cx.flag("include_images")
        has = {k: cx.flag("has_" + k) for k in ("V", "I0", "I1")}
        version = versions[cx.choose("version", 0, len(versions) - 1)]
        u, v = plane(cx, "u", H, W, False), plane(cx, "v", H, W, False)
        pics = {"I0": plane(cx, "previous", ih, iw, True), "I1": plane(cx, "current", ih, iw, True)}
        data = {"V": np.stack([u, v], 0 if first else -1), **pics}
        data = {k: a for k, a in data.items() if has[k]}
        table = {}

        def w(path):
            if version == "v5":
                scipy.io.savemat(path, data or {"x": np.ones(2)}, appendmat=False)
            elif version == "v7.3":
                with h5py.File(path, "w", userblock_size=512) as o:
                    o.create_group("#refs#")
                    for k, a in data.items():
                        o.create_dataset(k, data=a)
                with open(path, "r+b") as o:            # the header MATLAB writes in front
                    o.write(b"MATLAB 7.3 MAT-file".ljust(124) + b"\x00\x02IM")
            else:
                with open(path, "wb") as o:
                    o.write(b"no data")
        p = fs.add("s.mat", 1, write=w if cx.concrete else None)

        def content(path):
            if version == "v5":
                return {"__header__": b"x", **data}
            raise (NotImplementedError("Please use HDF reader for matlab v7.3 files") if version == "v7.3" else ValueError("Unknown mat file type"))
        items = [] if cx.concrete else [(PILImage, "fromarray", lambda a, mode=None: Pict(cx, np.asarray(a), table))]
        txt = lambda: f"{version} file, flow {H}x{W} stored {'channels first' if first else 'channels last'}, images {ih}x{iw}, entries {[k for k in has if has[k]]}, include_images={images}, requested {oh}x{ow}"
        with fs, readers(cx, mat=content, h5=lambda path: {"#refs#": FakeGroup(), **{k: FakeDataset(a) for k, a in data.items()}}), patched(*items), (patched() if cx.concrete else patched((h5py, "is_hdf5", lambda q: version == "v7.3"))):
            s = MAT([p], randomize=False, loop=False, include_images=images, output_shape=(oh, ow))
            sh = tuple(int(x) for x in s.get_flow_fields_shape())
            cx.prove("reported-shape", sh == (oh, ow, 2), lambda: f"reported shape {sh}: {txt()}")
            ok = version != "garbage" and has["V"] and (not images or (has["I0"] and has["I1"]))
            try:
                b = s.get_batch(1)
            except StopIteration:
                b = None
            cx.prove("complete-files-delivered", b is not None or not ok, lambda: f"the file is not delivered: {txt()}")
            cx.prove("incomplete-files-skipped", b is None or ok, lambda: f"the file is delivered: {txt()}")
            if b is None:
                return
            fl = np.asarray(b.flow_fields)
            cx.prove("flow-shape", fl.shape == (1, oh, ow, 2), lambda: f"flow of shape {fl.shape[1:]}: {txt()}")
            cx.prove("x-component", matches(cx, fl[0, ..., 0], u, oh, ow, ow / W, table), lambda: f"component 0 is not the stored one at the requested size times {ow}/{W}: {txt()}")
            cx.prove("y-component", matches(cx, fl[0, ..., 1], v, oh, ow, oh / H, table), lambda: f"component 1 is not the stored one at the requested size times {oh}/{H}: {txt()}")
            if not images:
                cx.prove("no-images", b.images1 is None and b.images2 is None, lambda: f"images delivered without being requested: {txt()}")
                return
            for name, k in (("images1", "I0"), ("images2", "I1")):
                im = getattr(b, name)
                cx.prove(name, im is not None and matches(cx, np.asarray(im)[0], pics[k], oh, ow, 1, table), lambda: f"{name} is not the file's {k} at the requested size: {txt()}")
    return h


def body(ck):
    q = TIER == "quick"
    sizes = [(3, 4), (4, 3), (2, 3), (3, 2), (3, 3)] if q else [(a, b) for a in range(2, 6) for b in range(2, 6)]
    outs = [(3, 4), (2, 3), (3, 3), (3, 1)] if q else [(a, b) for a in range(1, 5) for b in range(1, 5)]
    ck.bounds = f"stored sizes {sizes}, requested sizes {outs}, both channel layouts (except the ambiguous (2, H, 2)), images of the flow's size or 3x4, every combination of present entries, MATLAB v5 / v7.3 / unreadable files; symbolic element values; resampling is an arbitrary function of source picture and size."
    n = symx.run(ck, contents(sizes, outs, ["v5", "v7.3", "garbage"]), "mat", key="mat", deadline=300 if q else 3000, max_paths=400000)
    ck.sample(f"{n} paths" + (" in worker 0" if SHARD else ""))


if __name__ == "__main__":
    main("D05", body, shards=8, functions=fingerprint(MAT.load_file, MAT.get_next_slice, MAT.get_flow_fields_shape),
         assumptions=["file contents are served by stand-ins of scipy.io.loadmat and h5py.File, PIL's resampling is an uninterpreted function (real files, readers and PIL in replays)"],
         outside="sizes of one pixel in the stored data (squeezed by the reader); colour images; number formats; the axis order MATLAB itself uses in v7.3 files (arrays are taken in the order h5py returns them).")
