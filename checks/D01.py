"""One pass over the data: every slice once, in order, correctly labelled and padded."""
from vlib.common import main, fingerprint, TIER, SHARD
from vlib.sched import *

READABLE, BROKEN, NO_DATASET = 0, 1, 2


def tag(f, y): return float(100000 * (f + 1) + y + 1)


def mat_value(item, j): return item[0] + (0.25, 0.5)[j]
def jpg_value(item, j): return 40.0 * (item[0] // 100000) + 15.0 * j


def check_batch(cx, b, size, want, info, images=None):
    """want: list of (value, path) of the real items"""
    k = len(want)
    fl = np.asarray(b.flow_fields)
    cx.prove("batch-shape", fl.ndim == 4 and fl.shape[0] == size and fl.shape[3] == 2, info(lambda: f"flow batch of shape {fl.shape} for batch size {size}"))
    vals = [fl[i].reshape(-1).tolist() for i in range(size)]
    cx.prove("flows-in-order", all(set(vals[i]) == {want[i][0]} for i in range(k)), info(lambda: f"flows {vals} instead of {[w[0] for w in want]}"))
    cx.prove("padding-is-zero", all(set(vals[i]) == {0.0} for i in range(k, size)), info(lambda: f"padding is not zero: {vals}"))
    m = None if b.mask is None else np.asarray(b.mask).tolist()
    cx.prove("mask-exact", m == [i < k for i in range(size)], info(lambda: f"mask {m} for {k} real items of {size}"))
    files = None if b.files is None else list(b.files)
    cx.prove("labels", files == [w[1] for w in want] + [""] * (size - k), info(lambda: f"file names {files} instead of {[w[1] for w in want]}"))
    if images:
        for j, name in enumerate(("images1", "images2")):
            im = getattr(b, name)
            cx.prove(name + "-present", im is not None and np.asarray(im).shape[0] == size, info(lambda: f"{name} missing"))
            v = [sorted(set(np.asarray(im, np.float64)[i].reshape(-1).tolist())) for i in range(size)]
            good = lambda i: all(abs(x - (images(want[i], j) if i < k else 0.0)) <= (3 if images is jpg_value and i < k else 0) for x in v[i])
            cx.prove(name + "-stay-with-flow", all(good(i) for i in range(size)), info(lambda: f"{name} {v} for flows {[w[0] for w in want]}"))
    else:
        cx.prove("no-images", b.images1 is None and b.images2 is None, info(lambda: "images were invented"))


def listing(cx, F):
    """which distinct file each list position names (restricted growth: every equality pattern)"""
    ids = []
    for i in range(F):
        ids.append(cx.choose(f"file{i}_is", 0, max(ids) + 1 if ids else 0))
    return ids


def slices_left(cx, fs, quality, n, ids):
    """the expected stream, lazily: yields (file, y)"""
    for f in ids:
        if quality[f] != READABLE:
            continue
        y = 0
        while y < n[f]:
            yield f, y
            y += 1


def drain(cx, s, sizes, stream, paths, describe, images=None, extra=2):
    """request batches until the end; every request is compared with the expected stream"""
    done = 0
    i = 0
    while done < extra:
        size = sizes(i)
        i += 1
        want = []
        for f, y in stream:
            want.append((tag(f, y), paths[f]))
            if len(want) == size:
                break
        info = lambda w: (lambda: f"{w()} (request {i} of size {size}; {describe()})")
        try:
            b = s.get_batch(size)
        except StopIteration:
            cx.prove("no-early-end", not want, info(lambda: f"end of data although {want} is left"))
            done += 1
            continue
        cx.prove("ends", bool(want), info(lambda: "a batch was delivered after the end of the data"))
        check_batch(cx, b, size, want, info, images)


def hdf5(F, nmax, mixed):
    def h(cx):
        fs = vfs.VFS(cx)
        ids = listing(cx, F)
        K = max(ids) + 1
        n = [cx.int(f"slices{f}", 0, nmax) for f in range(K)]
        quality = [cx.choose(f"quality{f}", 0, 2) for f in range(K)]
        paths = []
        for f in range(K):
            if cx.concrete:
                w = {READABLE: write_h5(np.stack([np.full((1, 1, 2), tag(f, y), np.float32) for y in range(n[f])], 1) if n[f] else np.zeros((1, 0, 1, 2), np.float32)),
                     BROKEN: garbage, NO_DATASET: write_h5_group}[quality[f]]
            paths.append(fs.add(f"d{f % 2}/f{f}.h5", 1, write=w if cx.concrete else None))

        def content(path):
            f = paths.index(str(path))
            if quality[f] == BROKEN:
                raise OSError("cannot read")
            if quality[f] == NO_DATASET:
                return {"a_group": FakeGroup()}
            return {"flow": FakeDataset(Vol(n[f], lambda y: np.full((1, 1, 2), tag(f, y), np.float32), (1, 1, 2)))}
        with fs, readers(cx, h5=content):
            s = H5([paths[f] for f in ids], randomize=False, loop=False)
            size = None if mixed else cx.choose("batch_size", 1, 4)
            sizes = lambda i: size or cx.choose(f"size{i}", 1, 2 if i else 3)
            describe = lambda: f"files {[os.path.basename(paths[f]) for f in ids]}, slices {[int(x) if not is_sym(x) else '?' for x in n]}, quality {quality}"
            drain(cx, s, sizes, slices_left(cx, fs, quality, n, ids), paths, describe)
    return h


def mat(F):
    """single-slice files with images"""
    def h(cx):
        fs = vfs.VFS(cx)
        ids = listing(cx, F)
        K = max(ids) + 1
        quality = [cx.choose(f"quality{f}", 0, 2) for f in range(K)]
        images = cx.flag("include_images")

        def data(f):
            v = tag(f, 0)
            d = dict(V=np.full((2, 3, 2), v, np.float32), I0=np.full((2, 3), v + 0.25, np.float32), I1=np.full((2, 3), v + 0.5, np.float32))
            if quality[f] == NO_DATASET:
                d.pop("V")
            return d
        paths = [fs.add(f"f{f}.mat", 1, write=(lambda p, f=f: garbage(p) if quality[f] == BROKEN else scipy.io.savemat(p, data(f), appendmat=False)) if cx.concrete else None) for f in range(K)]

        def content(path):
            f = paths.index(str(path))
            if quality[f] == BROKEN:
                raise ValueError("Unknown mat file type")
            return data(f)
        with fs, readers(cx, mat=content):
            s = MAT([paths[f] for f in ids], randomize=False, loop=False, include_images=images, output_shape=(2, 3))
            size = cx.choose("batch_size", 1, 3)
            describe = lambda: f"files {[os.path.basename(paths[f]) for f in ids]}, quality {quality}, include_images={images}"
            drain(cx, s, lambda i: size, slices_left(cx, fs, quality, [1] * K, ids), paths, describe, mat_value if images else None)
    return h


def npy(F):
    """single-slice files with colour images"""
    def h(cx):
        fs = vfs.VFS(cx)
        ids = listing(cx, F)
        K = max(ids) + 1
        quality = [cx.choose(f"quality{f}", 0, 1) for f in range(K)]
        images = cx.flag("include_images")
        flow = lambda f: np.full((2, 3, 2), tag(f, 0), np.float32)
        pix = lambda f, j: np.full((8, 8, 3), jpg_value((tag(f, 0),), j), np.uint8)
        paths = []
        for f in range(K):
            def wf(p, f=f):
                if quality[f] == BROKEN:
                    garbage(p)
                else:
                    with open(p, "wb") as o:
                        np.save(o, flow(f))
            paths.append(fs.add(f"s{f}/flow_1.npy", 1, write=wf if cx.concrete else None))
            for j in range(2):
                fs.add(f"s{f}/img_{j}.jpg", 1, write=(lambda p, f=f, j=j: PILImage.fromarray(pix(f, j)).save(p, "JPEG", quality=95)) if cx.concrete else None)

        def content(path):
            f = paths.index(str(path))
            if quality[f] == BROKEN:
                raise ValueError("cannot load")
            return flow(f)

        def picture(path):
            f = paths.index(os.path.join(os.path.dirname(str(path)), "flow_1.npy"))
            return PILImage.fromarray(pix(f, int(os.path.basename(str(path))[4:-4])))
        with fs, readers(cx, npy=content, img=picture):
            s = NPY([paths[f] for f in ids], randomize=False, loop=False, include_images=images)
            size = cx.choose("batch_size", 1, 3)
            describe = lambda: f"files {[os.path.relpath(paths[f], fs.root) for f in ids]}, quality {quality}, include_images={images}"
            drain(cx, s, lambda i: size, slices_left(cx, fs, quality, [1] * K, ids), paths, describe, jpg_value if images else None)
    return h


def body(ck):
    q = TIER == "quick"
    runs = [("hdf5, constant batch size", hdf5(3, 2 if q else 4, False)), ("hdf5, mixed batch sizes", hdf5(2, 3 if q else 4, True)), ("mat", mat(3 if q else 4)), ("npy", npy(3 if q else 4)), ("hdf5, large files", hdf5(1, 6 if q else 12, False))]
    if not q:
        runs.append(("hdf5, four files", hdf5(4, 2, False)))
    ck.bounds = f"lists of up to {3 if q else 4} positions with every equality pattern, each distinct file readable / unreadable / without dataset, symbolic slice counts up to {2 if q else 4} (one file: {6 if q else 12}); batch sizes 1-4 constant and 1-3 mixed; image sources with {3 if q else 4} files."
    for name, h in runs:
        n = symx.run(ck, h, name, key="pass", deadline=250 if q else 1500, max_paths=400000)
        ck.sample(f"{name}: {n} paths" + (" in worker 0" if SHARD else ""))


if __name__ == "__main__":
    main("D01", body, functions=fingerprint(BaseFlowFieldScheduler.__init__, BaseFlowFieldScheduler._get_next, BaseFlowFieldScheduler.get_batch, H5.load_file, H5.get_next_slice, MAT.load_file, MAT.get_next_slice, NPY.load_file, NPY.get_next_slice),
         assumptions=["file contents are served by stand-ins of h5py.File / scipy.io.loadmat for virtual files (real files and readers in replays)"],
         outside="longer lists, more slices; files whose slices differ in shape; files that change between reads.")
