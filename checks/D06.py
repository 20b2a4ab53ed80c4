"""NPY source: flow files paired with the images before and after them."""
from vlib.common import main, fingerprint, TIER, SHARD
from vlib.sched import *
from checks.D03 import REFUSED


def jpg(v):
    return lambda p: PILImage.fromarray(np.full((8, 8, 3), v, np.uint8)).save(p, "JPEG", quality=95)


def npy(v):
    def w(p):
        with open(p, "wb") as o:
            np.save(o, np.full((2, 3, 2), v, np.float32))
    return w


class Tree:
    """flow files and images with a value each"""

    def __init__(self, cx):
        self.cx, self.fs = cx, vfs.VFS(cx)
        self.flow, self.image = {}, {}

    def add_flow(self, rel, kind=1):
        v = 100.0 + len(self.flow)
        p = self.fs.add(rel, kind, write=npy(v) if self.cx.concrete else None)
        self.flow[p] = v
        return p

    def add_image(self, rel, kind):
        p = self.fs.path(rel)
        if p in self.image:
            return
        v = 20 + 12 * len(self.image)
        self.fs.add(rel, kind, write=jpg(v) if self.cx.concrete else None)
        self.image[p] = v

    def open(self):
        def load(path): return np.full((2, 3, 2), self.flow[str(path)], np.float32)

        def picture(path):
            os.stat(path)
            return PILImage.fromarray(np.full((8, 8, 3), self.image[str(path)], np.uint8))
        return readers(self.cx, npy=load, img=picture)


def near(a, v): return a is not None and bool(np.all(np.abs(np.asarray(a, float) - v) <= 3))


def numbered(n, dirs):
    """well-named files with any frame number, images present or not"""
    def h(cx):
        t = Tree(cx)
        base = cx.int("frame", 0, None if not cx.concrete else None)
        if cx.concrete:
            cx.assume(base < 10 ** 12)
        files = []
        for i in range(n):
            d = dirs[cx.choose(f"folder{i}", 0, len(dirs) - 1)]
            k = base + cx.choose(f"offset{i}", 0, 2)
            files.append((d, k))
        names = [f"{d}/flow_{k}.npy" for d, k in files]
        paths = [t.add_flow(m) if t.fs.path(m) not in t.flow else t.fs.path(m) for m in names]
        have = {}
        for d in sorted({d for d, _ in files}):
            for o in range(-1, 3):
                r = f"{d}/img_{base + o}.jpg"
                have[d, o] = cx.int(f"image {d} {o}", 0, 1)
                t.add_image(r, have[d, o])
        images = cx.flag("include_images")
        txt = lambda: f"files {[os.path.relpath(p, t.fs.root) for p in paths]}, images {sorted(os.path.relpath(p, t.fs.root) for p in t.image if os.path.isfile(p))}, include_images={images}"
        run(cx, t, paths, images, True if not images else And(*[t_exists(t, d, k - 1) for d, k in files], *[t_exists(t, d, k) for d, k in files]), [(f"{d}/img_{k - 1}.jpg", f"{d}/img_{k}.jpg") for d, k in files], txt)
    return h


def t_exists(t, d, k):
    n = t.fs.path(f"{d}/img_{k}.jpg")
    if n not in t.image:
        return False
    node = t.fs._find(n)
    return node.kind == 1


def run(cx, t, paths, images, ok, pairs, txt):
    with t.fs, t.open():
        try:
            s = NPY(list(paths), randomize=False, loop=False, include_images=images)
        except REFUSED as e:
            cx.prove("valid-files-accepted", Not(ok), lambda: f"refused with {e!r}: {txt()}")
            return
        cx.prove("unpaired-files-refused", ok, lambda: f"accepted: {txt()}")
        for i, p in enumerate(paths):
            try:
                b = s.get_batch(1)
            except StopIteration:
                b = None
            cx.prove("one-flow-per-file", b is not None and list(b.files) == [p] and set(np.asarray(b.flow_fields).reshape(-1).tolist()) == {t.flow[p]}, lambda: f"item {i} is not the flow of file {i}: {txt()}")
            if images:
                a, c = t.image[t.fs.path(pairs[i][0])], t.image[t.fs.path(pairs[i][1])]
                cx.prove("first-image", near(b.images1, a), lambda: f"first image of item {i} is not the one before the flow: {txt()}")
                cx.prove("second-image", near(b.images2, c), lambda: f"second image of item {i} is not the one after the flow: {txt()}")
            else:
                cx.prove("no-images", b.images1 is None and b.images2 is None, lambda: f"images delivered without being requested: {txt()}")
        try:
            s.get_batch(1)
            more = True
        except StopIteration:
            more = False
        cx.prove("nothing-else", not more, lambda: f"more than one item per file: {txt()}")
        sh = tuple(s.get_flow_fields_shape())
        cx.prove("shape", sh == (2, 3, 2), lambda: f"reported shape {sh}")


NAMES = [("flow_0.npy", 0), ("flow_7.npy", 7), ("flow_007.npy", 7), ("flow_100.npy", 100), ("flow_x.npy", None), ("flow_.npy", None), ("flow_-1.npy", None), ("flow_1_2.npy", None), ("xflow_1.npy", None),
         ("flow_1.npy.npy", None), ("flow_1x.npy", None), ("flow1.npy", None), ("Flow_1.npy", None), ("flow_1.5.npy", None), ("flow_ 1.npy", None), ("img_1.npy", None)]


def named(cx):
    """file names of every shape"""
    t = Tree(cx)
    k = cx.choose("name", 0, len(NAMES) - 1)
    second = cx.flag("after_a_good_file")
    name, num = NAMES[k]
    paths = [t.add_flow("a/flow_3.npy")] if second else []
    paths.append(t.add_flow("a/" + name))
    for o in (-1, 0, 1, 2, 3, 6, 7, 99, 100):
        t.add_image(f"a/img_{o}.jpg", 1 if cx.concrete else 1)
    images = cx.flag("include_images")
    ok = not images or num is not None
    pairs = ([("a/img_2.jpg", "a/img_3.jpg")] if second else []) + [(f"a/img_{num - 1}.jpg", f"a/img_{num}.jpg") if num is not None else None]
    run(cx, t, paths, images, ok, pairs, lambda: f"files {[os.path.basename(p) for p in paths]}, all images present, include_images={images}")


def body(ck):
    q = TIER == "quick"
    runs = [("one file", numbered(1, ["a"])), ("two files", numbered(2, ["a", "b"])), ("names", named)]
    if not q:
        runs.append(("three files", numbered(3, ["a", "b"])))
    ck.bounds = f"one {'and two' if q else 'to three'} flow files in up to two folders with any frame number (unbounded symbolic integer) and each image present or missing; {len(NAMES)} shapes of file names."
    for name, h in runs:
        n = symx.run(ck, h, name, key="npy", deadline=300 if q else 1500, max_paths=400000)
        ck.sample(f"{name}: {n} paths" + (" in worker 0" if SHARD else ""))


if __name__ == "__main__":
    main("D06", body, shards=4, functions=fingerprint(NPY.__init__, NPY.load_file, NPY.get_next_slice, NPY.get_flow_fields_shape),
         assumptions=["numpy.load and PIL.Image.open are served by stand-ins for virtual files (real files and readers in replays)", "frame numbers in file names are decimal without leading zeros where symbolic"],
         outside="images that vanish after construction; non-ASCII digits.")
