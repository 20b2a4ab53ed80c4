"""Which inputs the data-source constructors accept and how they expand directories."""
from vlib.common import main, fingerprint, TIER, SHARD
from vlib.sched import *
from vlib.symkeys import *

FORMATS = {"hdf5": (H5, ".h5", True), "mat": (MAT, ".mat", True), "npy": (NPY, ".npy", False)}
REFUSED = (ValueError, TypeError, OSError)


def pick(cx, name, options): return options[cx.choose(name, 0, len(options) - 1)]


def files(fmt, L, children):
    """any list of L paths over a tree with symbolic entries"""
    cls, ext, recursive = FORMATS[fmt]
    stem = "flow_" if fmt == "npy" else ""

    def h(cx):
        fs = vfs.VFS(cx)
        kind = {}

        def add(rel, hi=1):
            kind[rel] = cx.int("kind:" + rel, 0, hi)
            fs.add(rel, kind[rel])
        for c in range(children):                        # the directory d: matching files, other files
            add(f"d/{stem}{'zxy'[c]}{ext}")
        fs.add(f"d/other.txt", 1)
        if recursive:
            add(f"d/sub/y{ext}")
        fs.add("e/readme.txt", 1)                        # a directory without any matching file
        names = [f"{stem}b{ext}", "wrong.txt", "d", "e", f"{stem}a{ext}"]
        for n in (names[0], names[1]):
            add(n)
        add(names[4], 2)                                 # may be a directory despite its name
        n = cx.choose("length", 0, L)
        rel = [pick(cx, f"path{i}", names) for i in range(n)]
        randomize, loop, images = cx.flag("randomize"), cx.flag("loop"), False
        if fmt == "mat":
            images = cx.flag("include_images")
        txt = lambda: f"{fmt} scheduler, list {rel}, tree { {r: ('missing', 'file', 'directory')[int(k)] for r, k in kind.items()} if cx.concrete else '?'}, randomize={randomize}, loop={loop}"
        d = draws(cx, few=True)
        with fs, symbolic_keys(always=True), d:
            extra = {} if fmt == "hdf5" else dict(include_images=images)
            given = [fs.path(r) for r in rel]
            arg = list(given)
            try:
                s = cls(arg, randomize=randomize, loop=loop, key=jax.random.PRNGKey(0), **extra)
                got = list(s.file_list)
                count = len(s)
            except REFUSED as e:
                got, err = None, e
            # the oracle
            want, ok = [], True
            for r in rel:
                if r == "d":
                    below = [f"d/{stem}{'zxy'[c]}{ext}" for c in range(children)] + ([f"d/sub/y{ext}"] if recursive else [])
                    want += sorted(fs.path(b) for b in below if kind[b] == 1)
                elif r == "e" or kind[r] == 2:
                    continue
                else:
                    ok = And(ok, kind[r] == 1, r.endswith(ext))
                    want.append(fs.path(r))
            ok = And(ok, len(want) > 0)
            if got is None:
                cx.prove("valid-list-accepted", Not(ok), lambda: f"refused with {err!r}: {txt()}")
                return
            cx.prove("invalid-list-refused", ok, lambda: f"accepted with files {got}: {txt()}")
            if randomize:
                cx.prove("same-files", sorted(got) == sorted(want), lambda: f"files {got} instead of {want}: {txt()}")
            else:
                cx.prove("files-in-order", got == want, lambda: f"files {got} instead of {want}: {txt()}")
            cx.prove("length", count == len(want), lambda: f"length {count} for {len(want)} files: {txt()}")
            cx.prove("flags-kept", s.randomize is randomize and s.loop is loop, lambda: f"flags changed: {txt()}")
            cx.prove("argument-untouched", arg == given, lambda: f"the caller's list was changed to {arg}: {txt()}")
    return h


def types(fmt):
    """values of the wrong type"""
    cls, ext, _ = FORMATS[fmt]
    name = "flow_1" + ext

    def h(cx):
        fs = vfs.VFS(cx)
        p = fs.add(name, 1)
        what = cx.choose("argument", 0, 2 + (fmt != "hdf5"))
        lists = [[p], None, p, (p,), {p: 1}, [p, 3], [p, None], [3], [[p]], [p, p.encode()], iter([p]), {p}, 3]
        flags = [True, False, None, 1, 0, "yes", "", [], [True], 1.0, np.bool_(True)]
        kw = dict(file_list=[p], randomize=False, loop=False)
        if what == 0:
            k = cx.choose("value", 0, len(lists) - 1)
            kw["file_list"], ok = lists[k], k == 0
        else:
            k = cx.choose("value", 0, len(flags) - 1)
            arg = ("", "randomize", "loop", "include_images")[what]
            kw[arg], ok = flags[k], k < 2
            if arg == "include_images":
                fs.add("img_0.jpg", 1)
                fs.add("img_1.jpg", 1)
        d = draws(cx, few=True)
        with fs, symbolic_keys(always=True), d:
            try:
                cls(key=jax.random.PRNGKey(0), **kw)
                accepted = True
            except REFUSED:
                accepted = False
            cx.prove("types", accepted == ok, lambda: f"{fmt} scheduler {'accepts' if accepted else 'refuses'} {kw}")
    return h


def body(ck):
    q = TIER == "quick"
    runs = [(f"{f} lists", files(f, 2, 2) if q else files(f, 3, 3)) for f in FORMATS] + [(f"{f} types", types(f)) for f in FORMATS]
    ck.bounds = f"lists of up to {2 if q else 3} paths over a tree with {2 if q else 3} matching files in a directory, one in its sub-directory, other files, an unmatched directory, each entry missing / file (one also directory), every listing order pattern; 13 list-like values and 11 flag values; HDF5, MAT and NPY sources."
    for name, h in runs:
        n = symx.run(ck, h, name, key="constructor", deadline=250 if q else 1500, max_paths=400000)
        ck.sample(f"{name}: {n} paths" + (" in worker 0" if SHARD else ""))


if __name__ == "__main__":
    main("D03", body, shards=8, functions=fingerprint(BaseFlowFieldScheduler.__init__, H5.__init__, MAT.__init__, NPY.__init__),
         assumptions=["the file system answers from a virtual tree (a real temporary tree in replays)"],
         outside="deeper trees; entries of a directory that are directories named like data files; changes of the tree during construction; numpy images (D06).")
