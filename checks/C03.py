"""The factory: what every part is built with, which settings are accepted, and that a first batch can be drawn."""
import contextlib, inspect, io, json, os, shutil, tempfile
import rich.console
from vlib.common import main, fingerprint, TIER
from vlib.samp import *
from vlib.symkeys import *
from vlib import symx
import importlib
import synthpix
from synthpix.scheduler import HDF5FlowFieldScheduler as H5, MATFlowFieldScheduler as MAT, NumpyFlowFieldScheduler as NPY
make_mod = importlib.import_module("synthpix.make")
MAKE = make_mod.make
KINDS = {".h5": H5, ".mat": MAT, ".npy": NPY}
SPECF = ["batch_size", "image_shape", "img_offset", "seeding_density_range", "p_hide_img1", "p_hide_img2", "diameter_ranges", "diameter_var", "intensity_ranges", "intensity_var",
         "rho_ranges", "rho_var", "dt", "noise_uniform", "noise_gaussian_mean", "noise_gaussian_std"]
SYNF = ["batches_per_flow_batch", "flow_fields_per_batch", "flow_field_size", "resolution", "velocities_per_pixel", "seed", "max_speed_x", "max_speed_y", "min_speed_x", "min_speed_y", "output_units"]

VALUES = dict(image_shape=[4, 4], img_offset=[1.0, 1.0], seeding_density_range=[0.1, 0.1], p_hide_img1=0.0, p_hide_img2=0.0, diameter_ranges=[[1.0, 1.0]], diameter_var=0.0, intensity_ranges=[[100, 200]],
              intensity_var=0.0, rho_ranges=[[0.0, 0.5]], rho_var=0.0, dt=1.0, noise_uniform=0.0, noise_gaussian_mean=0.0, noise_gaussian_std=0.0, flow_field_size=[64.0, 64.0], resolution=1.0,
              velocities_per_pixel=1.0, max_speed_x=0.0, max_speed_y=0.0, min_speed_x=0.0, min_speed_y=0.0, output_units="pixels", seed=0)


def quiet(f, *a, **k):
    with patched((rich.console.Console, "print", lambda *a, **k: None)):
        return f(*a, **k)


class Recorder:
    """constructors of the parts recorded with their arguments (bound to the real signatures)"""

    def __init__(self):
        self.made = []

    def init(self, cls):
        sig = inspect.signature(cls.__init__)
        me = self

        def __init__(self_, *a, **k):
            b = sig.bind(self_, *a, **k)
            b.apply_defaults()
            d = dict(b.arguments)
            d.pop("self")
            me.made.append((type(self_), self_, d))
            self_.__dict__["_args"] = d
            if cls in (EPI, PRE):
                self_.__dict__["scheduler"] = d["scheduler"]
        return __init__

    @contextlib.contextmanager
    def on(self):
        classes = [BASE, H5, MAT, NPY, EPI, PRE, SYN, REAL]
        items = [(c, "__init__", self.init(c)) for c in classes if "__init__" in vars(c)]
        if "__del__" in vars(PRE):
            items.append((PRE, "__del__", lambda s: None))
        # whatever make() may ask the parts for
        for c in (H5, MAT, NPY, EPI, PRE):
            for n in ("get_flow_fields_shape",):
                if n in vars(c):
                    items.append((c, n, lambda s: (4, 4, 2)))
        with patched(*items):
            yield

    def one(self, *cls):
        r = [x for x in self.made if x[0] in cls]
        return r[0] if len(r) == 1 else None

    def count(self, *cls): return sum(1 for x in self.made if x[0] in cls)


def config(cx, real, numbers=True):
    """a valid configuration with symbolic numbers"""
    q = cx.real
    d = dict(scheduler_class=[".h5", ".mat", ".npy"][cx.choose("class", 0, 2)] if not real else ".mat",
             batch_size=cx.int("batch_size", 1), flow_fields_per_batch=cx.int("flow_fields_per_batch", 1), seed=cx.int("seed", 0))
    if cx.concrete:
        cx.assume(d["seed"] < 2 ** 31)
    cx.assume(d["flow_fields_per_batch"] <= d["batch_size"])
    if real:
        d["include_images"] = True
    else:
        d["batches_per_flow_batch"] = cx.int("batches_per_flow_batch", 1)
        if not numbers:
            return {**VALUES, **d}
        pair = lambda n, *b: [q(n + "0", *b), q(n + "1", *b)]
        d.update(image_shape=[cx.int("h", 1), cx.int("w", 1)], img_offset=pair("off", 0), seeding_density_range=pair("dens", 0), p_hide_img1=q("p1", 0, 1), p_hide_img2=q("p2", 0, 1),
                 diameter_ranges=[pair("dia", 1), pair("dib", 1)], diameter_var=q("dv", 0), intensity_ranges=[pair("int", 1)], intensity_var=q("iv", 0), rho_ranges=[pair("rho")],
                 rho_var=q("rv", 0), dt=q("dt", 1), noise_uniform=q("nu", 0), noise_gaussian_mean=q("nm", 0), noise_gaussian_std=q("ns", 0),
                 flow_field_size=pair("ffs", 1), resolution=q("res", 1), velocities_per_pixel=q("vpp", 1), max_speed_x=q("Mx"), max_speed_y=q("My"), min_speed_x=q("mx"), min_speed_y=q("my"),
                 output_units=["pixels", "measure units per second"][cx.choose("units", 0, 1)])
        for f in ("seeding_density_range", "rho_ranges"):
            a, b = d[f] if f != "rho_ranges" else d[f][0]
            cx.assume(a <= b)
        for a, b in d["diameter_ranges"] + d["intensity_ranges"]:
            cx.assume(a <= b)
        cx.assume(And(d["rho_ranges"][0][0] > -1, d["rho_ranges"][0][1] < 1))
    return d


def eq(a, b):
    """equal content (sequences of any type)"""
    if isinstance(b, (list, tuple)):
        return len(a) == len(b) and And(*[eq(x, y) for x, y in zip(a, b)]) if isinstance(a, (list, tuple)) else False
    if isinstance(b, bool) or b is None or isinstance(b, str):
        return a is b or (type(a) is type(b) and a == b)
    if a is None or isinstance(a, (str, list, tuple)):
        return False
    return a == b


def assembled(cx):
    """what every part receives, for every combination of settings"""
    real = cx.flag("include_images")
    d = config(cx, real)
    files = ["a" + d["scheduler_class"], "b" + d["scheduler_class"]]
    given = {}
    mode = cx.choose("optional settings", 0, 3)
    if mode in (0, 1):
        given["file_list"] = files
    if mode in (0, 2):
        given["randomize"] = cx.flag("randomize")
        given["loop"] = cx.flag("loop")
    if cx.flag("has episode_length"):
        given["episode_length"] = cx.int("episode_length", 0)
    if cx.flag("has buffer_size"):
        given["buffer_size"] = cx.int("buffer_size", 0)
    if not real and mode == 1:
        given["include_images"] = False
    if real and mode in (0, 2):
        given["image_shape"] = [cx.int("h", 1), cx.int("w", 1)]
    if not real and mode == 0:
        given["device_ids"] = [[0], None][cx.choose("device_ids", 0, 1)]
    d.update(given)
    rec = Recorder()
    before = dict(d)
    with symbolic_keys(always=not cx.concrete), rec.on():
        try:
            s = quiet(MAKE, d)
        except (ValueError, TypeError, KeyError) as e:
            cx.prove("valid-configuration-accepted", False, lambda: f"refused with {e!r}: {d}")
            return
    cx.prove("configuration-untouched", list(d) == list(before) and all(d[k] is before[k] for k in d), lambda: f"{d} instead of {before}")
    ep, buf = given.get("episode_length", 0), given.get("buffer_size", 0)
    where = lambda what: (lambda: f"{what}; configuration {d}; parts {[(c.__name__, a) for c, _, a in rec.made]}")
    cls = KINDS[d["scheduler_class"]]
    base = [x for x in rec.made if x[0] is cls and "file_list" in x[2]]
    cx.prove("one-source", len(base) >= 1 and all(x[1] is base[0][1] for x in base) and rec.count(H5, MAT, NPY) == rec.count(cls), where("not one source of the configured class"))
    src, a = base[0][1], base[0][2]
    cx.prove("file-list", a["file_list"] is given["file_list"] or a["file_list"] == given["file_list"] if "file_list" in given else a["file_list"] == [], where("file list"))
    cx.prove("shuffling", a["randomize"] is given.get("randomize", False), where("shuffling flag"))
    cx.prove("looping", a["loop"] is given.get("loop", True), where("looping flag"))
    if "include_images" in a:
        cx.prove("images", a["include_images"] is real, where("include_images"))
    if real:
        cx.prove("image-shape", eq(tuple(a["output_shape"]), tuple(given.get("image_shape", (256, 256)))), where("shape of the images"))
    cx.prove("key-reaches-source", a["key"] is not None, where("no key"))
    keys = [keylist(a["key"])[0]]
    top = src
    n_epi, n_pre = rec.count(EPI), rec.count(PRE)
    has_ep, has_buf = ep > 0, buf > 0
    cx.prove("episodic-iff-configured", And(Iff(has_ep, n_epi == 1), n_epi <= 1), where("episodic wrapper"))
    cx.prove("prefetching-iff-configured", And(Iff(has_buf, n_pre == 1), n_pre <= 1), where("prefetching wrapper"))
    request = None
    if n_epi:
        _, o, a = rec.one(EPI)
        cx.prove("order", a["scheduler"] is top, where("the episodic wrapper does not wrap the source"))
        cx.prove("episode-length", a["episode_length"] == ep, where("episode length"))
        cx.prove("key-reaches-episodes", a["key"] is not None, where("no key"))
        keys.append(keylist(a["key"])[0])
        epi_batch, top = a["batch_size"], o
    if n_pre:
        _, o, a = rec.one(PRE)
        cx.prove("order", a["scheduler"] is top, where("the prefetching wrapper does not wrap the episodic one or the source"))
        cx.prove("buffer-size", a["buffer_size"] == buf, where("buffer size"))
        pre_batch, top = a["batch_size"], o
    x = rec.one(REAL if real else SYN)
    cx.prove("one-sampler", x is not None and s is x[1] and rec.count(REAL, SYN) == 1, where("not one sampler of the right kind"))
    a = x[2]
    cx.prove("order", a["scheduler"] is top, where("the sampler does not draw from the outermost scheduler"))
    if real:
        cx.prove("batch-size", a["batch_size"] == d["batch_size"], where("batch size of the sampler"))
        request = a["batch_size"]
    else:
        g = a["generation_specification"]
        for f in SPECF:
            cx.prove("setting:" + f, eq(getattr(g, f), d[f]), lambda: f"{f} is {getattr(g, f)} instead of {d[f]}")
        for f in SYNF:
            cx.prove("setting:" + f, eq(a[f], d[f]), lambda: f"{f} is {a[f]} instead of {d[f]}")
        cx.prove("setting:device_ids", a["device_ids"] is given.get("device_ids"), where("device_ids"))
        cx.prove("setting:mask", a["mask_images"] is None and a["histogram"] is None, where("mask or histogram invented"))
        request = a["flow_fields_per_batch"]
    if n_epi:
        cx.prove("wrapper-serves-requested-size", epi_batch == request, where("the episodic wrapper serves another batch size than requested"))
    if n_pre:
        cx.prove("wrapper-serves-requested-size", pre_batch == request, where("the prefetching wrapper serves another batch size than requested"))
    with symbolic_keys(always=not cx.concrete):
        root = keylist(jax.random.PRNGKey(d["seed"]))[0]
    for k in keys:
        cx.prove("keys-from-seed", And(derived(root, k)), where(f"a key does not come from the seed: {k if isinstance(k, tuple) else k.t}"))
    cx.prove("independent-keys", independent(keys), where("keys of source and episodes are not independent"))


def generator_keys(cx):
    """keys of the generated images are independent of those of shuffling and episodes"""
    n = 3 if TIER == "quick" else 6
    d = dict(config(cx, False, numbers=False), scheduler_class=".mat", batch_size=1, flow_fields_per_batch=1, batches_per_flow_batch=1, image_shape=[4, 4], img_offset=[1.0, 1.0],
             diameter_ranges=[[1.0, 1.0]], flow_field_size=[64.0, 64.0], rho_ranges=[[0.0, 0.5]], seeding_density_range=[0.1, 0.1], p_hide_img1=0.0, p_hide_img2=0.0,
             max_speed_x=0.0, max_speed_y=0.0, min_speed_x=0.0, min_speed_y=0.0, episode_length=cx.choose("episode_length", 0, 1), file_list=["x.mat"], device_ids=[0])
    used, rec = [], Recorder()

    def gen(a):
        used.extend(keylist(a["key"]))
        return fake_images(a)
    sources = []
    with symbolic_keys(), numeric_patches(), recorded(gen, lambda a: (a["first"], a["first"])):
        with rec.on():
            s0 = quiet(MAKE, d)
        a = dict(rec.one(SYN)[2])
        a["scheduler"] = Source()
        s = SYN(**a)
        for _ in range(n):
            next(s)
    keys = [keylist(x[2]["key"])[0] for x in rec.made if x[2].get("key") is not None]
    for k in keys:
        for u in used:
            cx.prove("generator-keys-independent", And(Not(derived(k, u)), Not(derived(u, k))),
                     lambda: f"a key of the schedulers and a key of the images are the same or derived from one another ({k if isinstance(k, tuple) else k.t}, {u if isinstance(u, tuple) else u.t})")
    cx.prove("keys-seen", len(keys) == 1 + (d["episode_length"] > 0) and len(used) == n)


BAD = {"batch_size": [1.5, "2", None, [2]], "buffer_size": [1.5, "2", None], "episode_length": [1.5, "2", None], "include_images": [1, 0, "yes", None],
       "scheduler_class": ["h5", ".hdf5", "", None, ".MAT", 3]}


def acceptance(cx):
    """top-level settings: any integers; wrong types; missing keys; images from sources without images"""
    real = cx.flag("include_images")
    d = config(cx, real, numbers=False)
    d["file_list"] = ["x" + d["scheduler_class"]]
    case = cx.choose("case", 0, 4)
    valid = True
    if case == 0:           # any integer
        f = ("batch_size", "buffer_size", "episode_length")[cx.choose("field", 0, 2)]
        v = cx.int("value", -10 ** 6, 10 ** 6)
        d[f] = v
        valid = v > 0 if f == "batch_size" else v >= 0
        if f == "batch_size" and not real:
            cx.assume(Implies(v > 0, d["flow_fields_per_batch"] <= v))
    elif case == 1:
        f = list(BAD)[cx.choose("field", 0, len(BAD) - 1)]
        d[f] = BAD[f][cx.choose("value", 0, len(BAD[f]) - 1)]
        valid = False
    elif case == 2:
        req = ["scheduler_class", "batch_size", "flow_fields_per_batch"] + ([] if real else ["batches_per_flow_batch"])
        d.pop(req[cx.choose("missing", 0, len(req) - 1)])
        valid = False
    elif case == 3:
        d["include_images"] = True
        d["scheduler_class"] = [".h5", ".mat", ".npy"][cx.choose("source", 0, 2)]
        valid = d["scheduler_class"] == ".mat"
    rec = Recorder()
    with symbolic_keys(always=not cx.concrete), rec.on():
        try:
            s = quiet(MAKE, d)
            ok = isinstance(s, (SYN, REAL))
        except (ValueError, TypeError, KeyError):
            ok = False
    cx.prove("accepted-exactly-if-valid", Iff(ok, valid), lambda: f"{'accepted' if ok else 'refused'}: {d}")


@contextlib.contextmanager
def scratch():
    t = tempfile.mkdtemp(prefix="c03")
    try:
        yield t
    finally:
        shutil.rmtree(t)


def arguments(cx):
    """configuration given as a dictionary, a file, or something else"""
    with scratch() as t:
        rec = Recorder()
        d = dict(VALUES, scheduler_class=".mat", batch_size=cx.choose("batch_size", 1, 2), flow_fields_per_batch=1, batches_per_flow_batch=1, file_list=["x.mat", "y.mat"], buffer_size=cx.choose("buffer_size", 0, 1),
                 episode_length=cx.choose("episode_length", 0, 1), randomize=cx.flag("randomize"))
        with open(os.path.join(t, "c.yaml"), "w") as f:
            json.dump(d, f)
        shutil.copy(os.path.join(t, "c.yaml"), os.path.join(t, "c.json"))
        os.mkdir(os.path.join(t, "d.yaml"))
        with open(os.path.join(t, "l.yaml"), "w") as f:
            f.write("- 1\n- 2\n")
        with open(os.path.join(t, "e.yaml"), "w") as f:
            f.write("")
        cases = [("c.yaml", True), ("c.json", False), ("d.yaml", False), ("missing.yaml", False), ("l.yaml", False), ("e.yaml", False), (None, False), ([], False), (3, False)]
        v, valid = cases[cx.choose("case", 0, len(cases) - 1)]
        arg = os.path.join(t, v) if isinstance(v, str) else v
        with rec.on():
            try:
                quiet(MAKE, arg)
                ok = True
            except (ValueError, TypeError, FileNotFoundError, KeyError):
                ok = False
        cx.prove("accepted-exactly-if-valid", ok == valid, lambda: f"configuration {v!r} {'accepted' if ok else 'refused'}")
        if not ok:
            return
        other = Recorder()
        with other.on():
            quiet(MAKE, d)
        show = lambda r: [(c.__name__, {k: (np.asarray(x).tolist() if k == "key" and x is not None else x) for k, x in a.items() if k != "scheduler"}) for c, _, a in r.made]
        cx.prove("file-same-as-dictionary", repr(show(rec)) == repr(show(other)), lambda: f"{show(rec)} instead of {show(other)}")


def first_batch(cx):
    """the real parts over real files: the first batches can be drawn and have the configured size"""
    import scipy.io
    from PIL import Image  # noqa
    real = cx.flag("include_images")
    ext = ".mat" if real else (".mat", ".h5", ".npy")[cx.choose("class", 0, 2)]
    B = cx.choose("batch_size", 1, 3)
    m = cx.choose("flow_fields_per_batch", 1, B)
    ep = cx.choose("episode_length", 0, 2) if ext == ".mat" else 0
    buf = cx.choose("buffer_size", 0, 2)
    per = 1 if real else cx.choose("batches_per_flow_batch", 1, 2)
    with scratch() as t:
        for k, sub in enumerate(("a", "b")):
            os.mkdir(os.path.join(t, sub))
            for i in range(3):
                p = os.path.join(t, sub, f"flow_{i}{ext}")
                v = np.full((4, 4, 2), 10 * k + i, np.float32)
                if ext == ".mat":
                    im = np.full((4, 4), 10 * k + i, np.uint8)
                    scipy.io.savemat(p, dict(V=v, I0=im, I1=im))
                elif ext == ".h5":
                    import h5py
                    with h5py.File(p, "w") as f:
                        f.create_dataset("flow", data=np.stack([v] * 2, axis=1))
                else:
                    np.save(p, v)
        d = dict(VALUES, scheduler_class=ext, batch_size=B, flow_fields_per_batch=m, batches_per_flow_batch=per, file_list=[os.path.join(t, s) for s in ("a", "b")], episode_length=ep, buffer_size=buf,
                 include_images=real, randomize=cx.flag("randomize"), loop=True, device_ids=[0])

        def adapt(a):
            return a["first"], a["first"]
        with recorded(fake_images, adapt):
            s = None
            try:
                s = quiet(MAKE, d)
                n = (min(2, ep) if ep else 2)
                for i in range(n):
                    try:
                        b = next(s)
                    except StopIteration:
                        cx.prove("batch-can-be-drawn", False, lambda: f"no batch {i}: {d}")
                    want = B if real else m
                    cx.prove("batch-size", b.flow_fields.shape[0] == want and b.images1.shape[0] == B, lambda: f"batch of {b.images1.shape[0]} images and {b.flow_fields.shape[0]} flows: {d}")
                    cx.prove("done-iff-episodic", b.done is not None if ep else True, lambda: f"no episode flag: {d}")
            finally:
                if s is not None:
                    s.shutdown()


def images(cx):
    """mask and histogram files of the synthetic sampler"""
    with scratch() as t:
        d = dict(VALUES, scheduler_class=".mat", batch_size=1, flow_fields_per_batch=1, batches_per_flow_batch=1, file_list=["x.mat"], image_shape=[1, 2], device_ids=[0])
        m = np.array([[cx.choose("mask0", 0, 2), cx.choose("mask1", -1, 1)]])
        h = np.arange(256) * 1.0
        case = cx.choose("case", 0, 4)
        if case == 0:
            np.save(os.path.join(t, "m.npy"), m)
            d["mask"] = os.path.join(t, "m.npy")
        elif case == 1:
            np.save(os.path.join(t, "h.npy"), h)
            d["histogram"] = os.path.join(t, "h.npy")
        elif case == 2:
            d["mask" if cx.flag("mask") else "histogram"] = os.path.join(t, "none.npy")
        elif case == 3:
            d["mask" if cx.flag("mask") else "histogram"] = 3
        valid = case in (1, 4) or case == 0 and bool(np.isin(m, [0, 1]).all())
        rec = Recorder()
        with rec.on():
            try:
                quiet(MAKE, d)
                ok = True
            except (ValueError, TypeError, FileNotFoundError, KeyError):
                ok = False
        cx.prove("accepted-exactly-if-valid", ok == valid, lambda: f"{'accepted' if ok else 'refused'}: mask {m}, case {case}")
        if ok:
            a = rec.one(SYN)[2]
            cx.prove("setting:mask", (a["mask_images"] is not None and np.array_equal(np.asarray(a["mask_images"]), m)) if case == 0 else a["mask_images"] is None, lambda: f"mask {a['mask_images']}")
            cx.prove("setting:histogram", (a["histogram"] is not None and np.array_equal(np.asarray(a["histogram"]), h)) if case == 1 else a["histogram"] is None, "histogram")


def body(ck):
    for h in (assembled, generator_keys, acceptance, arguments, images, first_batch):
        symx.run(ck, h, h.__name__, deadline=500 if TIER == "quick" else 3000)
    ck.bounds = ["what every part receives: every combination of source class, image flag, wrappers and optional settings, with all numbers symbolic",
                 "acceptance: any integers for batch size, buffer size and episode length; wrong types, missing settings, configuration files of every kind of path",
                 "first batches: real parts over real files, batch size 1..3, flows per batch 1..batch size, episode length 0..2, buffer 0..2, 1..2 image batches per flow batch"]


if __name__ == "__main__":
    main("C03", body, shards=8,
         functions=fingerprint(MAKE, make_mod.get_base_scheduler, SYN.from_config, H5.from_config, MAT.from_config, NPY.from_config),
         assumptions=["parts are recorded at their constructors (bound to the real signatures); the parts themselves are C01, S01-S05, D01-D08, P01-P03",
                      "first batches: generation and resampling are recorded stand-ins, one device"],
         outside=["values the parts themselves refuse (C01, D03, S01)", "episodes over sources other than MAT files (the wrapper looks for .mat files only)"])
