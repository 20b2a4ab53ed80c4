"""Acceptance of image generation settings: all numeric fields symbolic at once."""
from vlib.common import main, fingerprint, TIER
from vlib.symx import *
from vlib import symx, repo
from synthpix.types import ImageGenerationSpecification as Spec

N = 2 if TIER == "quick" else 3
NAMES = ["batch_size", "image_shape", "img_offset", "seeding_density_range", "p_hide_img1", "p_hide_img2", "diameter_ranges", "diameter_var",
         "intensity_ranges", "intensity_var", "rho_ranges", "rho_var", "dt", "noise_uniform", "noise_gaussian_mean", "noise_gaussian_std"]


def number(cx, name, whole):
    return cx.int(name) if whole else cx.real(name)


def settings(cx, tag="", n=(1, 1, 1), whole=False):
    """arbitrary numbers in every field (lists of ranges of the given lengths)"""
    q = lambda s: number(cx, tag + s, whole)
    pair = lambda s: (q(s + "[0]"), q(s + "[1]"))
    pairs = lambda s, k: [pair(f"{s}[{i}]") for i in range(k)]
    return dict(batch_size=cx.int(tag + "batch_size"), image_shape=(cx.int(tag + "image_shape[0]"), cx.int(tag + "image_shape[1]")),
                img_offset=pair("img_offset"), seeding_density_range=pair("seeding_density_range"),
                p_hide_img1=q("p_hide_img1"), p_hide_img2=q("p_hide_img2"),
                diameter_ranges=pairs("diameter_ranges", n[0]), diameter_var=q("diameter_var"),
                intensity_ranges=pairs("intensity_ranges", n[1]), intensity_var=q("intensity_var"),
                rho_ranges=pairs("rho_ranges", n[2]), rho_var=q("rho_var"), dt=q("dt"),
                noise_uniform=q("noise_uniform"), noise_gaussian_mean=q("noise_gaussian_mean"), noise_gaussian_std=q("noise_gaussian_std"))


def valid(v):
    """the documented conditions, field by field"""
    c = [v["batch_size"] > 0, v["image_shape"][0] > 0, v["image_shape"][1] > 0]
    c += [x >= 0 for x in v["img_offset"]] + [x >= 0 for x in v["seeding_density_range"]]
    c += [v["seeding_density_range"][0] <= v["seeding_density_range"][1]]
    for p in (v["p_hide_img1"], v["p_hide_img2"]):
        c += [p >= 0, p <= 1]
    for f in ("diameter_ranges", "intensity_ranges"):
        for a, b in v[f]:
            c += [a > 0, a <= b]
    for a, b in v["rho_ranges"]:
        c += [a > -1, a <= b, b < 1]
    c += [v[f] >= 0 for f in ("diameter_var", "intensity_var", "rho_var", "noise_uniform", "noise_gaussian_mean", "noise_gaussian_std")]
    return And(*c, v["dt"] > 0)


def accepted(v):
    try:
        return Spec(**v)
    except (ValueError, TypeError):
        return None


def same(a, b):
    """the stored value is the given one (numbers compared, containers entry by entry)"""
    if isinstance(b, (tuple, list)):
        return And(type(a) is type(b), len(a) == len(b), *[same(x, y) for x, y in zip(a, b)]) if isinstance(a, (tuple, list)) and len(a) == len(b) else False
    if a is None or b is None or isinstance(a, (str, tuple, list)) or isinstance(b, str):
        return a is b or (type(a) is type(b) and a == b)
    return a == b


def numbers_(cx):
    """every number free"""
    n = [cx.choose("pairs:" + f, 1, N) for f in ("diameter", "intensity", "rho")]
    v = settings(cx, n=n, whole=cx.flag("whole"))
    r = accepted(v)
    ok = valid(v)
    if r is None:
        cx.prove("valid-settings-accepted", Not(ok), lambda: f"refused: {v}")
        return
    cx.prove("invalid-settings-refused", ok, lambda: f"accepted: {v}")
    for f in NAMES:
        cx.prove("stored-unchanged", same(getattr(r, f), v[f]), lambda f=f: f"{f} is {getattr(r, f)} instead of {v[f]}")


SLOTS = ([("batch_size",), ("image_shape", 0), ("image_shape", 1)]
         + [(f, k) for f in ("img_offset", "seeding_density_range") for k in (0, 1)] + [("p_hide_img1",), ("p_hide_img2",)]
         + [(f, 0, k) for f in ("diameter_ranges", "intensity_ranges", "rho_ranges") for k in (0, 1)] + [(f, 1, k) for f in ("diameter_ranges", "intensity_ranges", "rho_ranges") for k in (0, 1)]
         + [(f,) for f in ("diameter_var", "intensity_var", "rho_var", "dt", "noise_uniform", "noise_gaussian_mean", "noise_gaussian_std")])


def put(v, path, x):
    if len(path) == 1:
        return {**v, path[0]: x} if isinstance(v, dict) else type(v)(x if i == path[0] else e for i, e in enumerate(v))
    inner = put(v[path[0]], path[1:], x)
    return {**v, path[0]: inner} if isinstance(v, dict) else type(v)(inner if i == path[0] else e for i, e in enumerate(v))


def not_a_number(cx):
    """one slot holds something that is not a number of the documented kind; the others are valid"""
    v = settings(cx, n=(2, 2, 2))
    cx.assume(valid(v))
    slot = SLOTS[cx.choose("slot", 0, len(SLOTS) - 1)]
    bad = [float("nan"), None, "1"]
    if slot[0] in ("batch_size", "image_shape"):
        bad += [1.5, 2.0, float("inf")]
    x = bad[cx.choose("value", 0, len(bad) - 1)]
    w = put(v, slot, x)
    cx.prove("no-number-refused", accepted(w) is None, lambda: f"accepted with {x!r} in {slot}: {w}")


def infinite(cx):
    """infinities where a finite bound or an order excludes them"""
    v = settings(cx, n=(2, 2, 2))
    cx.assume(valid(v))
    i = float("inf")
    cases = [(("p_hide_img1",), i), (("p_hide_img2",), i), (("p_hide_img1",), -i), (("p_hide_img2",), -i), (("dt",), -i), (("seeding_density_range", 0), i), (("seeding_density_range", 0), -i),
             (("img_offset", 0), -i), (("img_offset", 1), -i)]
    cases += [((f, k, 0), s) for f in ("diameter_ranges", "intensity_ranges", "rho_ranges") for k in (0, 1) for s in (i, -i)]
    cases += [((f, k, 1), -i) for f in ("diameter_ranges", "intensity_ranges", "rho_ranges") for k in (0, 1)] + [(("rho_ranges", k, 1), i) for k in (0, 1)]
    cases += [((f,), -i) for f in ("diameter_var", "intensity_var", "rho_var", "noise_uniform", "noise_gaussian_mean", "noise_gaussian_std")]
    path, x = cases[cx.choose("case", 0, len(cases) - 1)]
    w = put(v, path, x)
    cx.prove("infinity-refused", accepted(w) is None, lambda: f"accepted with {x} in {path}: {w}")


def shapes(cx):
    """wrong number of entries"""
    v = settings(cx, n=(1, 1, 1))
    cx.assume(valid(v))
    a, b, c = v["image_shape"][0], v["img_offset"][0], v["seeding_density_range"][0]
    cases = [("image_shape", (a,)), ("image_shape", (a, a, a)), ("image_shape", a), ("image_shape", ()), ("img_offset", (b,)), ("img_offset", (b, b, b)), ("img_offset", b), ("img_offset", None),
             ("seeding_density_range", (c,)), ("seeding_density_range", (c, c, c)), ("seeding_density_range", c), ("seeding_density_range", ())]
    for f in ("diameter_ranges", "intensity_ranges", "rho_ranges"):
        r = v[f][0]
        cases += [(f, []), (f, [r[0], r[1]]), (f, [r, (r[0],)]), (f, [(r[0], r[1], r[1])]), (f, [()]), (f, None), (f, [r, None])]
    f, x = cases[cx.choose("case", 0, len(cases) - 1)]
    cx.prove("wrong-shape-refused", accepted({**v, f: x}) is None, lambda: f"accepted with {f} = {x}")


def defaults(cx):
    """the defaults are themselves acceptable; any one field may be given alone"""
    d = accepted({})
    cx.prove("defaults-accepted", d is not None)
    dv = {f: getattr(d, f) for f in NAMES}
    cx.prove("defaults-valid", valid(dv), lambda: f"{dv}")
    v = settings(cx, n=(1, 1, 1))
    f = NAMES[cx.choose("field", 0, len(NAMES) - 1)]
    w = {**dv, f: v[f]}
    r = accepted({f: v[f]})
    if r is None:
        cx.prove("valid-settings-accepted", Not(valid(w)), lambda: f"refused: {f} = {v[f]}")
        return
    cx.prove("invalid-settings-refused", valid(w), lambda: f"accepted: {f} = {v[f]}")
    for g in NAMES:
        cx.prove("stored-unchanged", same(getattr(r, g), w[g]), lambda: f"{g} is {getattr(r, g)} instead of {w[g]} when {f} is given")


def body(ck):
    for h in (numbers_, not_a_number, infinite, shapes, defaults):
        symx.run(ck, h, h.__name__)
    ck.bounds = [f"all 16 settings at once with any integers or reals in every numeric slot (reals also where integers are allowed), 1..{N} ranges of each kind",
                 "NaN, None, text, and fractional numbers for integers in each of the slots; infinities where the documented bounds exclude them; pairs with 0, 1 or 3 entries, missing and empty range lists"]


if __name__ == "__main__":
    main("C01", body, shards=4,
         functions=fingerprint(Spec.__post_init__),
         assumptions=["settings are refused by ValueError or TypeError"],
         outside=["which container types are accepted (tuple or list)", "infinities for unbounded settings, e.g. an infinite dt", "booleans given as numbers", "float image offsets with a fractional part are accepted, as documented by the type"])
