"""Input checks of advection, generation and resampling: all numbers and shapes symbolic."""
from vlib.common import main, fingerprint, TIER
from vlib.symx import *
from vlib import symx, repo
from vlib.repo import jax, jnp, np
import synthpix.apply as apply_mod, synthpix.data_generate as gen_mod, synthpix.utils as utils_mod
from synthpix.types import ImageGenerationSpecification as Spec
APPLY, GEN, ADAPT = apply_mod.input_check_apply_flow, gen_mod.input_check_gen_img_from_flow, utils_mod.input_check_flow_field_adapter


class Array:
    """a JAX array with symbolic lengths; its sum is a symbolic number"""
    _stands_for = jnp.zeros(1)

    def __init__(self, shape, total=0): self.shape, self.ndim, self.total = tuple(shape), len(shape), total
    def sum(self, *a, **k): return self.total
    def __len__(self): return self.shape[0]
    @property
    def size(self):
        n = 1
        for s in self.shape:
            n = n * s
        return n


def array(cx, name, rank, lo=1, hi=None, total=None):
    """an array of the given rank with any lengths"""
    shape = [cx.int(f"{name}.shape[{i}]", lo, hi if not cx.concrete else None) for i in range(rank)]
    return shaped(cx, shape, total)


def shaped(cx, shape, total=None):
    if not cx.concrete:
        return Array(shape, total)
    n = 1
    for s in shape:
        cx.assume(s >= 0)
        n *= s
    cx.assume(n <= 10 ** 6)
    a = np.zeros([int(s) for s in shape], np.float32)
    if total is not None and a.size:
        a.reshape(-1)[0] = total
    return jnp.asarray(a)


def arith(cx):
    """jnp functions on stand-ins"""
    if cx.concrete:
        return patched()
    s0, c0, a0, n0 = jnp.sum, jnp.isclose, jnp.allclose, np.isclose

    def close(orig):
        def f(a, b, rtol=1e-5, atol=1e-8, **k):
            if is_sym(a) or is_sym(b):
                return abs(a - b) <= atol + rtol * abs(b)
            return orig(a, b, rtol=rtol, atol=atol, **k)
        return f
    tot = lambda orig: (lambda x, *a, **k: x.total if isinstance(x, Array) else orig(x, *a, **k))
    return patched((jnp, "sum", tot(s0)), (np, "sum", tot(np.sum)), (jnp, "isclose", close(c0)), (jnp, "allclose", close(a0)), (np, "isclose", close(n0)))


def called(cx, f, kw):
    with arith(cx):
        try:
            f(**kw)
            return True
        except (ValueError, TypeError):
            return False


WRONG = [None, "1", [1.0]]
NOARRAY = ["a host array", "a list", "None"]


def host(k): return [np.zeros((2, 2), np.float32), [[1.0, 2.0]], None][k]


def decide(cx, f, kw, valid, slots, arrays):
    """the check's verdict equals validity; additionally one slot may hold something of a wrong type"""
    case = cx.choose("wrong slot", -1, len(slots) + len(arrays) - 1)
    if case >= len(slots):
        kw[arrays[case - len(slots)]] = host(cx.choose("no array", 0, 2))
        valid = False
    elif case >= 0:
        name, key, extra = slots[case]
        bad = WRONG + extra
        x = bad[cx.choose("wrong value", 0, len(bad) - 1)]
        if key is None:
            kw[name] = x
        else:
            kw[name] = tuple(x if i == key else v for i, v in enumerate(kw[name]))
        valid = False
    ok = called(cx, f, kw)
    show = lambda: f"{'accepted' if ok else 'refused'}: { {k: (tuple(v.shape) if hasattr(v, 'shape') else v) for k, v in kw.items()} }"
    cx.prove("valid-accepted", Implies(valid, ok), show)
    cx.prove("invalid-refused", Implies(Not(valid), Not(ok)), show)


def number(cx, name): return cx.int(name) if cx.flag("whole:" + name) else cx.real(name)


def advection(cx):
    rp, rf = cx.choose("rank of positions", 1, 3), cx.choose("rank of flow", 2, 4)
    p, f = array(cx, "positions", rp), array(cx, "flow", rf)
    kw = dict(particle_positions=p, flow_field=f, dt=cx.real("dt"), flow_field_res_x=number(cx, "res_x"), flow_field_res_y=cx.real("res_y"), flow_field_res_z=cx.real("res_z"))
    valid = rp == 2 and rf == 3
    if valid:
        c, d = p.shape[1], f.shape[2]
        valid = And(Or(c == 2, c == 3), c == d)
    valid = And(valid, kw["flow_field_res_x"] > 0, kw["flow_field_res_y"] > 0, kw["flow_field_res_z"] > 0)
    decide(cx, APPLY, kw, valid, [(n, None, []) for n in ("dt", "flow_field_res_x", "flow_field_res_y", "flow_field_res_z")], ["particle_positions", "flow_field"])


def generation(cx):
    rf = cx.choose("rank of flow", 3, 5)
    f = array(cx, "flow", rf)
    h, w = cx.int("h", 1, 10 ** 4), cx.int("w", 1, 10 ** 4)
    oy, ox = cx.int("oy", 0, 10 ** 4), cx.int("ox", 0, 10 ** 4)
    par = Spec(image_shape=(h, w), img_offset=(oy, ox), seeding_density_range=(0.0, 0.5))
    b = (cx.int("by"), cx.int("bx"))
    kw = dict(flow_field=f, parameters=par, position_bounds=b, flow_field_res_x=number(cx, "res_x"), flow_field_res_y=cx.real("res_y"))
    valid = And(f.shape[3] == 2 if rf == 4 else False, b[0] > 0, b[1] > 0, b[0] >= h + oy, b[1] >= w + ox, kw["flow_field_res_x"] > 0, kw["flow_field_res_y"] > 0)
    extra = []
    mode = cx.choose("mask and histogram", 0, 3)
    if mode & 1:
        r = cx.choose("rank of mask", 1, 3)
        m = array(cx, "mask", r, total=cx.real("mask pixels", 0) if not cx.concrete else 0.0)
        kw["mask"] = m
        valid = And(valid, And(m.shape[0] == h, m.shape[1] == w) if r == 2 else False)
        extra.append("mask")
    if mode & 2:
        r = cx.choose("rank of histogram", 1, 2)
        t = cx.real("histogram sum", 0, 10 ** 9)
        q = shaped(cx, [cx.int(f"histogram.shape[{i}]", 1) for i in range(r)], t)
        kw["histogram"] = q
        # sums are compared with a small relative tolerance: leave a gap around it
        gap = abs(t - h * w)
        cx.assume(Or(gap == 0, gap * 1000 > h * w))
        valid = And(valid, And(q.shape[0] == 256, gap == 0) if r == 1 else False)
        extra.append("histogram")
    slots = [("flow_field_res_x", None, []), ("flow_field_res_y", None, []), ("position_bounds", 0, [1e6]), ("position_bounds", 1, [1e6])]
    if cx.flag("wrong number of bounds"):
        kw["position_bounds"] = b[:1] if cx.flag("one") else b + (b[0],)
        ok = called(cx, GEN, kw)
        cx.prove("invalid-refused", Not(ok), lambda: f"accepted with position_bounds {kw['position_bounds']}")
        return
    case = cx.choose("replace", 0, 1 + len(extra))
    if case == 0:
        decide(cx, GEN, kw, valid, slots, [])
        return
    name = (["flow_field"] + extra)[case - 1]
    x = host(cx.choose("no array", 0, 2))
    if x is None and name != "flow_field":
        raise symx.Infeasible()
    kw[name] = x
    ok = called(cx, GEN, kw)
    cx.prove("invalid-refused", Not(ok), lambda: f"accepted with {type(x)} as {name}")


UNITS = ["pixels", "measure units per second", "measure units", "Pixels", "", None, 1]


def resampling(cx):
    rf = cx.choose("rank of flow", 3, 5)
    f = array(cx, "flow", rf)
    I, R = cx.int, cx.real
    kw = dict(flow_field=f, new_flow_field_shape=(I("H"), I("W")), image_shape=(I("h"), I("w")), img_offset=(number(cx, "oy"), R("ox")), resolution=R("resolution"), res_x=R("res_x"), res_y=R("res_y"),
              position_bounds=(number(cx, "by"), R("bx")), position_bounds_offset=(R("boy"), R("box")), batch_size=I("batch"), dt=R("dt"), zero_padding=(I("zy"), I("zx")))
    u = cx.choose("units", 0, len(UNITS) - 1)
    kw["output_units"] = UNITS[u]
    pos = [*kw["new_flow_field_shape"], *kw["image_shape"], kw["resolution"], kw["res_x"], kw["res_y"], *kw["position_bounds"], kw["batch_size"], kw["dt"]]
    non = [*kw["img_offset"], *kw["position_bounds_offset"], *kw["zero_padding"]]
    valid = And(u < 2, f.shape[3] == 2 if rf == 4 else False, *[x > 0 for x in pos], *[x >= 0 for x in non])
    pairs = ["new_flow_field_shape", "image_shape", "img_offset", "position_bounds", "position_bounds_offset", "zero_padding"]
    whole = {"new_flow_field_shape", "image_shape", "zero_padding", "batch_size"}
    if u > 1 or rf != 4:
        ok = called(cx, ADAPT, kw)
        cx.prove("invalid-refused", Not(ok), lambda: f"accepted with units {UNITS[u]!r} and flow of shape {f.shape}")
        return
    if cx.flag("wrong number of entries"):
        n = pairs[cx.choose("pair", 0, len(pairs) - 1)]
        kw[n] = kw[n][:1] if cx.flag("one") else kw[n] + (kw[n][0],)
        ok = called(cx, ADAPT, kw)
        cx.prove("invalid-refused", Not(ok), lambda: f"accepted with {n} = {kw[n]}")
        return
    slots = [(n, k, [1.5] if n in whole else []) for n in pairs for k in (0, 1)] + [(n, None, [2.5] if n in whole else []) for n in ("resolution", "res_x", "res_y", "batch_size", "dt")]
    decide(cx, ADAPT, kw, valid, slots, ["flow_field"])


def body(ck):
    for h in (advection, generation, resampling):
        symx.run(ck, h, h.__name__, deadline=400 if TIER == "quick" else 2000)
    ck.bounds = ["every number any integer or real at once; arrays with any lengths and one rank more or less than documented; masks of rank 1 to 3, histograms of rank 1 and 2 with any length and sum",
                 "text, None, lists and fractional numbers in each of the slots, host arrays and lists instead of JAX arrays, pairs with one or three entries"]


if __name__ == "__main__":
    main("C05", body, shards=6, functions=fingerprint(APPLY, GEN, ADAPT),
         assumptions=["inputs are refused by ValueError or TypeError", "arrays are stand-ins with symbolic lengths and sums (real arrays in replays)"],
         outside=["NaN scales", "histogram sums within a relative distance of 0.001 of the pixel count", "whether pairs are tuples or lists", "the settings record itself (C01)"])
