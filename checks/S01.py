"""Geometry of the particle region: the real sampler constructor with symbolic geometry."""
from vlib.common import main, fingerprint, TIER
from vlib.samp import *
from fractions import Fraction


def harness(H, W, res, dt, hide, shape):
    def h(cx):
        g = lambda n, lo=None: cx.real(n, lo)
        oy, ox = g("off_y", 0), g("off_x", 0)
        ay, ax = g("area_y"), g("area_x")
        v = {k: g(k) for k in ("max_speed_x", "max_speed_y", "min_speed_x", "min_speed_y")}
        dmax = g("dmax")
        cx.assume(And(ay > 0, ax > 0, dmax > 0, dmax <= 4))
        for q in (oy, ox, ay, ax, *v.values()):
            cx.assume(And(q <= 1000, q >= -1000))
        sp_kw = dict(image_shape=(H, W), img_offset=(oy, ox), diameter_ranges=[(dmax, dmax)], dt=dt)
        if hide:
            ph, p2, d0, d1 = cx.real("p_hide1", 0), cx.real("p_hide2", 0), cx.real("d0", 0), cx.real("d1", 0)
            cx.assume(And(ph <= 1, p2 <= 1, d0 <= d1, d1 <= 1))
            sp_kw.update(p_hide_img1=ph, p_hide_img2=p2, seeding_density_range=(d0, d1))
        seen = {}

        def gen(a):
            seen["gen"] = a
            return fake_images(a)

        def adapt(a):
            seen["adapt"] = a
            f = a["first"]
            return f, f
        src = Source(shape=shape)
        pos = lambda x: wrap(z3.If(z(x) > 0, symx.toreal(z(x)), z3.RealVal(0)))
        neg = lambda x: wrap(z3.If(z(x) < 0, -symx.toreal(z(x)), z3.RealVal(0)))
        mx = (pos(v["max_speed_y"]) * dt, pos(v["max_speed_x"]) * dt)
        mn = (neg(v["min_speed_y"]) * dt, neg(v["min_speed_x"]) * dt)
        off, area, img = (oy, ox), (ay, ax), (H, W)
        inverted = Or(v["max_speed_x"] < v["min_speed_x"], v["max_speed_y"] < v["min_speed_y"])
        close = Or(*[off[i] < mx[i] for i in (0, 1)])
        small = Or(*[off[i] + Fraction(img[i]) / Fraction(res) + mn[i] > area[i] for i in (0, 1)])
        eps = Fraction(1, 10 ** 6)
        clearly = And(*[off[i] >= mx[i] + eps for i in (0, 1)], *[off[i] + Fraction(img[i]) / Fraction(res) + mn[i] + eps <= area[i] for i in (0, 1)])
        with numeric_patches(), recorded(gen, adapt):
            try:
                s = sampler(src, spec(**sp_kw), resolution=res, flow_field_size=(ay, ax), **v)
                next(s)
            except ValueError as e:
                cx.prove("rejects-only-unusable", Or(inverted, close, small), lambda: f"a usable geometry is rejected: {e}", tight=Or(inverted, Not(clearly)))
                return
        cx.prove("inverted-speeds-rejected", Not(inverted), "speed bounds with max < min are accepted")
        tight_c = Not(Or(*[off[i] + eps < mx[i] for i in (0, 1)]))
        cx.prove("offset-too-small-rejected", Not(close), "image offset smaller than the largest displacement is accepted", tight=tight_c)
        cx.prove("area-too-small-rejected", Not(small), "a flow area too small for image plus displacements is accepted",
                 tight=Not(Or(*[off[i] + Fraction(img[i]) / Fraction(res) + mn[i] > area[i] + eps for i in (0, 1)])))
        G, A = seen["gen"], seen["adapt"]
        io, pb = G["parameters"].img_offset, G["position_bounds"]
        info = lambda: f"image {img} at {tuple(io)} in a particle region of {tuple(pb)} pixels"
        for i, ax_ in ((0, "rows"), (1, "columns")):
            cx.prove("offset-non-negative", io[i] >= 0, info)
            cx.prove("image-inside-region", io[i] + img[i] <= pb[i], info)
            cx.prove("top-left-margin", io[i] >= mx[i] * res - 1, lambda: info() + f": margin {io[i]} {ax_} for displacement {mx[i]*res}", tight=io[i] >= mx[i] * res - 1 - eps)
            cx.prove("bottom-right-margin", pb[i] - io[i] - img[i] >= mn[i] * res - 1, lambda: info() + f": bottom/right margin {pb[i]-io[i]-img[i]} for displacement {mn[i]*res}",
                     tight=pb[i] - io[i] - img[i] >= mn[i] * res - 1 - eps)
            if hide:
                vary = Or(sp_kw["p_hide_img1"] > 0, sp_kw["p_hide_img2"] > 0, sp_kw["seeding_density_range"][0] != sp_kw["seeding_density_range"][1])
                foot = 2 * int(3 * dmax / 2) + 1 if cx.concrete else 2 * wrap(z3.ToInt(3 * z(dmax) / 2)) + 1
                cx.prove("particle-margin", Implies(vary, io[i] >= foot - 1), lambda: info() + ": margin smaller than a particle footprint although particles vary between images")
            # the resampling is told the same region, and the flow window is the region's physical window
            cx.prove("same-region-for-flow", And(A["img_offset"][i] == io[i], A["position_bounds"][i] == pb[i]), info)
            o = off[i] - io[i] / res if cx.concrete else off[i] - wrap(symx.toreal(z(io[i]))) / res
            pbo = A["position_bounds_offset"][i]
            px = Fraction(1) / Fraction(res)
            d = pbo - pos(o)
            cx.prove("flow-window", And(d <= 0 + eps, d >= -px - eps), lambda: info() + f": flow window starts at {pbo}, region starts at {o}", tight=And(d <= 2 * eps, d >= -px - 2 * eps))
            fres = shape[i] / area[i]
            pad = A["zero_padding"][i]
            cx.prove("padding", And(pad >= neg(o) * fres - eps, pad <= (neg(o) + px) * fres + 1 + eps), lambda: info() + f": padding {pad} for a region starting at {o}",
                     tight=And(pad >= neg(o) * fres - 2 * eps, pad <= (neg(o) + px) * fres + 1 + 2 * eps))
        cx.prove("resolutions", And(*[And(a[n] - shape[i] / area[i] <= eps, a[n] - shape[i] / area[i] >= -eps) for i, (n1, n2) in ((0, ("flow_field_res_y", "res_y")), (1, ("flow_field_res_x", "res_x"))) for a, n in ((G, n1), (A, n2))]),
                 "flow resolution is not grid steps per length unit of its own axis")
        cx.prove("same-settings", And(A["resolution"] == res, A["dt"] == dt, G["parameters"].dt == dt, tuple(A["image_shape"]) == img, tuple(G["parameters"].image_shape) == img), "generation and resampling use different settings")
    return h


def body(ck):
    confs = [(4, 6, 1.0, 1.0, (4, 8, 2)), (3, 5, 2.0, 0.5, (6, 4, 2)), (6, 2, 0.5, 0.25, (3, 5, 2))]
    if TIER != "quick":
        confs += [(5, 7, 1.5, 2.0, (7, 3, 3)), (8, 8, 4.0, 0.125, (16, 8, 2)), (1, 3, 0.75, 3.0, (2, 9, 2)), (256, 128, 10.0, 0.1, (64, 32, 2))]
    ck.bounds = f"(image height, width, resolution, dt, flow grid) in {confs}; offsets, flow area sizes, all four speeds (|.| <= 1000), largest diameter (0,4], hiding probabilities and densities symbolic."
    for H, W, res, dt, shape in confs:
        for hide in (False, True):
            n = symx.run(ck, harness(H, W, res, dt, hide, shape), f"{H}x{W} res {res} dt {dt} {'varying' if hide else 'fixed'} particles", key="geometry", deadline=200 if TIER == "quick" else 800)
            ck.sample(f"{H}x{W} resolution {res} dt {dt}: {n} paths")
    rounding(ck)


def rounding(ck):
    """double rounding of the size computation: the image stays inside the region for every resolution"""
    for img in ([(256, 100)] if TIER == "quick" else [(7, 48), (256, 256), (64, 100)]):
        def h(cx):
            res = cx.double("resolution", 0.125, 256.0, 8 if TIER == "quick" else 12)
            seen = {}

            def gen(a):
                seen["gen"] = a
                return fake_images(a)

            def adapt(a):
                return a["first"], a["first"]
            with numeric_patches(), recorded(gen, adapt):
                s = sampler(Source(), spec(image_shape=img, img_offset=(4.0, 4.0)), resolution=res, flow_field_size=(1e6, 1e6))
                next(s)
            io, pb = seen["gen"]["parameters"].img_offset, seen["gen"]["position_bounds"]
            for i in (0, 1):
                cx.prove("image-inside-region", pb[i] - io[i] >= img[i], lambda: f"resolution {res!r}: image {img} at {tuple(io)} in a particle region of {tuple(pb)} pixels")
        symx.run(ck, h, f"rounding {img}", key="rounding")


if __name__ == "__main__":
    main("S01", body, functions=fingerprint(SYN.__init__, SYN._get_next, SPEC.__post_init__),
         assumptions=["double arithmetic of the constructor interpreted as exact reals, except for the image-inside-region query (IEEE double)",
                      "generation and resampling are recorded stand-ins (their content is A05, G03-G06); jit/shard_map are identities; one device"],
         outside="other image shapes (rounding: resolutions with more than 8/12 fraction bits), resolutions and dt values; non-finite parameters.")
