"""Flow resampling onto the image grid."""
from vlib.common import main, fingerprint, TIER
from vlib import repo
from vlib.jaxsmt import *
from vlib.refs import *
import itertools, random

AD = repo.utils.flow_field_adapter
HALF = 0.5


def grid(start, length, n):
    """n uniform samples from start to start+length-1 (exact rationals)"""
    end = start + length - 1
    if n == 1:
        return [start]
    return [start + Fraction(k, n - 1) * (end - start) for k in range(n)]


def spec(cfg):
    R, rx, ry = Fraction(cfg["resolution"]), Fraction(cfg["res_x"]), Fraction(cfg["res_y"])
    po, io = [Fraction(v) for v in cfg["position_bounds_offset"]], cfg["img_offset"]
    ish, pb = cfg["image_shape"], cfg["position_bounds"]
    gy = lambda off: (po[0] * ry + Fraction(off[0]) / R * ry)
    gx = lambda off: (po[1] * rx + Fraction(off[1]) / R * rx)
    oy = grid(gy(io), Fraction(ish[0]) / R * ry, cfg["new"][0])
    ox = grid(gx(io), Fraction(ish[1]) / R * rx, cfg["new"][1])
    ny, nx = max(1, int(Fraction(pb[0]) / R * ry)), max(1, int(Fraction(pb[1]) / R * rx))
    by = grid(gy((0, 0)), Fraction(pb[0]) / R * ry, ny)
    bx = grid(gx((0, 0)), Fraction(pb[1]) / R * rx, nx)
    return oy, ox, by, bx


def padded(f, pad):
    (py, px) = pad
    H, W = f.shape[:2]
    return lambda r, c, k: f[max(0, r - py), max(0, c - px), k], H + py, W + px


def sample(get, H, W, y, x, k):
    y = min(max(y, Fraction(0)), Fraction(H - 1)); x = min(max(x, Fraction(0)), Fraction(W - 1))
    y0, x0 = math.floor(y), math.floor(x)
    y1, x1 = min(y0 + 1, H - 1), min(x0 + 1, W - 1)
    b, a = y - y0, x - x0
    r = Fraction(0)
    for yy, wy in ((y0, 1 - b), (y1, b)):
        for xx, wx in ((x0, 1 - a), (x1, a)):
            r = s_add(r, s_mul(wy * wx, get(yy, xx, k)))
    return r


def call(f, cfg, dt):
    return AD(f, new_flow_field_shape=cfg["new"], image_shape=cfg["image_shape"], img_offset=cfg["img_offset"],
              resolution=cfg["resolution"], res_x=cfg["res_x"], res_y=cfg["res_y"], position_bounds=cfg["position_bounds"],
              position_bounds_offset=cfg["position_bounds_offset"], batch_size=cfg["batch"], output_units=cfg["units"], dt=dt,
              zero_padding=cfg["pad"])


def configs(rng, n):
    """asymmetric dyadic configurations (exactly representable in float32); the flow values stay symbolic"""
    out = []
    base = [
        dict(fl=(2, 4, 5), new=(3, 2), image_shape=(3, 2), img_offset=(1, 2), resolution=1.0, res_x=1.0, res_y=1.0, position_bounds=(4, 5), position_bounds_offset=(0.0, 0.0), batch=5, units="pixels", pad=(0, 0)),
        dict(fl=(3, 3, 4), new=(2, 3), image_shape=(4, 4), img_offset=(2, 0), resolution=2.0, res_x=1.0, res_y=0.5, position_bounds=(6, 8), position_bounds_offset=(0.5, 1.0), batch=2, units="measure units per second", pad=(1, 2)),
        dict(fl=(1, 4, 3), new=(4, 1), image_shape=(2, 4), img_offset=(0, 1), resolution=2.0, res_x=0.5, res_y=2.0, position_bounds=(3, 6), position_bounds_offset=(0.25, 0.0), batch=3, units="pixels", pad=(0, 1)),
        dict(fl=(2, 2, 6), new=(2, 5), image_shape=(2, 5), img_offset=(3, 1), resolution=4.0, res_x=4.0, res_y=2.0, position_bounds=(8, 7), position_bounds_offset=(0.0, 1.5), batch=1, units="pixels", pad=(2, 0)),
        dict(fl=(2, 3, 3), new=(1, 2), image_shape=(1, 3), img_offset=(0, 0), resolution=0.5, res_x=1.0, res_y=1.0, position_bounds=(1, 2), position_bounds_offset=(1.0, 0.0), batch=4, units="measure units per second", pad=(0, 0)),
    ]
    out += base
    while len(out) < n:
        d = lambda *c: rng.choice(c)
        ish = (rng.randint(1, 5), rng.randint(1, 5))
        io = (rng.randint(0, 3), rng.randint(0, 3))
        out.append(dict(fl=(rng.randint(1, 3), rng.randint(1, 5), rng.randint(1, 5)), new=(d(1, 2, 3, 5), d(1, 2, 3, 5)), image_shape=ish, img_offset=io,
                        resolution=d(0.5, 1.0, 2.0, 4.0), res_x=d(0.5, 1.0, 2.0), res_y=d(0.5, 1.0, 2.0),
                        position_bounds=(ish[0] + io[0] + rng.randint(0, 3), ish[1] + io[1] + rng.randint(0, 3)),
                        position_bounds_offset=(d(0.0, 0.25, 1.0, 1.5), d(0.0, 0.5, 0.75, 2.0)), batch=rng.randint(1, 6),
                        units=d("pixels", "measure units per second"), pad=(d(0, 1, 2), d(0, 1, 3))))
    return out


def body(ck):
    import os
    rng = random.Random(7)
    cfgs = configs(rng, 12 if TIER == "quick" else 120)
    ck.bounds = f"{len(cfgs)} asymmetric configurations (flow stacks up to 3x5x5, output/image up to 5x5, padding up to 3, batch up to 6, dyadic resolutions); all real flow values and dt; plus symbolic region offsets for unit-step configurations."
    dt = z3.Real("dt")
    for cfg in cfgs:
        n, H, W = cfg["fl"]
        F = sym_array("f", (n, H, W, 2))
        jp = trace(lambda f, d: call(f, cfg, d), jnp.zeros((n, H, W, 2)), 1.0)
        it = Interp(ck, [])
        outs = it.run(jp, [F, np.array(dt, dtype=object)])
        oy, ox, by, bx = spec(cfg)
        sc = s_mul(Fraction(cfg["resolution"]), dt) if cfg["units"] == "pixels" else Fraction(1)
        want_shape = ((cfg["batch"], *cfg["new"], 2), (n, len(by), len(bx), 2))

        def numeric(fa, d):
            e1, e2 = np.zeros(want_shape[0]), np.zeros(want_shape[1])
            s = cfg["resolution"] * d if cfg["units"] == "pixels" else 1.0
            for idx in np.ndindex(*want_shape[0]):
                g, HH, WW = padded(fa[idx[0] % n].astype(float), cfg["pad"])
                e1[idx] = s * float(sample(lambda a, b, k: Fraction(float(g(a, b, k))), HH, WW, oy[idx[1]], ox[idx[2]], idx[3]))
            for idx in np.ndindex(*want_shape[1]):
                g, HH, WW = padded(fa[idx[0]].astype(float), cfg["pad"])
                e2[idx] = float(sample(lambda a, b, k: Fraction(float(g(a, b, k))), HH, WW, by[idx[1]], bx[idx[2]], idx[3]))
            return e1, e2

        def cex(m):
            fa, d = marr(m, F), mval(m, dt)
            got = [np.asarray(v) for v in call(jnp.asarray(fa), cfg, d)]
            exp = numeric(fa, d)
            if any(far(g, e, np.abs(e).max() if e.size else 0) for g, e in zip(got, exp)):
                return ck.violation("adapter", f"config {cfg} dt={d}: resampled flow differs from the reference (shapes {[g.shape for g in got]} vs {list(want_shape)})",
                                    dict(config=cfg, dt=d, flow=fa.tolist(), got=[g.tolist() for g in got], expected=[e.tolist() for e in exp]))
        if (outs[0].shape, outs[1].shape) != want_shape:
            ck.prove("shape", [], False, cex)
            continue
        ck.obl += 1; ck.discharged += 1
        ck.reachable("vacuity", [dt > 0])
        for which, (o, ys, xs) in enumerate(((outs[0], oy, ox), (outs[1], by, bx))):
            goals = []
            for idx in np.ndindex(*o.shape):
                g, HH, WW = padded(F[idx[0] % n], cfg["pad"])
                w = sample(g, HH, WW, ys[idx[1]], xs[idx[2]], idx[3])
                if which == 0:
                    w = s_mul(w, sc)
                goals.append(tobool(diff_zero(o[idx], w)))
            ck.prove("resample" if which == 0 else "region", [], z3.And(*goals), cex,
                     nice=[bounded([F], 64) + [dt == 1], bounded([F], 64) + [dt == 2]])
        ck.sample(str(cfg))
    # symbolic region offset (unit step): every real offset, by cells
    for (H, W, ish, io, pad) in ([(4, 3, (2, 2), (1, 0), (0, 1))] if TIER == "quick" else [(4, 3, (2, 2), (1, 0), (0, 1)), (3, 5, (1, 3), (0, 1), (2, 0)), (5, 4, (3, 2), (1, 1), (0, 0))]):
        F = sym_array("f", (1, H, W, 2))
        oy_, ox_ = z3.Reals("off_y off_x")
        cfg = dict(fl=(1, H, W), new=ish, image_shape=ish, img_offset=io, resolution=1.0, res_x=1.0, res_y=1.0, position_bounds=(ish[0] + io[0] + 1, ish[1] + io[1] + 1), batch=1, units="pixels", pad=pad)
        fn = lambda f, a, b: call(f, {**cfg, "position_bounds_offset": (a, b)}, 1.0)
        jp = trace(fn, jnp.zeros((1, H, W, 2)), 0.0, 0.0)
        HH, WW = H + pad[0], W + pad[1]

        def cells(n, v):
            cs = []
            for k in range(n):
                cs.append((v == k, Fraction(k), None)); cs.append((z3.And(v > k, v < k + 1), None, k))
            cs.append((v >= n, None, n))
            return cs
        cy, cx = cells(HH, oy_), cells(WW, ox_)
        ck.prove("case-split-complete", [oy_ >= 0, ox_ >= 0], z3.And(z3.Or(*[c[0] for c in cy]), z3.Or(*[c[0] for c in cx])), lambda m: None)
        for a, b in itertools.product(cy, cx):
            it = Interp(ck, [a[0], b[0]])
            outs = it.run(jp, [F, np.array(oy_, dtype=object), np.array(ox_, dtype=object)])
            ck.reachable("vacuity", it.constraints())

            def at(v, cell, off, n):
                """(i0,i1,w) of coordinate v+off"""
                k = cell[1] if cell[1] is not None else cell[2]
                i0 = int(k) + off
                if i0 >= n - 1:
                    return n - 1, n - 1, z3.RealVal(0)
                return i0, i0 + 1, (v - int(k) if cell[1] is None else z3.RealVal(0))

            def cex(m):
                fa, pa, pb_ = marr(m, F), mval(m, oy_), mval(m, ox_)
                got = [np.asarray(v) for v in fn(jnp.asarray(fa), pa, pb_)]
                fp = np.pad(fa[0], ((pad[0], 0), (pad[1], 0), (0, 0)), mode="edge").astype(float)
                for o, base in ((got[0], io), (got[1], (0, 0))):
                    for (r, c) in np.ndindex(*o.shape[1:3]):
                        for k in range(2):
                            e = np_bilinear(fp[..., k], pb_ + base[1] + c, pa + base[0] + r)
                            if abs(o[0, r, c, k] - e) > 2e-3 * (1 + np.abs(fa).max()):
                                return ck.violation("adapter-offset", f"region offset ({pa},{pb_}): item ({r},{c},{k}) is {o[0, r, c, k]}, expected {e}", dict(config=cfg, offset=[pa, pb_], flow=fa.tolist()))
            for o, base in ((outs[0], io), (outs[1], (0, 0))):
                goals = []
                for (r, c) in np.ndindex(*o.shape[1:3]):
                    y0, y1, wy = at(oy_, a, base[0] + r, HH)
                    x0, x1, wx = at(ox_, b, base[1] + c, WW)
                    g, _, _ = padded(F[0], pad)
                    for k in range(2):
                        w = (1 - wx) * (1 - wy) * g(y0, x0, k) + wx * (1 - wy) * g(y0, x1, k) + (1 - wx) * wy * g(y1, x0, k) + wx * wy * g(y1, x1, k)
                        goals.append(tobool(diff_zero(o[0, r, c, k], w)))
                ck.prove("offset", it.constraints(), z3.And(*goals), cex, nice=[bounded([F], 64)])


if __name__ == "__main__":
    main("A05", body, functions=fingerprint(AD, repo.utils.bilinear_interpolate),
         assumptions=["float32 arithmetic interpreted as exact reals", "region sizes, resolutions and integer offsets are concrete per configuration; flow values, dt and (in the offset part) region offsets are symbolic"],
         outside="configurations not listed; non-dyadic resolutions; float32 rounding.")
