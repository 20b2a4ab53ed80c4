"""Image 2 shows image 1's particles displaced by the pair's own flow."""
from vlib.common import main, fingerprint, TIER
from vlib.gen import *
from vlib.refs import *
import itertools


def np_expected(tag1, flow, bounds, fshape, v):
    al = (fshape[0] / bounds[0], fshape[1] / bounds[1])
    p = tag1["pos"] * np.array(al)
    out = np.zeros_like(p)
    for j in range(len(p)):
        u = np_bilinear(flow[..., 0], p[j, 1], p[j, 0])
        w = np_bilinear(flow[..., 1], p[j, 1], p[j, 0])
        out[j] = [(p[j, 0] + w * v["res_y"] * v["dt"]) / al[0], (p[j, 1] + u * v["res_x"] * v["dt"]) / al[1]]
    return out


def body(ck):
    ck.fallback = RandomModel
    quick = TIER == "quick"
    confs = [dict(B=3, nflows=2)] if quick else [dict(B=3, nflows=2), dict(B=2, nflows=3, fshape=(3, 2), bounds=(12, 8), image=(4, 4), offset=(3, 1), density=(1 / 64, 1 / 32)), dict(B=5, nflows=2, fshape=(2, 2))]
    ck.bounds = f"configurations {confs}; all flows, positions, dt and resolutions; all random outcomes; one particle at a time anywhere, the others in one fixed cell."
    R = z3.RealVal
    for conf in confs:
        g = Gen(**conf)
        it0 = g.run(ck, resolve=False) if False else None
        Hf, Wf = g.fshape
        al = (Fraction(g.fshape[0], g.bounds[0]), Fraction(g.fshape[1], g.bounds[1]))
        # number of particles and the position symbols: from a run with zero flow (no cells needed)
        zf = concrete_to_o(np.zeros(g.sflow.shape))
        zero = {n: Fraction(0) for n in g.names if n.endswith("_var") or n.startswith("p_hide") or n.startswith("noise")}
        itz = g.run(ck, flows=zf, resolve=False)
        ck.reachable("vacuity", itz.constraints())
        # 1. zero flow, no variance, nothing hidden, no noise: identical images
        it = g.run(ck, flows=zf, fixed=zero, resolve=False)
        for k in range(g.B):
            a, b = g.pair(it, k)

            def cex_same(m):
                out, tags, data = g.concrete(it, m)
                d = np.abs(out["i1"][k] - out["i2"][k]).max()
                t = max(np.abs(tags[2 * k][n] - tags[2 * k + 1][n]).max() for n in NAMES)
                if d > 0.5 or t > 1e-2:
                    return ck.violation("identical", f"pair {k}: zero flow, no variance, nothing hidden, no noise, but the images differ (max pixel difference {d}, parameter difference {t})", data)
            eqs = [a[1][n][i] for n in NAMES for i in np.ndindex(*a[1][n].shape)], [b[1][n][i] for n in NAMES for i in np.ndindex(*b[1][n].shape)]
            for x, y in zip(*eqs):
                ck.prove("zero-flow-same-particles", it.constraints(), requal(x, y), cex_same)
            same = [p == q for p, q in zip(a[2].reshape(-1), b[2].reshape(-1))]
            for i in np.ndindex(*g.image):
                ck.prove("zero-flow-same-image", it.constraints() + same, requal(it.out["i1"][(k,) + i], it.out["i2"][(k,) + i]), cex_same)
        # 2. displacement of each particle by the pair's flow
        for k in range(g.B):
            a, b = g.pair(itz, k)
            n = a[1]["pos"].shape[0]
            pos = a[1]["pos"]
            for j in range(n if (k == 0 or not quick) else 1):
                gy, gx = toreal(pos[j, 0]) * R(al[0]), toreal(pos[j, 1]) * R(al[1])
                cy, cx = axis_cells(Hf, gy), axis_cells(Wf, gx)
                ck.prove("case-split-complete", [], z3.And(complete(cy), complete(cx)), lambda m: None)
                pins = []
                for k2 in range(g.B):
                    p2 = g.pair(itz, k2)[0][1]["pos"]
                    for j2 in range(p2.shape[0]):
                        if (k2, j2) != (k, j):
                            for c in range(2):
                                pins += [toreal(p2[j2, c]) * R(al[c]) > 0, toreal(p2[j2, c]) * R(al[c]) < 1]
                for yc, xc in itertools.product(cy, cx):
                    hyp = itz.side + [yc[1], xc[1]] + pins
                    v, _ = ck.solve("cell-feasible", itz.assume + hyp)
                    if v != "sat":
                        continue
                    it = g.run(ck, hyps=hyp, cls=BranchInterp)
                    a, b = g.pair(it, k)
                    F = g.sflow[k % g.nflows]
                    vx, vy = blend2(F[..., 0], yc, xc), blend2(F[..., 1], yc, xc)
                    dt, rx, ry = g.p["dt"], g.p["res_x"], g.p["res_y"]
                    want = (toreal(pos[j, 0]) + vy * ry * dt / R(al[0]), toreal(pos[j, 1]) + vx * rx * dt / R(al[1]))

                    def cex(m):
                        out, tags, data = g.concrete(it, m)
                        v = dict(data["params"])
                        for kk in range(g.B):
                            exp = np_expected(tags[2 * kk], np.array(data["flows"])[kk % g.nflows], g.bounds, g.fshape, v)
                            if far(tags[2 * kk + 1]["pos"], exp, np.abs(exp).max(), 5e-3):
                                return ck.violation("displacement", f"pair {kk} (flow {kk % g.nflows}): second-image positions {tags[2*kk+1]['pos'].tolist()}, expected {exp.tolist()}", data)
                    for c in range(2):
                        same = rational_same(toreal(b[1]["pos"][j, c]), want[c])
                        d_ = toreal(b[1]["pos"][j, c]) - want[c]
                        nice = [g.nice(it) + [z3.Or(d_ > R("1/4"), d_ < R("-1/4"))], g.nice(it)]
                        ck.prove("displacement", it.constraints(), True if same else d_ == 0, cex, nice=nice)
        # 3. and the images are rendered from exactly these two particle sets (image 1 from set 1, image 2 from set 2)
        g1 = it = g.run(ck, flows=zf, fixed={n: Fraction(0) for n in g.names if n.startswith("noise")}, resolve=False)
        for k in range(g.B):
            a, b = g.pair(it, k)
            va = {str(x) for x in a[2].reshape(-1)}
            vb = {str(x) for x in b[2].reshape(-1)}
            for img, own, other in (("i1", a, b), ("i2", b, a)):
                for i in np.ndindex(*g.image):
                    e = toreal(it.out[img][(k,) + i])
                    # pixel is a function of its own rendering only: raising every other rendering leaves it unchanged
                    sub = []
                    for o in it.img:
                        if o is not own:
                            sub += [(x, x + 7) for x in o[2].reshape(-1)]
                    e2 = z3.substitute(e, *sub)

                    def cexi(m):
                        out, tags, data = g.concrete(it, m)
                        rend = [np.asarray(REAL_RENDER(jnp.asarray(t["pos"], jnp.float32), g.bounds, float(max(d[1] for d in g.diameters)), *[jnp.asarray(t[n], jnp.float32) for n in ("dx", "dy", "amp", "rho")], clip=False)) for t in tags]
                        for kk in range(g.B):
                            for q, im in enumerate(("i1", "i2")):
                                r = rend[2 * kk + q][g.offset[0]:g.offset[0] + g.image[0], g.offset[1]:g.offset[1] + g.image[1]]
                                if far(out[im][kk], np.clip(r, 0, 255), 255, 2e-3):
                                    return ck.violation("own-rendering", f"pair {kk}: {im} is not the rendering of its own particles", data)
                    ck.prove("own-rendering", it.constraints(), e == e2, cexi)
        ck.sample(str(conf))
    ck.extra["primitives"] = sorted(it.prims)


if __name__ == "__main__":
    main("G04", body, functions=fingerprint(GEN, repo.apply.apply_flow_to_particles, repo.utils.bilinear_interpolate),
         assumptions=["float32 arithmetic interpreted as exact reals", "rendering is a function of the particle arguments (its content is G01)", "random draws satisfy the contracts of jax.random"],
         outside="larger grids, batches and particle counts; float32 rounding of the scale factors.")
