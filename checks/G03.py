"""Range, mask, crop and per-image noise of generated images."""
from vlib.common import main, fingerprint, TIER
from vlib.gen import *
from vlib import repo
from vlib.refs import far

MATCH = repo.utils.match_histogram


def clipz(e):
    return z3.If(e < 0, z3.RealVal(0), z3.If(e > 255, z3.RealVal(255), e))


def body(ck):
    ck.fallback = RandomModel
    quick = TIER == "quick"
    confs = [dict(B=2, image=(2, 3), offset=(1, 2), bounds=(4, 6), density=(1 / 32, 1 / 16))]
    if not quick:
        confs += [dict(B=3, nflows=2, image=(3, 2), offset=(0, 3), bounds=(5, 8), density=(1 / 32, 1 / 16)), dict(B=1, nflows=1, image=(4, 4), offset=(0, 0), bounds=(4, 4), density=(1 / 8, 1 / 8))]
    ck.bounds = f"configurations {confs}; any rendered intensities (also negative or above 255), all noise levels, hiding, variances, flows; every mask; every random outcome."
    R = z3.RealVal
    for conf in confs:
        g = Gen(**conf)
        gm = Gen(**conf, mask=True)
        zf = concrete_to_o(np.zeros(g.sflow.shape))
        it, im = g.run(ck, flows=zf, resolve=False), gm.run(ck, flows=zf, resolve=False)
        cs = it.constraints()
        ck.reachable("vacuity", cs + im.constraints())
        h, w = g.image
        oy, ox = g.offset

        def reals(gg, itt, m):
            out, tags, data = gg.concrete(itt, m)
            rend = [np.asarray(REAL_RENDER(jnp.asarray(t["pos"], jnp.float32), gg.bounds, float(max(d[1] for d in gg.diameters)),
                                           *[jnp.asarray(t[n], jnp.float32) for n in ("dx", "dy", "amp", "rho")], clip=False), dtype=float) for t in tags]
            return out, rend, data
        ok = True
        for name in ("i1", "i2"):
            for o, gg in ((it.out[name], g), (im.out[name], gm)):
                if o.shape != (g.B, h, w):
                    ck.prove("shape", [], False, lambda m: ck.violation("shape", f"images have shape {o.shape}, configured {(g.B, h, w)}", {}))
                    ok = False
        if not ok:
            return
        for k in range(g.B):
            pr, prm = g.pair(it, k), gm.pair(im, k)
            for q, name in enumerate(("i1", "i2")):
                img, rendered = it.out[name][k], pr[q][2]
                # noise-free draws of this image
                def cex_range(m):
                    bad = []
                    for gg, itt in ((g, it), (gm, im)):
                        out, rend, data = reals(gg, itt, m)
                        for nm in ("i1", "i2"):
                            v = out[nm]
                            if np.any(~(v >= 0)) or np.any(~(v <= 255)):
                                return ck.violation("range", f"pixel outside [0,255]: {nm} range {v.min()}..{v.max()}", data)
                # crop + noise, by the draws of the image's own shape
                U = [d for d in it.draws if d["kind"] == "uniform" and tuple(d["shape"]) == (h, w)]
                N = [d for d in it.draws if d["kind"] == "normal" and tuple(d["shape"]) == (h, w)]
                p = g.p

                def cex_noise(m):
                    out, rend, data = reals(g, it, m)
                    v = data["params"]
                    for kk in range(g.B):
                        for qq, nm in enumerate(("i1", "i2")):
                            r = rend[2 * kk + qq][oy:oy + h, ox:ox + w]
                            okk = False
                            for d in U:
                                for e in N:
                                    uu, nn = marr(m, d["sym"], np.float64), marr(m, e["sym"], np.float64)
                                    unit = not is_z(np.asarray(d["params"]["hi"]).reshape(-1)[0])
                                    if unit:
                                        uu = uu * v["noise_uniform"]
                                    if not far(out[nm][kk], np.clip(r + uu + v["noise_gaussian_mean"] + nn * v["noise_gaussian_std"], 0, 255), 255, 1e-3):
                                        okk = True
                            if not okk:
                                return ck.violation("crop-noise", f"pair {kk} {nm}: image is not the crop at offset {(oy, ox)} of the rendering plus the configured noise", data)
                nice = [g.nice(it) + [p["noise_gaussian_std"] <= 2, p["noise_uniform"] <= 8, p["noise_gaussian_mean"] <= 8], g.nice(it)]
                for i in np.ndindex(h, w):
                    ck.prove("range", cs, z3.And(toreal(img[i]) >= 0, toreal(img[i]) <= 255), cex_range, nice=nice)
                    mimg = im.out[name][(k,) + i]
                    ck.prove("range-masked", im.constraints(), z3.And(toreal(mimg) >= 0, toreal(mimg) <= 255), cex_range, nice=[gm.nice(im)])
                    M = gm.smask[i]

                    def cex_mask(m):
                        out, rend, data = reals(gm, im, m)
                        out2, _, _ = reals(g, it, m)
                        mk = np.array(data["mask"])
                        for nm in ("i1", "i2"):
                            if far(out[nm], out2[nm] * mk, 255, 1e-3):
                                return ck.violation("mask", f"{nm} with the mask {mk.tolist()} is not the unmasked image with masked pixels zeroed", data)
                    bright = [x == 100 for x in prm[q][2].reshape(-1)]
                    ck.prove("mask", cs + im.constraints(), toreal(mimg) == z3.If(M == 0, R(0), toreal(img[i])), cex_mask,
                             nice=[gm.nice(im) + [p["noise_gaussian_std"] == 0, p["noise_gaussian_mean"] == 4, p["noise_uniform"] == 0], gm.nice(im) + bright + [p["noise_gaussian_std"] == 0], gm.nice(im)])
                # without noise: exactly the crop
                zn = {n: Fraction(0) for n in g.names if n.startswith("noise")}
                itn = g.run(ck, flows=zf, fixed=zn, resolve=False)
                pn = g.pair(itn, k)[q][2]

                def cex_crop(m):
                    out, rend, data = reals(g, itn, m)
                    for kk in range(g.B):
                        for qq, nm in enumerate(("i1", "i2")):
                            if far(out[nm][kk], np.clip(rend[2 * kk + qq][oy:oy + h, ox:ox + w], 0, 255), 255, 1e-3):
                                return ck.violation("crop", f"pair {kk} {nm}: noise-free image is not the crop at {(oy, ox)} of the rendering", data)
                amps = [toreal(x) > 20 for x in g.pair(itn, k)[q][1]["amp"].reshape(-1)]
                for i in np.ndindex(h, w):
                    ck.prove("crop", itn.constraints(), toreal(itn.out[name][(k,) + i]) == clipz(toreal(pn[i[0] + oy, i[1] + ox])), cex_crop, nice=[g.nice(itn) + amps, g.nice(itn)])
                g.run(ck, flows=zf, resolve=False) if False else None
                g.fixed = {}
                found = None
                i0 = (0, 0)
                for d in U:
                    for e in N:
                        unit = not is_z(np.asarray(d["params"]["hi"]).reshape(-1)[0])
                        uw = d["sym"][i0] * p["noise_uniform"] if unit else d["sym"][i0]
                        exp = clipz(toreal(rendered[oy, ox]) + uw + p["noise_gaussian_mean"] + e["sym"][i0] * p["noise_gaussian_std"])
                        r, _ = ck.solve("noise-template", cs + [toreal(img[i0]) != exp])
                        if r == "unsat":
                            found = (d, e, unit)
                            break
                    if found:
                        break
                if not found:
                    ck.prove("noise", cs + [toreal(img[i0]) != clipz(toreal(rendered[oy, ox]))], False, cex_noise, nice=nice + [[p["noise_gaussian_std"] >= 1], [p["noise_uniform"] >= 10], [p["noise_gaussian_mean"] >= 10]])
                    continue
                d, e, unit = found
                for i in np.ndindex(h, w):
                    uw = d["sym"][i] * p["noise_uniform"] if unit else d["sym"][i]
                    exp = clipz(toreal(rendered[i[0] + oy, i[1] + ox]) + uw + p["noise_gaussian_mean"] + e["sym"][i] * p["noise_gaussian_std"])
                    ck.prove("noise", cs, toreal(img[i]) == exp, cex_noise, nice=nice)
        # histogram: the result of histogram matching of the (noisy) image is delivered as it is
        def mwrap(source, template_hist):
            H = MATCH
            return opaque("match", ("src", "hist"), [jnp.asarray(source, jnp.float32), jnp.asarray(template_hist, jnp.float32)], source.shape, lambda s, t: H(s, t))
        gh = Gen(**conf, hist=True, extra_patch=[(MATCH, mwrap)])
        ih = gh.run(ck, flows=zf, resolve=False)
        mt = [o for o in ih.opaques if o[0] == "match"]

        def cex_hist(m):
            gr = Gen(**conf, hist=True)
            gr.flows_used, gr.fixed = zf, {}
            out, tags, data = gr.concrete(it, m)
            for nm in ("i1", "i2"):
                v = out[nm]
                if np.any(v != np.round(v)) or v.min() < 0 or v.max() > 255:
                    return ck.violation("histogram-levels", f"{nm} with a target histogram has non-level pixels {v.tolist()}", data)
            plain = g.concrete(it, m)[0]
            for nm in ("i1", "i2"):
                for kk in range(g.B):
                    want = np.asarray(MATCH(jnp.asarray(plain[nm][kk], jnp.float32), jnp.ones(256)))
                    if far(out[nm][kk], want, 255, 1e-6):
                        return ck.violation("histogram", f"pair {kk} {nm}: not the histogram-matched version of its image", data)
        if len(mt) != 2 * gh.B:
            ck.prove("histogram", [], False, cex_hist)
        else:
            for k in range(gh.B):
                for q, name in enumerate(("i1", "i2")):
                    lab, a, res, _ = mt[2 * k + q]
                    for i in np.ndindex(h, w):
                        ck.prove("histogram-source", ih.constraints(), toreal(a["src"][i]) == toreal(it.out[name][(k,) + i]), cex_hist, nice=[g.nice(it)])
                        ck.prove("histogram-delivered", ih.constraints() + [x >= 0 for x in res.reshape(-1)] + [x <= 255 for x in res.reshape(-1)],
                                 toreal(ih.out[name][(k,) + i]) == toreal(res[i]), cex_hist)
        ck.sample(str(conf))
    ck.extra["primitives"] = sorted(it.prims)


if __name__ == "__main__":
    main("G03", body, functions=fingerprint(GEN, repo.generate.add_noise_to_image),
         assumptions=["float32 arithmetic interpreted as exact reals", "rendered images are arbitrary (their content is G01, histogram matching is G08)", "random draws satisfy the contracts of jax.random"],
         outside="larger images and batches; float32 rounding.")
