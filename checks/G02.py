"""Noise injection."""
from vlib.common import main, fingerprint, TIER
from vlib import repo
from vlib.jaxsmt import *
from vlib.refs import far

F = repo.generate.add_noise_to_image


def body(ck):
    shapes = [(2, 3), (1, 1)] if TIER == "quick" else [(2, 3), (1, 1), (4, 1), (1, 5), (5, 6), (8, 8)]
    ck.bounds = f"image shapes {shapes}; all real pixels (also outside [0,255]), all noise amplitudes >= 0, means and stds >= 0, all draws."
    R = z3.RealVal
    for H, W in shapes:
        jp = trace(lambda k, i, u, m, s: F(k, i, u, m, s), jax.random.PRNGKey(0), jnp.zeros((H, W)), 1.0, 1.0, 1.0)
        img = sym_array("I", (H, W))
        u, mu, sd = z3.Reals("amp mean std")
        hyp = [u >= 0, mu >= 0, sd >= 0]
        it = Interp(ck, [])
        it.assume = hyp
        it.resolve = False
        out = it.run(jp, [raw_key("key"), img] + [np.array(v, dtype=object) for v in (u, mu, sd)])[0]
        ck.reachable("vacuity", it.constraints())
        draws = list(it.draws)

        def conc(m):
            ds = [marr(m, d["sym"], np.float64) for d in draws]
            ia = marr(m, img)
            a, b, c = mval(m, u), mval(m, mu), mval(m, sd)
            cr = ConcreteRun(ds)
            got = np.asarray(cr.run(jp, [jax.random.PRNGKey(0), ia, a, b, c])[0], dtype=float)
            return ds, ia, a, b, c, got

        def cex_range(m):
            ds, ia, a, b, c, got = conc(m)
            if got.shape != ia.shape or np.any(~(got >= 0)) or np.any(~(got <= 255)):
                return ck.violation("range", f"noisy pixel outside [0,255]: {got.tolist()}", dict(image=ia.tolist(), amp=a, mean=b, std=c))
        small = bounded([img], 300) + [u <= 50, mu <= 50, sd <= 50] + bounded([d["sym"] for d in draws], 60)
        for i in np.ndindex(H, W):
            ck.prove("range", it.constraints(), z3.And(toreal(out[i]) >= 0, toreal(out[i]) <= 255), cex_range, nice=[small])
        # identity without noise
        for i in np.ndindex(H, W):
            z = [u == 0, mu == 0, sd == 0, img[i] >= 0, img[i] <= 255]

            def cex0(m):
                ds, ia, a, b, c, got = conc(m)
                if abs(got[i] - ia[i]) > 1e-2:
                    return ck.violation("zero-noise", f"pixel {ia[i]} becomes {got[i]} without noise", dict(image=ia.tolist()))
            ck.prove("zero-noise-identity", it.constraints() + z, toreal(out[i]) == img[i], cex0, nice=[small])
        # exact composition: there are one uniform and one normal draw array, each pixel reading its own element
        uni = [d for d in draws if d["kind"] == "uniform" and int(np.prod(d["shape"])) >= H * W]
        nor = [d for d in draws if d["kind"] == "normal" and int(np.prod(d["shape"])) >= H * W]

        def keyfail(text):
            # replay: show on the real function that two pixels / the two noise sources share their randomness
            n = 16
            g = np.asarray(F(jax.random.PRNGKey(5), jnp.full((n, n), 100.0), 20.0, 5.0, 0.0)) - 105
            h = np.asarray(F(jax.random.PRNGKey(5), jnp.full((n, n), 100.0), 0.0, 5.0, 4.0)) - 105
            c = abs(np.corrcoef(np.argsort(np.argsort(g.ravel())), np.argsort(np.argsort(h.ravel())))[0, 1])
            same = len(np.unique(np.round(g, 6))) < n * n // 2 or len(np.unique(np.round(h, 6))) < n * n // 2
            if c > 0.5 or same or g.std() < 1 or h.std() < 1 or g.min() < -1e-3 or g.max() > 20 + 1e-3 or abs(h.std() - 4) > 1 or abs(h.mean()) > 1:
                return ck.violation("noise-draws", text + f" (uniform spread {g.min():.2f}..{g.max():.2f}, gaussian mean {h.mean():.2f} std {h.std():.2f}, rank correlation {c:.2f})", {})
        ok = False
        if len(uni) == 1 and len(nor) == 1:
            U, N = uni[0]["sym"].reshape(-1), nor[0]["sym"].reshape(-1)
            lo, hi = [np.asarray(uni[0]["params"][k]).reshape(-1)[0] for k in ("lo", "hi")]
            ok = len(U) == H * W and len(N) == H * W
        if not ok:
            ck.prove("draw-structure", [], False, lambda m: keyfail("noise does not use one uniform and one normal draw per pixel"))
            continue
        # the uniform part is what is added for std=mean=0: a draw over [0, amp) whatever the scaling convention
        for n, i in enumerate(np.ndindex(H, W)):
            lo_, hi_ = toreal(lo), toreal(hi)
            unit = z3.If(hi_ > lo_, (U[n] - lo_) / (hi_ - lo_), 0)      # position of the draw within its own interval
            pre = z3.Real("pre")
            # pre = I + w + mu + N*sd with w in [0, amp) proportional to the draw
            wanted = img[i] + mu + N[n] * sd
            res = toreal(out[i])
            clip = lambda e: z3.If(e < 0, 0, z3.If(e > 255, 255, e))
            if not is_z(lo) and not is_z(hi) and frac(lo) == 0 and frac(hi) == 1:
                w = U[n] * u
                side = []
            else:                                       # draw already over [0, amp)
                w = U[n]
                side = []

            def cexw(m):
                ds, ia, a, b, c, got = conc(m)
                uu = [d for d, q in zip(ds, draws) if q["kind"] == "uniform"][0].reshape(-1)
                nn = [d for d, q in zip(ds, draws) if q["kind"] == "normal"][0].reshape(-1)
                ww = uu[n] * a if side is None or (not is_z(hi) and frac(hi) == 1 and not is_z(lo)) else uu[n]
                exp = min(max(ia[i] + ww + b + nn[n] * c, 0), 255)
                if abs(exp - got[i]) > 1e-2 * (1 + abs(exp)):
                    return ck.violation("composition", f"pixel {ia[i]} with uniform {ww}, mean {b}, std {c}, normal {nn[n]}: got {got[i]}, expected {exp}",
                                        dict(image=ia.tolist(), amp=a, mean=b, std=c))
            ck.prove("uniform-in-range", it.constraints(), z3.If(u > 0, z3.And(w >= 0, w < u), w == 0),
                     lambda m: keyfail("uniform noise is not drawn from [0, amplitude)"), nice=[small])
            e = img[i] + w + mu + N[n] * sd
            ck.prove("composition", it.constraints(), res == clip(e), cexw, nice=[small])
        # independent keys
        K = key_sort()
        roots = {}
        ks = [key_z3(d["key"], K, roots, {}) for d in draws]
        ck.prove("independent-keys", [], z3.Distinct(*ks) if len(ks) > 1 else z3.BoolVal(True), lambda m: keyfail("the noise draws share a key"))
        if set(roots) != {"key"} or it.nondet_keys:
            ck.prove("key-only", [], False, lambda m: (np.array_equal(np.asarray(F(jax.random.PRNGKey(1), jnp.full((4, 4), 99.0), 9.0, 0.0, 1.0)),
                                                                     np.asarray(F(jax.random.PRNGKey(2), jnp.full((4, 4), 99.0), 9.0, 0.0, 1.0)))
                                                       and ck.violation("fixed-key", "noise does not depend on the given key", {})))
        ck.sample(f"{H}x{W}: draws {[(d['kind'], d['shape'], repr(d['key'])) for d in draws]}")


if __name__ == "__main__":
    main("G02", body, functions=fingerprint(F),
         assumptions=["float32 arithmetic interpreted as exact reals", "contract of jax.random.uniform: [minval, maxval) and of normal: any real; different derived keys give independent draws"],
         outside="larger images; float32 rounding; quality of the random generator.")
