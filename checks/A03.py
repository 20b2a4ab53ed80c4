"""Backward warping (array flows and callable flows)."""
from vlib.common import main, fingerprint, TIER
from vlib import repo
from vlib.jaxsmt import *
from vlib.refs import *
import itertools

BW = repo.apply.apply_flow_to_image_backward
CALL = repo.apply.apply_flow_to_image_callable


def body(ck):
    quick = TIER == "quick"
    shapes = [(2, 3), (3, 2)] if quick else [(1, 1), (1, 3), (2, 3), (3, 2), (3, 4), (4, 4)]
    ck.bounds = f"image shapes {shapes}; all real image values, flows and dt. Each output pixel is decided with all landing cells of its own sample point; the flow of the other pixels is arbitrary within one cell each."
    dt = z3.Real("dt")
    for H, W in shapes:
        img, F = sym_array("I", (H, W)), sym_array("f", (H, W, 2))
        jps = [("array", trace(lambda i, f, d: BW(i, f, d), jnp.zeros((H, W)), jnp.zeros((H, W, 2)), 1.0))]

        def viacall(i, f, d):
            return CALL(i, lambda t, x, y: (f[y, x, 0], f[y, x, 1]), t=0.25, dt=d, forward=False)
        jps.append(("callable", trace(viacall, jnp.zeros((H, W)), jnp.zeros((H, W, 2)), 1.0)))
        for label, jp in jps:
            for (r, c) in np.ndindex(H, W):
                if label == "callable" and quick and (r + c) % 2:
                    continue
                sx, sy = c - F[r, c, 0] * dt, r - F[r, c, 1] * dt
                yc, xc = axis_cells(H, sy), axis_cells(W, sx)
                ck.prove("case-split-complete", [], z3.And(complete(yc), complete(xc)), lambda m: None)
                others = []
                for (i, j) in np.ndindex(H, W):
                    if (i, j) != (r, c):      # keep other samples outside the image: their output is one border pixel
                        others += [j - F[i, j, 0] * dt < 0, i - F[i, j, 1] * dt < 0]
                for a, b in itertools.product(yc, xc):
                    it = Interp(ck, [a[1], b[1]] + others)
                    out = it.run(jp, [img, F, np.array(dt, dtype=object)])[0]
                    ck.reachable("vacuity", it.constraints())

                    def cex(m):
                        ia, fa, d = marr(m, img), marr(m, F), mval(m, dt)
                        if label == "array":
                            got = np.asarray(BW(jnp.asarray(ia), jnp.asarray(fa), d))
                        else:
                            got = np.asarray(viacall(jnp.asarray(ia), jnp.asarray(fa), d))
                        exp = np.array([[np_bilinear(ia.astype(float), j - fa[i, j, 0] * d, i - fa[i, j, 1] * d) for j in range(W)] for i in range(H)])
                        if far(got, exp, np.abs(ia).max()):
                            return ck.violation("backward", f"{label} flow, image {H}x{W}, dt={d}: got {got.tolist()}, expected {exp.tolist()}",
                                                dict(image=ia.tolist(), flow=fa.tolist(), dt=d, got=got.tolist(), expected=exp.tolist()))
                    want = blend2(img, a, b)
                    d_ = toreal(out[r, c]) - want
                    nice = [bounded([img, F], 16) + [dt == 1, z3.Or(d_ > 1, d_ < -1)], bounded([img, F], 64) + [dt == z3.RealVal("1/2")], [dt == 1]]
                    ck.prove(f"warp-{label}", it.constraints(), diff_zero(out[r, c], want), cex, nice=nice)
                    (i, j) = (H - 1, W - 1) if (r, c) != (H - 1, W - 1) else (0, 0)
                    if (i, j) != (r, c):
                        ck.prove("independence", it.constraints(), diff_zero(out[i, j], img[0, 0]), cex, nice=nice)
            # zero flow is the identity for every dt
            it = Interp(ck, [])
            Z = concrete_to_o(np.zeros((H, W, 2)))
            out = it.run(jp, [img, Z, np.array(dt, dtype=object)])[0]

            def cexz(m):
                ia, d = marr(m, img), mval(m, dt)
                got = np.asarray(BW(jnp.asarray(ia), jnp.zeros((H, W, 2)), d))
                if far(got, ia, np.abs(ia).max()):
                    return ck.violation("backward-identity", f"zero flow changed the image: {ia.tolist()} -> {got.tolist()}", dict(image=ia.tolist(), dt=d))
            ck.prove("zero-flow", [], z3.And(*[tobool(diff_zero(out[i], img[i])) for i in np.ndindex(H, W)]), cexz)
        ck.sample(f"{H}x{W}")


if __name__ == "__main__":
    main("A03", body, functions=fingerprint(BW, CALL, repo.utils.bilinear_interpolate),
         assumptions=["float32 arithmetic interpreted as exact reals"], outside="larger images; float32 rounding.")
