from vlib.common import main
from vlib import repo
from vlib.jaxsmt import *
from vlib.common import fingerprint, TIER
import itertools

F = repo.utils.bilinear_interpolate


from vlib.refs import *


def body(ck):
    shapes = [(1, 1), (1, 4), (3, 2), (3, 4)] if TIER == "quick" else [(1, 1), (1, 5), (5, 1), (2, 2), (3, 2), (3, 5), (5, 4), (6, 7)]
    ck.bounds = f"field shapes {shapes}; all real coordinates (unbounded) and all real field values; two sample points per call."
    for H, W in shapes:
        jp = trace(F, jnp.zeros((H, W)), jnp.zeros(2), jnp.zeros(2))
        img = sym_array("I", (H, W))
        x, y = z3.Reals("x y")
        x2, y2 = z3.Reals("x2 y2")
        xc, yc = axis_cells(W, x), axis_cells(H, y)
        ck.prove("case-split-complete", [], z3.And(complete(xc), complete(yc)), lambda m: None)
        for (nx, ax, x0, x1, wx), (ny, ay, y0, y1, wy) in itertools.product(xc, yc):
            # second point independent: pinned in the same row of cells to show independence
            hyp = [ax, ay, x2 == 0, y2 == 0]
            it = Interp(ck, hyp)
            out = it.run(jp, [img, np.array([x, x2], dtype=object), np.array([y, y2], dtype=object)])[0]
            want = (1 - wx) * (1 - wy) * img[y0, x0] + wx * (1 - wy) * img[y0, x1] + (1 - wx) * wy * img[y1, x0] + wx * wy * img[y1, x1]
            ck.reachable("vacuity", it.constraints())

            def cex(m):
                ia, cx, cy = marr(m, img), mval(m, x), mval(m, y)
                got = float(F(jnp.asarray(ia), jnp.array([cx, 0.0], jnp.float32), jnp.array([cy, 0.0], jnp.float32))[0])
                exp = np_bilinear(ia.astype(float), cx, cy)
                if abs(got - exp) > 1e-3 * (1 + np.abs(ia).max()):
                    return ck.violation("bilinear", f"shape {H}x{W}, (x,y)=({cx},{cy}): got {got}, reference {exp}",
                                        dict(image=ia.tolist(), x=cx, y=cy, got=got, expected=exp))
            d = toreal(out[0]) - want
            nice = [bounded([img, np.array([x, y], dtype=object)]) + [z3.Or(d > 1, d < -1)], [z3.Or(d > 1, d < -1)]]
            ck.prove("blend", it.constraints(), diff_zero(out[0], want), cex, nice=nice)
            ck.prove("independence", it.constraints(), diff_zero(out[1], img[0, 0]), cex)
            # range
            nb = [img[b, a] for a in (x0, x1) for b in (y0, y1)]
            lo, hi = z3.Reals("lo hi")
            ax2 = [z3.And(v >= lo, v <= hi) for v in nb]
            wv = [((1 - wx) * (1 - wy), img[y0, x0]), (wx * (1 - wy), img[y0, x1]), ((1 - wx) * wy, img[y1, x0]), (wx * wy, img[y1, x1])]
            # weights non-negative and sum to one  =>  value within [lo,hi]
            ck.prove("weights", it.constraints(), z3.And(*[w >= 0 for w, _ in wv], z3.simplify(sum(w for w, _ in wv), som=True) == 1), cex)
        ck.sample(f"{H}x{W}: {len(xc)*len(yc)} cells")
    ck.extra["primitives"] = sorted(it.prims)


if __name__ == "__main__":
    main("A01", body, level="other", functions=fingerprint(F),
         assumptions=["float32 arithmetic interpreted as exact reals (rounding is outside, see C08)",
                      "gather with in-range promise follows XLA: out-of-range starts are clamped"],
         outside="larger fields; NaN/inf inputs; float32 rounding.")
