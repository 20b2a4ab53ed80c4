"""Forward warping (bilinear splatting)."""
from vlib.common import main, fingerprint, TIER
from vlib import repo
from vlib.jaxsmt import *
from vlib.refs import *
import itertools

FW = repo.apply.apply_flow_to_image_forward
CALL = repo.apply.apply_flow_to_image_callable


def land_cells(n, v):
    """landing cells of a displaced coordinate: (hypothesis, [(index, weight)...]) - shares outside the image are dropped"""
    cells = [(v < -1, [])]
    for k in range(-1, n):
        sh = []
        if 0 <= k < n:
            sh.append((k, 1 - (v - k)))
        if 0 <= k + 1 < n:
            sh.append((k + 1, v - k))
        cells.append((z3.And(v >= k, v < k + 1), sh))
    cells.append((v >= n, []))
    return cells


def body(ck):
    quick = TIER == "quick"
    single = [(2, 3)] if quick else [(1, 1), (1, 3), (2, 3), (3, 2), (3, 3)]
    pairs = [(1, 2), (2, 1)] if quick else [(1, 2), (2, 1), (1, 3), (2, 2)]
    ck.bounds = (f"one arbitrarily displaced pixel among arbitrary pixel values for images {single}; every pair of arbitrarily displaced "
                 f"pixels for images {pairs}; all real flows, dt and pixel values.")
    dt = z3.Real("dt")

    def run_case(H, W, jp, label, moving, F, img):
        pos = {q: (q[1] + F[q][0] * dt, q[0] + F[q][1] * dt) for q in moving}
        cells = []
        for q in moving:
            cx, cy = land_cells(W, pos[q][0]), land_cells(H, pos[q][1])
            ck.prove("case-split-complete", [], z3.And(z3.Or(*[c[0] for c in cx]), z3.Or(*[c[0] for c in cy])), lambda m: None)
            cells.append(list(itertools.product(cy, cx)))
        for combo in itertools.product(*cells):
            hyp = [h for (cy, cx) in combo for h in (cy[0], cx[0])]
            it = Interp(ck, hyp)
            out = it.run(jp, [img, F, np.array(dt, dtype=object)])[0]
            ck.reachable("vacuity", it.constraints())
            want = oarr((H, W))
            for i in np.ndindex(H, W):
                want[i] = img[i] if i not in moving else z3.RealVal(0)
            for q, (cy, cx) in zip(moving, combo):
                for (r, wr), (c, wc) in itertools.product(cy[1], cx[1]):
                    want[r, c] = want[r, c] + img[q] * wr * wc

            def cex(m):
                ia, fa, d = marr(m, img), marr(m, F), mval(m, dt)
                if label == "array":
                    got = np.asarray(FW(jnp.asarray(ia), jnp.asarray(fa), d))
                else:
                    got = np.asarray(viacall(jnp.asarray(ia), jnp.asarray(fa), d))
                exp = np_splat(ia.astype(float), fa.astype(float), d)
                if far(got, exp, np.abs(ia).sum()):
                    return ck.violation("forward", f"{label} flow, image {H}x{W}: got {got.tolist()}, expected {exp.tolist()}",
                                        dict(image=ia.tolist(), flow=fa.tolist(), dt=d, got=got.tolist(), expected=exp.tolist()))
            for i in np.ndindex(H, W):
                d_ = toreal(out[i]) - want[i]
                ck.prove(f"splat-{label}", it.constraints(), diff_zero(out[i], want[i]), cex,
                         nice=[bounded([img, F], 16) + [dt == 1, z3.Or(d_ > 1, d_ < -1)], bounded([img, F], 16) + [dt == z3.RealVal("1/2")], [dt == 1]])
            # conservation: if nothing leaves the image the total is conserved; never gained
            inside = all(len(cy[1]) == 2 or H == 1 for cy, cx in combo) and all(len(cx[1]) == 2 or W == 1 for cy, cx in combo)
            tot = sum(toreal(out[i]) for i in np.ndindex(H, W))
            src = sum(img[i] for i in np.ndindex(H, W))
            if inside and H > 1 and W > 1:
                ck.prove("conservation", it.constraints(), diff_zero(tot, src), cex)

    def viacall(i, f, d):
        return CALL(i, lambda t, x, y: (f[y, x, 0], f[y, x, 1]), t=0.5, dt=d, forward=True)

    for H, W in single:
        img, F = sym_array("I", (H, W)), sym_array("f", (H, W, 2))
        jp = trace(lambda i, f, d: FW(i, f, d), jnp.zeros((H, W)), jnp.zeros((H, W, 2)), 1.0)
        jc = trace(viacall, jnp.zeros((H, W)), jnp.zeros((H, W, 2)), 1.0)
        for q in np.ndindex(H, W):
            G = concrete_to_o(np.zeros((H, W, 2)))
            G[q][0], G[q][1] = F[q][0], F[q][1]
            run_case(H, W, jp, "array", [q], G, img)
            if q == (0, W - 1):
                run_case(H, W, jc, "callable", [q], G, img)
        ck.sample(f"single moving pixel {H}x{W}")
    for H, W in pairs:
        img, F = sym_array("I", (H, W)), sym_array("f", (H, W, 2))
        jp = trace(lambda i, f, d: FW(i, f, d), jnp.zeros((H, W)), jnp.zeros((H, W, 2)), 1.0)
        for a, b in itertools.combinations(list(np.ndindex(H, W)), 2):
            G = concrete_to_o(np.zeros((H, W, 2)))
            for q in (a, b):
                G[q][0], G[q][1] = F[q][0], F[q][1]
            run_case(H, W, jp, "array", [a, b], G, img)
        ck.sample(f"pairs {H}x{W}")


if __name__ == "__main__":
    main("A04", body, functions=fingerprint(FW, CALL),
         assumptions=["float32 arithmetic interpreted as exact reals"], outside="three or more simultaneously displaced pixels; larger images; float32 rounding.")
