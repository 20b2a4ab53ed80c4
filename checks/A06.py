"""Evaluation of flow functions on grids; callable warping equals array warping."""
from vlib.common import main, fingerprint, TIER
from vlib import repo
from vlib.jaxsmt import *
from vlib.refs import *

GEN = repo.utils.generate_array_flow_field
CALL = repo.apply.apply_flow_to_image_callable
BW, FW = repo.apply.apply_flow_to_image_backward, repo.apply.apply_flow_to_image_forward
U = [z3.Function(f"UF_u{k}", *([z3.RealSort()] * 4)) for k in range(2)]


def np_uf(name, *xs):
    return float(uf_p.impl(*[jnp.asarray(float(x), jnp.float32) for x in xs], name=name))


def body(ck):
    shapes = [(1, 3), (3, 2), (4, 5)] if TIER == "quick" else [(1, 1), (1, 4), (4, 1), (3, 2), (2, 3), (4, 5), (5, 7), (8, 6)]
    ck.bounds = f"grid shapes {shapes}; the flow function is uninterpreted (any function of time and the two coordinates); images, t and dt arbitrary reals (image shapes up to 2x3)."
    for H, W in shapes:
        f = lambda t, a, b: (uf("u0", t[0], a, b), uf("u1", t[0], a, b))
        jp = trace(lambda: GEN(f, (H, W)))
        it = Interp(ck, [])
        out = it.run(jp, [])[0]

        def cex(m):
            got = np.asarray(GEN(f, (H, W)))
            exp = np.array([[[np_uf(f"u{k}", 1, r, c) for k in range(2)] for c in range(W)] for r in range(H)])
            if far(got, exp, np.abs(exp).max()):
                return ck.violation("grid", f"grid {H}x{W}: shape {got.shape}; got {got.tolist()} expected {exp.tolist()}", dict(shape=[H, W]))
        if out.shape != (H, W, 2):
            ck.prove("shape", [], False, cex)
            continue
        one = z3.RealVal(1)
        ck.reachable("vacuity", [U[0](one, one, one) > 0])
        ck.prove("grid", [], z3.And(*[toreal(out[r, c, k]) == U[k](one, z3.RealVal(r), z3.RealVal(c)) for r in range(H) for c in range(W) for k in range(2)]), cex)
        ck.sample(f"grid {H}x{W}")
    # callable warping: the flow array it uses is f(t, x=column, y=row)
    for (H, W) in [(2, 3)] if TIER == "quick" else [(1, 2), (2, 3), (3, 2)]:
        img = sym_array("I", (H, W))
        t, dt = z3.Reals("t dt")
        for forward in (False, True):
            seen = {}

            def spy(orig):
                def g(image, flow_field, *a, **k):
                    flow_field = tag("flow", ["flow"], [flow_field])[0]
                    return orig(image, flow_field, *a, **k)
                return g
            undo = repo.patch_everywhere(BW, spy(BW)) + repo.patch_everywhere(FW, spy(FW))
            try:
                fcall = lambda i, tt, d: CALL(i, lambda ti, x, y: (uf("u0", ti, x, y), uf("u1", ti, x, y)), t=tt, dt=d, forward=forward)
                jp = trace(fcall, jnp.zeros((H, W)), 1.0, 1.0)
            finally:
                repo.restore(undo)
            # run only up to the tagged flow: cut the interpreter there
            class Cut(Interp):
                def p_vtag(self, e, i, p):
                    super().p_vtag(e, i, p)
                    raise StopIteration
            it = Cut(ck, [])
            try:
                it.run(jp, [img, np.array(t, dtype=object), np.array(dt, dtype=object)])
            except StopIteration:
                pass

            def cexc(m):
                ia = np.arange(H * W, dtype=np.float32).reshape(H, W) ** 1.3
                sc = 0.03          # keep displacements small so that both warps see them
                cf = lambda ti, x, y: (sc * uf("u0", ti, x, y), sc * uf("u1", ti, x, y))
                got = np.asarray(CALL(jnp.asarray(ia), cf, t=0.5, dt=0.5, forward=forward))
                arr = np.array([[[sc * np_uf(f"u{k}", 0.5, c, r) for k in range(2)] for c in range(W)] for r in range(H)], dtype=np.float32)
                exp = np.asarray((FW if forward else BW)(jnp.asarray(ia), jnp.asarray(arr), 0.5))
                if far(got, exp, np.abs(ia).max()):
                    return ck.violation("callable", f"callable warp (forward={forward}) of a {H}x{W} image gives {got.tolist()}, with the array of the function's values {exp.tolist()}", dict(forward=forward))
            flows = [a["flow"] for l, a in it.tags if l == "flow"]
            if len(flows) != 1 or flows[0].shape != (H, W, 2):
                # not routed through the array warps: compare the images themselves on the real code
                if cexc(None):
                    return
                ck.extra["note"] = "array warp not called by the callable warp; whole-image comparison used"
                F = sym_array("fl", (H, W, 2))
                continue
            fl = flows[0]
            ck.prove("callable-args", [], z3.And(*[toreal(fl[r, c, k]) == U[k](t, z3.RealVal(c), z3.RealVal(r)) for r in range(H) for c in range(W) for k in range(2)]), cexc)
            # and with that flow the result is the array warp's result (same jaxpr tail, zero-displacement cell excluded none)
            F = sym_array("fl", (H, W, 2))
            ca = trace(lambda i, a, d: CALL(i, lambda ti, x, y: (a[y, x, 0], a[y, x, 1]), t=0.0, dt=d, forward=forward), jnp.zeros((H, W)), jnp.zeros((H, W, 2)), 1.0)
            ar = trace((lambda i, a, d: FW(i, a, d)) if forward else (lambda i, a, d: BW(i, a, d)), jnp.zeros((H, W)), jnp.zeros((H, W, 2)), 1.0)
            hyp = []
            for (r, c) in np.ndindex(H, W):      # one interior cell per pixel: strictly positive sub-pixel displacements
                for k in range(2):
                    hyp += [F[r, c, k] * dt > 0, F[r, c, k] * dt < 1]
            o1 = Interp(ck, hyp).run(ca, [img, F, np.array(dt, dtype=object)])[0]
            o2 = Interp(ck, hyp).run(ar, [img, F, np.array(dt, dtype=object)])[0]
            ck.reachable("vacuity", hyp)
            for i in np.ndindex(H, W):
                ck.prove("callable=array", hyp, diff_zero(o1[i], o2[i]), cexc)


if __name__ == "__main__":
    main("A06", body, functions=fingerprint(GEN, CALL, BW, FW),
         assumptions=["float32 arithmetic interpreted as exact reals", "flow functions are pure and return one scalar per component"],
         outside="larger grids; the numeric content of the two array warps is decided by A03/A04.")
