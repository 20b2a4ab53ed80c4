"""Particle advection and trilinear interpolation."""
from vlib.common import main, fingerprint, TIER
from vlib import repo
from vlib.jaxsmt import *
from vlib.refs import *
import itertools

AP = repo.apply.apply_flow_to_particles
TRI = repo.utils.trilinear_interpolate


def body(ck):
    quick = TIER == "quick"
    s2 = [(2, 3), (3, 2)] if quick else [(1, 1), (1, 3), (2, 3), (3, 2), (4, 3), (3, 5)]
    s3 = [(2, 1, 3), (2, 3, 2)] if quick else [(1, 1, 1), (2, 1, 3), (2, 3, 2), (3, 2, 4), (3, 3, 3)]
    ck.bounds = (f"2-D flow shapes {s2}, 3-D flow shapes {s3}, two particles; positions, flow values, dt and the three "
                 f"resolutions arbitrary reals (resolutions positive).")
    dt, rx, ry, rz = z3.Reals("dt rx ry rz")
    pos_res = [rx > 0, ry > 0, rz > 0]
    nmod = lambda arrs: bounded(arrs, 8) + [dt == 1, rx == 2, ry == z3.RealVal("1/2"), rz == 3]

    # ---------------- 2-D
    for H, W in s2:
        jp = trace(lambda p, f, d, a, b: AP(p, f, d, a, b), jnp.zeros((2, 2)), jnp.zeros((H, W, 2)), 1.0, 1.0, 1.0)
        F = sym_array("f", (H, W, 2))
        P = sym_array("p", (2, 2))
        y, x = P[0]
        yq, xq = P[1]
        yc, xc = axis_cells(H, y), axis_cells(W, x)
        ck.prove("case-split-complete", [], z3.And(complete(yc), complete(xc)), lambda m: None)
        # second particle: fixed in the last cell, must be unaffected by the first
        yc2, xc2 = axis_cells(H, yq)[-2 if H > 1 else -1], axis_cells(W, xq)[-2 if W > 1 else -1]
        for a, b in itertools.product(yc, xc):
            it = Interp(ck, pos_res + [a[1], b[1], yc2[1], xc2[1]])
            out = it.run(jp, [P, F] + [np.array(v, dtype=object) for v in (dt, rx, ry)])[0]
            want = [[y + blend2(F[..., 1], a, b) * ry * dt, x + blend2(F[..., 0], a, b) * rx * dt],
                    [yq + blend2(F[..., 1], yc2, xc2) * ry * dt, xq + blend2(F[..., 0], yc2, xc2) * rx * dt]]
            ck.reachable("vacuity", it.constraints())

            def cex(m):
                fa, pa = marr(m, F), marr(m, P)
                d, a_, b_ = (mval(m, v) for v in (dt, rx, ry))
                got = np.asarray(AP(jnp.asarray(pa), jnp.asarray(fa), d, a_, b_))
                exp = np.array([[q[0] + np_bilinear(fa[..., 1], q[1], q[0]) * b_ * d, q[1] + np_bilinear(fa[..., 0], q[1], q[0]) * a_ * d] for q in pa.astype(float)])
                if far(got, exp, np.abs(exp).max()):
                    return ck.violation("advect-2d", f"flow {H}x{W}: particles {pa.tolist()} dt={d} res=({a_},{b_}) moved to {got.tolist()}, expected {exp.tolist()}",
                                        dict(flow=fa.tolist(), positions=pa.tolist(), dt=d, res_x=a_, res_y=b_, got=got.tolist(), expected=exp.tolist()))
            for k in range(2):
                for c in range(2):
                    d_ = toreal(out[k, c]) - want[k][c]
                    ck.prove("advect2d", it.constraints(), diff_zero(out[k, c], want[k][c]), cex,
                             nice=[nmod([F, P]) + [z3.Or(d_ > 1, d_ < -1)], nmod([F, P])])
        ck.sample(f"2-D {H}x{W}: {len(yc)*len(xc)} cells")
    # ---------------- 3-D advection and trilinear interpolation
    for D, H, W in s3:
        jp = trace(lambda p, f, d, a, b, c: AP(p, f, d, a, b, c), jnp.zeros((2, 3)), jnp.zeros((D, H, W, 3)), 1.0, 1.0, 1.0, 1.0)
        jt = trace(TRI, jnp.zeros((D, H, W)), jnp.zeros(1), jnp.zeros(1), jnp.zeros(1))
        F = sym_array("g", (D, H, W, 3))
        P = sym_array("p", (2, 3))
        z, y, x = P[0]
        cells = [axis_cells(n, v) for n, v in ((D, z), (H, y), (W, x))]
        ck.prove("case-split-complete", [], z3.And(*[complete(c) for c in cells]), lambda m: None)
        c2 = [axis_cells(n, v)[-2 if n > 1 else -1] for n, v in zip((D, H, W), P[1])]
        combos = list(itertools.product(*cells))
        for cc in combos:
            it = Interp(ck, pos_res + [c[1] for c in cc] + [c[1] for c in c2])
            args = [P, F] + [np.array(v, dtype=object) for v in (dt, rx, ry, rz)]
            out = it.run(jp, args)[0]
            res = (rz, ry, rx)
            want = [[P[k][i] + blend3(F[..., 2 - i], *cs) * res[i] * dt for i in range(3)] for k, cs in enumerate((cc, c2))]
            ck.reachable("vacuity", it.constraints())

            def cex(m):
                fa, pa = marr(m, F), marr(m, P)
                d, a_, b_, c_ = (mval(m, v) for v in (dt, rx, ry, rz))
                got = np.asarray(AP(jnp.asarray(pa), jnp.asarray(fa), d, a_, b_, c_))
                r3 = (c_, b_, a_)
                exp = np.array([[q[i] + np_trilinear(fa[..., 2 - i], q[2], q[1], q[0]) * r3[i] * d for i in range(3)] for q in pa.astype(float)])
                if far(got, exp, np.abs(exp).max()):
                    return ck.violation("advect-3d", f"flow {D}x{H}x{W}: particles {pa.tolist()} dt={d} res=({a_},{b_},{c_}) moved to {got.tolist()}, expected {exp.tolist()}",
                                        dict(flow=fa.tolist(), positions=pa.tolist(), dt=d, res=[a_, b_, c_], got=got.tolist(), expected=exp.tolist()))
            for k in range(2):
                for i in range(3):
                    d_ = toreal(out[k, i]) - want[k][i]
                    ck.prove("advect3d", it.constraints(), diff_zero(out[k, i], want[k][i]), cex,
                             nice=[nmod([F, P]) + [z3.Or(d_ > 1, d_ < -1)], nmod([F, P])])
            it2 = Interp(ck, [c[1] for c in cc])
            o1 = lambda v: np.array([v], dtype=object)
            t = it2.run(jt, [F[..., 0], o1(x), o1(y), o1(z)])[0]

            def cex2(m):
                fa = marr(m, F[..., 0])
                q = [mval(m, v) for v in (x, y, z)]
                got = float(TRI(jnp.asarray(fa), *[jnp.array([v], jnp.float32) for v in q])[0])
                exp = np_trilinear(fa.astype(float), *q)
                if far(got, exp, np.abs(fa).max()):
                    return ck.violation("trilinear", f"volume {D}x{H}x{W} at (x,y,z)={q}: {got}, expected {exp}", dict(volume=fa.tolist(), at=q, got=got, expected=exp))
            w3 = blend3(F[..., 0], *cc)
            d_ = toreal(t[0]) - w3
            ck.prove("trilinear", it2.constraints(), diff_zero(t[0], w3), cex2, nice=[bounded([F, P], 8) + [z3.Or(d_ > 1, d_ < -1)]])
        ck.sample(f"3-D {D}x{H}x{W}: {len(combos)} cells")


if __name__ == "__main__":
    main("A02", body, functions=fingerprint(AP, TRI, repo.utils.bilinear_interpolate),
         assumptions=["float32 arithmetic interpreted as exact reals"], outside="larger flow fields; more than two particles per call; float32 rounding.")
