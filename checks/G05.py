"""Particle parameters stay inside the range chosen for their pair; reported parameters are the ones used."""
from vlib.common import main, fingerprint, TIER
from vlib.gen import *


def body(ck):
    ck.fallback = RandomModel
    quick = TIER == "quick"
    confs = [dict(), dict(B=1, nflows=1, diameters=((0.5, 0.5),), intensities=((10, 10), (20, 40), (100, 250)), rhos=((0.0, 0.25), (-0.75, -0.5), (0.5, 0.75)))]
    if not quick:
        confs += [dict(B=5, nflows=3, bounds=(8, 8), image=(4, 4), offset=(2, 2), density=(1 / 32, 5 / 64), diameters=((0.25, 0.5), (0.5, 1.0), (0.125, 1.25))),
                  dict(B=2, nflows=4, intensities=((0.5, 1.5),), rhos=((-0.875, 0.875),))]
    ck.bounds = f"configurations {confs or ''}; every random outcome, every variance >= 0, every dt, resolution, flow and noise level."
    R = z3.RealVal
    for conf in confs:
        g = Gen(**conf)
        it = g.run(ck, resolve=False)
        ck.reachable("vacuity", it.constraints())
        zf = concrete_to_o(np.zeros(g.sflow.shape))
        it0 = g.run(ck, flows=zf, fixed={"p_hide_img1": Fraction(0), "p_hide_img2": Fraction(0)}, resolve=False)
        zero_used = (g.flows_used, g.fixed)
        g.flows_used, g.fixed = g.sflow, {}
        o = it.out
        rng = {"diam": g.diameters, "int": g.intensities, "rho": g.rhos}
        tol = 1e-4
        for k in range(g.B):
            a, b = g.pair(it, k)

            def check_concrete(m):
                out, tags, data = g.concrete(it, m)
                t1, t2 = tags[2 * k], tags[2 * k + 1]
                for q, rs in rng.items():
                    r = out[q][k]
                    if not any(abs(r[0] - lo) < tol and abs(r[1] - hi) < tol for lo, hi in rs):
                        return ck.violation("reported", f"pair {k}: reported {q} range {r.tolist()} is none of {rs}", data)
                lohi = [(n, out[q][k]) for n, q in (("dx", "diam"), ("dy", "diam"), ("rho", "rho"))]
                for nm, t in (("1", t1), ("2", t2)):
                    for n, (lo, hi) in lohi:
                        if np.any(t[n] < lo - tol) or np.any(t[n] > hi + tol):
                            return ck.violation("range", f"pair {k} image {nm}: {n} = {t[n].tolist()} outside its range [{lo},{hi}]", data)
                    lo, hi = out["int"][k]
                    v = t["amp"]
                    if np.any((v != 0) & ((v < lo - tol * 100) | (v > hi + tol * 100))):
                        return ck.violation("range", f"pair {k} image {nm}: intensity {v.tolist()} outside [{lo},{hi}]", data)
                d = out["dens"][k]
                if d < g.density[0] - 1e-6 or d > g.density[1] + 1e-6:
                    return ck.violation("density", f"pair {k}: reported density {d} outside {g.density}", data)
            cs = it.constraints()
            nice = [g.nice(it)]
            big = max(d[1] for d in g.diameters)
            for nm, t in (("1", a), ("2", b)):
                got = t[3].get("max_diameter")
                ck.prove("patch-diameter", [], got == big, lambda m: ck.violation("patch", f"image {nm} is rendered with patches for diameter {got}, largest configured diameter is {big}", {}))
                ck.prove("render-region", [], tuple(t[3].get("shape", ())) == tuple(g.bounds), lambda m: ck.violation("region", f"image {nm} rendered on {t[3].get('shape')}, particle region is {g.bounds}", {}))
            for q, rs in rng.items():
                r = o[q]
                if r.shape != (g.B, 2):
                    ck.prove("reported-shape", [], False, lambda m: ck.violation("reported-shape", f"{q} reported with shape {r.shape}", {}))
                    return
                ck.prove(f"reported-{q}", cs, z3.Or(*[z3.And(toreal(r[k, 0]) == R(frac(lo)), toreal(r[k, 1]) == R(frac(hi))) for lo, hi in rs]), check_concrete, nice=nice)
                for lo, hi in rs:                  # each configured range can be chosen
                    hit = z3.And(toreal(r[k, 0]) == R(frac(lo)), toreal(r[k, 1]) == R(frac(hi)))
                    v, _ = ck.solve("range-choosable", cs + [hit])
                    if v != "sat":
                        def never(m):
                            seen = {tuple(np.round(x, 4)) for s in range(40) for x in np.asarray(real_ranges(g, q, s))}
                            if tuple(np.round((lo, hi), 4)) not in seen:
                                return ck.violation("never-chosen", f"{q} range {(lo, hi)} is never chosen (40 seeds)", {})
                        ck.prove("range-choosable", [], False, never)
            for nm, t in (("1", a[1]), ("2", b[1])):
                n = t["amp"].shape[0]
                for j in range(n):
                    for name, q in (("dx", "diam"), ("dy", "diam"), ("rho", "rho")):
                        ck.prove(f"in-range-{name}{nm}", cs, z3.And(toreal(t[name][j]) >= toreal(o[q][k, 0]), toreal(t[name][j]) <= toreal(o[q][k, 1])), check_concrete, nice=nice)
                    v = toreal(t["amp"][j])
                    ck.prove(f"in-range-amp{nm}", cs, z3.Or(v == 0, z3.And(v >= toreal(o["int"][k, 0]), v <= toreal(o["int"][k, 1]))), check_concrete, nice=nice)
            dk = toreal(o["dens"][k])
            ck.prove("density-in-range", cs, z3.And(dk >= R(frac(g.density[0])), dk <= R(frac(g.density[1]))), check_concrete, nice=nice)
            # the reported density is the one used: with nothing hidden it determines the number of visible particles
            a0, b0 = g.pair(it0, k)
            d0 = toreal(it0.out["dens"][k])
            area = g.bounds[0] * g.bounds[1]

            def cexd(m):
                g.flows_used, g.fixed = zero_used
                out, tags, data = g.concrete(it0, m)
                g.flows_used, g.fixed = g.sflow, {}
                for nm in (0, 1):
                    c = int(np.sum(tags[2 * k + nm]["amp"] != 0))
                    x = area * out["dens"][k]
                    if c not in (int(np.floor(x - 1e-3)), int(np.floor(x + 1e-3))):
                        return ck.violation("density-used", f"pair {k} image {nm+1}: {c} visible particles but the reported density {out['dens'][k]} means {x:.4f}", data)
            inner = z3.And(area * d0 - z3.ToReal(z3.ToInt(area * d0)) > R("1/100"), area * d0 - z3.ToReal(z3.ToInt(area * d0)) < R("99/100"))
            for t in (a0[1], b0[1]):
                cnt = z3.Sum(*([z3.If(toreal(x) != 0, 1, 0) for x in t["amp"].reshape(-1)] + [z3.IntVal(0), z3.IntVal(0)]))
                ck.prove("density-used", it0.constraints(), cnt == z3.ToInt(area * d0), cexd, nice=[g.nice(it0) + [inner], [inner]])
        ck.sample(str(conf))
        ck.extra["primitives"] = sorted(it.prims)


def real_ranges(g, q, seed):
    sp = SPEC(batch_size=g.B, image_shape=g.image, img_offset=g.offset, seeding_density_range=g.density, diameter_ranges=[tuple(d) for d in g.diameters],
              intensity_ranges=[tuple(d) for d in g.intensities], rho_ranges=[tuple(d) for d in g.rhos])
    pr = GEN(jax.random.PRNGKey(seed), jnp.zeros((g.nflows,) + tuple(g.fshape) + (2,)), sp, position_bounds=g.bounds)[2]
    return {"diam": pr.diameter_ranges, "int": pr.intensity_ranges, "rho": pr.rho_ranges}[q]


if __name__ == "__main__":
    main("G05", body, functions=fingerprint(GEN),
         assumptions=["float32 arithmetic interpreted as exact reals", "random draws satisfy the contracts of jax.random (uniform [lo,hi), randint [lo,hi), normal any real)",
                      "sqrt(v) is the non-negative root for v >= 0"],
         outside="larger batches, particle counts and numbers of ranges (each pair and particle goes through the same traced code).")
