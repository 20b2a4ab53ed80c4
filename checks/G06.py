"""Seeding density, particle region and hiding."""
from vlib.common import main, fingerprint, TIER
from vlib.gen import *


def body(ck):
    ck.fallback = RandomModel
    quick = TIER == "quick"
    confs = [dict(B=2, bounds=(4, 5), image=(2, 2), offset=(1, 1), density=(1 / 16, 1 / 4)),
             dict(B=1, nflows=1, bounds=(4, 8), density=(1 / 8, 1 / 8), image=(3, 4), offset=(1, 2))]
    if not quick:
        confs += [dict(B=3, bounds=(6, 7), image=(3, 3), offset=(2, 3), density=(0, 3 / 16)), dict(B=2, bounds=(3, 4), image=(3, 4), offset=(0, 0), density=(1 / 4, 1))]
    ck.bounds = f"configurations {confs}; every random outcome, hiding probabilities in [0,1], variances, flows and noise levels."
    R = z3.RealVal
    for conf in confs:
        g = Gen(**conf)
        area = g.bounds[0] * g.bounds[1]
        zf = concrete_to_o(np.zeros(g.sflow.shape))
        nohide = {"p_hide_img1": Fraction(0), "p_hide_img2": Fraction(0)}
        it0 = g.run(ck, flows=zf, fixed=nohide, resolve=False)
        cs0 = it0.constraints()
        ck.reachable("vacuity", cs0)
        cap = int(area * g.density[1])
        for k in range(g.B):
            a, b = g.pair(it0, k)
            vis = [[toreal(t[1]["amp"][j]) != 0 for j in range(t[1]["amp"].shape[0])] for t in (a, b)]
            dk = toreal(it0.out["dens"][k])

            def cex0(m):
                out, tags, data = g.concrete(it0, m)
                s1, s2 = tags[2 * k]["amp"] != 0, tags[2 * k + 1]["amp"] != 0
                x = area * np.float64(out["dens"][k])
                if abs(x - round(x)) < 1e-3:
                    want = {int(np.floor(x - 1e-3)), int(np.floor(x + 1e-3))}
                else:
                    want = {int(np.floor(x))}
                if len(s1) != len(s2) or np.any(s1 != s2) or int(s1.sum()) not in want or len(s1) > cap:
                    return ck.violation("count", f"pair {k}: density {out['dens'][k]} on {area} pixels shows {int(s1.sum())}/{int(s2.sum())} particles of {len(s1)} (expected {want}, capacity {cap})", data)
            n = len(vis[0])
            inner = z3.And(area * dk - z3.ToReal(z3.ToInt(area * dk)) > R("1/100"), area * dk - z3.ToReal(z3.ToInt(area * dk)) < R("99/100"))
            nice = [g.nice(it0) + [inner], [inner]]
            ck.prove("capacity", [], n <= cap and len(vis[1]) == n, cex0)
            for im in (0, 1):
                cnt = z3.Sum([z3.If(v, 1, 0) for v in vis[im]] + [z3.IntVal(0), z3.IntVal(0)])
                ck.prove("count", cs0, cnt == z3.ToInt(area * dk), cex0, nice=nice)
            for j in range(min(n, len(vis[1]))):
                ck.prove("same-candidates", cs0, vis[0][j] == vis[1][j], cex0, nice=nice)
                for c in range(2):
                    p = toreal(a[1]["pos"][j, c])

                    def cexp(m):
                        out, tags, data = g.concrete(it0, m)
                        q = tags[2 * k]["pos"][j, c]
                        if q < -1e-4 or q > g.bounds[c] + 1e-4:
                            return ck.violation("region", f"pair {k} particle {j} at coordinate {q} outside the region {g.bounds}", data)
                    ck.prove("inside-region", cs0, z3.And(p >= 0, p < g.bounds[c]), cexp, nice=[g.nice(it0)])
                # every point of the region can be hit: the two coordinates range over it independently
                y, x = toreal(a[1]["pos"][j, 0]), toreal(a[1]["pos"][j, 1])
                ty, tx = z3.Reals("ty tx")
                for corner in (z3.And(y > g.bounds[0] - R("1/8"), x > g.bounds[1] - R("1/8")), z3.And(y < R("1/8"), x > g.bounds[1] - R("1/8")), z3.And(y > g.bounds[0] - R("1/8"), x < R("1/8")), z3.And(y < R("1/8"), x < R("1/8"))):
                    v, _ = ck.solve("corners-reachable", cs0 + [corner])
                    if v != "sat":
                        ck.prove("corners-reachable", [], False, lambda m: corners(ck, g))
        # hiding
        it = g.run(ck, flows=zf, resolve=False)
        cs = it.constraints()
        keys = {}
        for k in range(g.B):
            pr, pr0 = g.pair(it, k), g.pair(it0, k)
            used = []
            for im in (0, 1):
                p = g.p[f"p_hide_img{im+1}"]
                cand = [toreal(pr0[im][1]["amp"][j]) != 0 for j in range(pr0[im][1]["amp"].shape[0])]
                vis = [toreal(pr[im][1]["amp"][j]) != 0 for j in range(len(cand))]

                def cexh(m):
                    return hide_replay(ck, g, it, k, im, m)
                # p = 0 and p = 1 (the draws are the same symbols in both runs)
                for j in range(len(cand)):
                    ck.prove("hide-0", cs + it0.side + [p == 0], vis[j] == cand[j], cexh, nice=[g.nice(it)])
                    ck.prove("hide-1", cs + it0.side + [p == 1], z3.Not(vis[j]), cexh, nice=[g.nice(it)])
                    ck.prove("hide-subset", cs + it0.side, z3.Implies(vis[j], cand[j]), cexh, nice=[g.nice(it)])
                # general p: hidden exactly on a part of [0,1) of measure p of this particle's own draw
                found = None
                for di, d in enumerate(it.draws):
                    if d["kind"] != "uniform" or int(np.prod(d["shape"])) != len(cand):
                        continue
                    u = d["sym"].reshape(-1)
                    for tmpl in (lambda v: v >= 1 - p, lambda v: v < p):
                        hyp = cs + it0.side + [cand[0]]
                        r, _ = ck.solve("hide-template", hyp + [z3.Not(vis[0] == z3.Not(tmpl(u[0])))])
                        if r == "unsat":
                            found = (di, tmpl, u)
                            break
                    if found:
                        break
                if not found:
                    ck.prove("hide-probability", [], False, lambda m: freq_replay(ck, g, "hiding probability is not honoured"))
                    continue
                di, tmpl, u = found
                used.append(repr(it.draws[di]["key"]))
                for j in range(len(cand)):
                    ck.prove("hide-probability", cs + it0.side, z3.Implies(cand[j], vis[j] == z3.Not(tmpl(u[j]))), cexh, nice=[g.nice(it)])
            if len(used) == 2:
                ck.prove("hide-independent", [], used[0] != used[1], lambda m: freq_replay(ck, g, "both images hide the same particles"))
        ck.sample(str(conf))
    ck.extra["primitives"] = sorted(it.prims)


def real_tags(g, seed, n=40, p1=0.25, p2=0.5, density=0.25):
    """the real generator on a larger region with real randomness: render arguments of both images"""
    from vlib import repo
    got = []
    sp = SPEC(batch_size=2, image_shape=(8, 8), img_offset=(2, 2), seeding_density_range=(density, density), p_hide_img1=p1, p_hide_img2=p2)
    undo = repo.patch_everywhere(REAL_RENDER, render_wrapper(REAL_RENDER))
    try:
        jp = trace(lambda k: GEN(k, jnp.zeros((1, 4, 4, 2)), sp, position_bounds=(n, n))[0], jax.random.PRNGKey(seed))
    finally:
        repo.restore(undo)

    class Run(ConcreteRun):
        def one(self, eqn, ins):
            if eqn.primitive.name in ("jit", "pjit"):
                return self.ev(eqn.params["jaxpr"].jaxpr, eqn.params["jaxpr"].consts, ins)
            return super().one(eqn, ins)
    cr = Run()
    cr.run(jp, [jax.random.PRNGKey(seed)])
    return [{k: np.asarray(v, dtype=float) for k, v in d.items()} for l, d in cr.tags if l == "img"]


def freq_replay(ck, g, text):
    t = real_tags(g, 3)
    for k in range(2):
        h1, h2 = t[2 * k]["amp"] == 0, t[2 * k + 1]["amp"] == 0
        f1, f2, both = h1.mean(), h2.mean(), (h1 & h2).mean()
        if abs(f1 - 0.25) > 0.12 or abs(f2 - 0.5) > 0.12 or abs(both - f1 * f2) > 0.08:
            return ck.violation("hide-frequency", f"{text}: with hiding probabilities 0.25 and 0.5, {f1:.3f} and {f2:.3f} of {h1.size} particles are hidden, {both:.3f} in both", {})


def corners(ck, g):
    t = real_tags(g, 4)
    p = t[0]["pos"]
    if p.max() > 40 or p.min() < 0 or p[:, 0].max() < 36 or p[:, 1].max() < 36 or p.min() > 4 or abs(np.corrcoef(p.T)[0, 1]) > 0.3:
        return ck.violation("spread", f"positions do not fill the 40x40 region: rows {p[:,0].min()}..{p[:,0].max()}, columns {p[:,1].min()}..{p[:,1].max()}", {})


def hide_replay(ck, g, it, k, im, m):
    out, tags, data = g.concrete(it, m)
    p = data["params"][f"p_hide_img{im+1}"]
    amp = tags[2 * k + im]["amp"]
    x = int(np.floor(g.bounds[0] * g.bounds[1] * out["dens"][k] + 1e-4))
    if p == 1 and np.any(amp != 0):
        return ck.violation("hide", f"pair {k} image {im+1}: particles {amp.tolist()} visible although hiding probability is 1", data)
    if p == 0 and abs(int((amp != 0).sum()) - x) > 1:
        return ck.violation("hide", f"pair {k} image {im+1}: {int((amp != 0).sum())} particles visible although hiding probability is 0 and density gives {x}", data)
    return freq_replay(ck, g, "hiding probability is not honoured")


if __name__ == "__main__":
    main("G06", body, functions=fingerprint(GEN),
         assumptions=["float32 arithmetic interpreted as exact reals", "random draws satisfy the contracts of jax.random; draws from different keys are independent (keys: G07)"],
         outside="larger regions and batches; the exact candidate count when area x density is within float32 rounding of an integer.")
