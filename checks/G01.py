"""Particle rendering."""
from vlib.common import main, fingerprint, TIER
from vlib import repo
from vlib.jaxsmt import *
from vlib.refs import far
import itertools, inspect

F = repo.generate.img_gen_from_data


class ExpInterp(BranchInterp):
    """Exponentials are atoms; a new exponent is first compared (solver) with the expected ones."""
    expected = ()

    def s_exp(self, x):
        if is_z(x):
            xs = z3.simplify(x, som=True)
            k = xs.sexpr()
            if k not in self.exp_tab and _num(xs) is None:
                for name, (arg, atom) in self.atoms.items():
                    if self._same(xs, arg):
                        self.exp_tab[k] = (xs, atom)
                        return atom
        return super().s_exp(x)

    def _same(self, a, b):
        return rational_same(a, b)


def _num(e):
    return e.as_fraction() if z3.is_rational_value(e) else None


def np_render(pos, shape, dmax, dx, dy, amp, rho):
    H, W = shape
    r = int(3 * dmax / 2)
    out = np.zeros(shape)
    for (y, x), a, b, i, q in zip(pos, dx, dy, amp, rho):
        y = min(max(y, r), H - r - 1e-6)
        x = min(max(x, r), W - r - 1e-6)
        y0, x0 = int(np.floor(y)), int(np.floor(x))
        for py in range(max(0, y0 - r), min(H, y0 + r + 1)):
            for px in range(max(0, x0 - r), min(W, x0 + r + 1)):
                sx, sy = a / 2, b / 2
                z = (px - x) ** 2 / sx ** 2 + (py - y) ** 2 / sy ** 2 - 2 * q * (px - x) * (py - y) / (sx * sy)
                out[py, px] += i * np.exp(-z / (2 * (1 - q * q)))
    return out


def cells(n, r, v):
    """centre of a particle along an axis of n pixels after keeping it r pixels away from the border"""
    hi = Fraction(float(np.float32(n - r - 1e-6)))
    out = [("lo", v < r, r, z3.RealVal(r))]
    for k in range(r, n - r):
        out.append((f"{k}", v == k, k, z3.RealVal(k)))
        if k < n - r - 1:
            out.append((f"({k},{k+1})", z3.And(v > k, v < k + 1), k, v))
        else:
            out.append((f"({k},hi)", z3.And(v > k, v < z3.RealVal(hi)), k, v))
    out.append(("hi", v >= z3.RealVal(hi), n - r - 1, z3.RealVal(hi)))
    return out


def body(ck):
    quick = TIER == "quick"
    confs = [((5, 4), 1.0, 1), ((2, 3), 0.5, 1), ((4, 4), 1.0, 2), ((6, 6), 1.5, 1)] if quick else \
        [((5, 4), 1.0, 1), ((4, 6), 1.25, 1), ((2, 3), 0.5, 1), ((5, 4), 1.0, 2), ((4, 5), 1.0, 3), ((7, 6), 1.5, 1), ((8, 9), 2.5, 1)]
    ck.bounds = (f"(image shape, largest diameter, number of particles) in {confs}; with one particle its position is any real point, "
                 "with more the first is arbitrary and the others sit anywhere in one fixed pixel cell; all positive diameters, intensities, correlations in (-1,1).")
    R = z3.RealVal
    for (H, W), dmax, N in confs:
        r = int(3 * dmax / 2)
        for clip in (False, True):
            f = lambda p, dx, dy, a, q: F(particle_positions=p, image_shape=(H, W), max_diameter=dmax, diameters_x=dx, diameters_y=dy, intensities=a, rho=q, clip=clip)
            jp = trace(f, jnp.zeros((N, 2)), *[jnp.zeros(N)] * 4)
            pos, dx, dy, amp, rho = sym_array("p", (N, 2)), sym_array("dx", (N,)), sym_array("dy", (N,)), sym_array("a", (N,)), sym_array("r", (N,))
            base = []
            for k in range(N):
                base += [dx[k] > 0, dy[k] > 0, rho[k] > -1, rho[k] < 1]
            cy, cx = cells(H, r, pos[0, 0]), cells(W, r, pos[0, 1])
            ck.prove("case-split-complete", [], z3.And(z3.Or(*[c[1] for c in cy]), z3.Or(*[c[1] for c in cx])), lambda m: None)
            combos = list(itertools.product(cy, cx))
            if clip:
                combos = combos[len(combos) // 2:][:2]
            if quick and r == 2:
                combos = combos[::5]
            for a, b in combos:
                hyp = base + [a[1], b[1]]
                cent = [(a, b)]
                for k in range(1, N):
                    yk, xk = pos[k, 0], pos[k, 1]
                    hyp += [yk > r, yk < r + 1, xk > W - r - 2, xk < W - r - 1] if W - r - 2 >= r else [yk > r, yk < r + 1, xk == r]
                    cent.append(((None, None, r, yk), (None, None, W - r - 2 if W - r - 2 >= r else r, xk)))
                def case(hyp, a=a, b=b, cent=cent):
                    it = ExpInterp(ck, hyp)
                    it.split = True
                    it.atoms = {}
                    want = {i: R(0) for i in np.ndindex(H, W)}
                    for k, (ya, xa) in enumerate(cent):
                        Y0, X0, yv, xv = ya[2], xa[2], ya[3], xa[3]
                        for py in range(Y0 - r, Y0 + r + 1):
                            for px in range(X0 - r, X0 + r + 1):
                                if not (0 <= py < H and 0 <= px < W):
                                    continue
                                X, Y = px - xv, py - yv
                                sx, sy = dx[k] / 2, dy[k] / 2
                                z = X * X / (sx * sx) + Y * Y / (sy * sy) - 2 * rho[k] * X * Y / (sx * sy)
                                arg = z3.simplify(-z / (2 * (1 - rho[k] * rho[k])), som=True)
                                if z3.simplify(X * X + Y * Y).sexpr() in ("0.0", "0"):
                                    e = R(1)
                                else:
                                    e = next((v for g, v in it.atoms.values() if rational_same(g, arg)), None)
                                    if e is None:
                                        e = z3.Real(f"E_{k}_{py}_{px}")
                                        it.atoms[(k, py, px)] = (arg, e)
                                        it.side += [e > 0, e <= 1]
                                want[py, px] = want[py, px] + amp[k] * e
                    pin = pos.copy()                 # point cells: the coordinate is a constant
                    for d, c in ((0, a), (1, b)):
                        if c[0].lstrip("-").isdigit():
                            pin[0, d] = Fraction(int(c[0]))
                    out = it.run(jp, [pin, dx, dy, amp, rho])[0]
                    ck.reachable("vacuity", hyp)

                    def cex(m):
                        vals = [marr(m, v).astype(np.float32) for v in (pos, dx, dy, amp, rho)]
                        if np.any(vals[1] > 1e3) or np.any(vals[2] > 1e3):
                            return None
                        got = np.asarray(f(*[jnp.asarray(v) for v in vals]))
                        exp = np_render(vals[0].astype(float), (H, W), dmax, vals[1].astype(float), vals[2].astype(float), vals[3].astype(float), vals[4].astype(float))
                        if clip:
                            exp = np.clip(exp, 0, 255)
                        if far(got, exp, np.abs(vals[3]).max()):
                            return ck.violation("render", f"image {H}x{W}, largest diameter {dmax}, clip={clip}: got {np.round(got,4).tolist()} expected {np.round(exp,4).tolist()}",
                                                dict(positions=vals[0].tolist(), dx=vals[1].tolist(), dy=vals[2].tolist(), intensities=vals[3].tolist(), rho=vals[4].tolist()))
                    plain = [c for k in range(N) for c in (dx[k] <= 4, dx[k] >= R("3/4"), dy[k] >= R("1/2"), dy[k] <= 4, dx[k] >= dy[k] + R("1/4"), rho[k] >= R("1/4"), rho[k] <= R("3/4"), amp[k] >= 50, amp[k] <= 200)]
                    plain2 = [c for k in range(N) for c in (dx[k] <= 4, dx[k] >= R("1/2"), dy[k] >= R("1/2"), dy[k] <= 4, rho[k] >= R("-3/4"), rho[k] <= R("3/4"), amp[k] >= 50, amp[k] <= 400)]
                    inb = bounded([pos], 12)
                    # leave the borders of the cell so that float32 rounding cannot move the particle into another cell
                    mid = []
                    for v, c in ((pos[0, 0], a), (pos[0, 1], b)):
                        if c[0].startswith("("):
                            mid += [v > c[2] + R("1/4"), v < c[2] + R("3/4")]
                    for i in np.ndindex(H, W):
                        w = want[i]
                        if clip:
                            w = z3.If(w < 0, 0, z3.If(w > 255, 255, w))
                        ck.prove("render-clip" if clip else "render", it.constraints(), diff_zero(out[i], w), cex,
                                 nice=[plain + inb + mid, plain2 + inb + mid, plain2 + inb])
                    ck.extra["primitives"] = sorted(it.prims)
                split_cases(hyp, case)
        ck.sample(f"{H}x{W} dmax {dmax} particles {N}: patch radius {r}")


if __name__ == "__main__":
    main("G01", body, functions=fingerprint(F, repo.generate.gaussian_2d_correlated),
         assumptions=["float32 arithmetic interpreted as exact reals", "exp is any function with exp(0)=1 and positive values (equal arguments give equal values)",
                      "the image is at least as large as one patch (2*radius+1)"],
         outside="larger images and particle counts; images smaller than a patch; float32 rounding (a particle within 1e-6 of the last pixel border).")
