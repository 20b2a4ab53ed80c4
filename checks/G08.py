"""Histogram matching."""
from vlib.common import main, fingerprint, TIER
from vlib import repo
from vlib.jaxsmt import *
import time

F = repo.utils.match_histogram


def progression(a):
    a = a.reshape(-1)
    return all(not is_z(v) and v == i for i, v in enumerate(a))


class HistInterp(BranchInterp):
    """jnp.searchsorted is replaced by its contract (position of the insertion point in a sorted array)."""
    sorted_needed = ()

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.bins = []            # insertion points of the symbolic pixels
        self.fam = {}             # element id -> (element, family function, position): x[b] == family(b)

    def p_cumsum(self, e, i, p):
        """Cumulated indicator sums: x[0]+..+x[b] is shown (by induction, one solver query per step) to be the number of
        insertion points <= b + off, which keeps the terms small."""
        out = super().p_cumsum(e, i, p)
        x = i[0]
        if x.ndim != 1 or not self.bins or not any(is_z(v) for v in x):
            return out
        n = x.shape[0]
        for off in (0, 1, 2, -1):
            fn = lambda b, off=off: z3.Sum([z3.If(k <= b + off, z3.RealVal(1), z3.RealVal(0)) for k in self.bins] + [z3.RealVal(0)])
            ok = True
            t0 = time.time()
            s = z3.Solver()
            s.set("timeout", 20000)
            s.add(*[c for c in self.side if True][: 40 * len(self.bins)])
            s.add(*self.assume)
            for b in range(n):
                prev = fn(b - 1) if b else z3.RealVal(0)
                s.push()
                s.add(prev + toreal(x[b]) != fn(b))
                r = s.check()
                s.pop()
                if r != z3.unsat:
                    ok = False
                    break
            if ok:
                self.ck.note_query("cumulated-counts", time.time() - t0, "unsat")
                res = oarr(out.shape)
                for b in range(n):
                    res[b] = fn(b)
                    self.fam[res[b].get_id()] = (res[b], fn, b)
                return res
        return out

    def _family(self, x):
        if x.ndim != 1 or not is_z(x[0]) or x[0].get_id() not in self.fam:
            return None
        fn = self.fam[x[0].get_id()][1]
        for b, v in enumerate(x):
            f = self.fam.get(v.get_id()) if is_z(v) else None
            if f is None or f[1] is not fn or f[2] != b:
                return None
        return fn

    def _pick(self, x, index):
        if len(index) == 1 and is_z(index[0]):
            fn = self._family(x)
            if fn is not None:
                return fn(index[0])
        if len(index) == 1 and is_z(index[0]) and x.ndim == 1 and x.shape[0] > 8 and progression(x):
            return z3.ToReal(index[0]) if isinstance(x[1], Fraction) else index[0]
        return super()._pick(x, index)

    def p_div(self, e, i, p):
        if isfloat(e.outvars[0].aval):
            fn = self._family(i[0])
            if fn is not None and i[1].size and len({str(v) for v in i[1].reshape(-1)}) == 1:
                c = i[1].reshape(-1)[0]
                c = self.const(c) if is_z(c) else frac(c)
                if not is_z(c) and c != 0:
                    f2 = lambda b: fn(b) / z3.RealVal(c)
                    res = oarr(i[0].shape)
                    for b in range(len(res)):
                        res[b] = f2(b)
                        self.fam[res[b].get_id()] = (res[b], f2, b)
                    return res
            tab = {}

            def d(a, b):
                if is_z(b):
                    k = b.get_id()
                    if k not in tab:
                        tab[k] = (self.const(b), b)
                    b = tab[k][0]
                return s_div(a, b)
            return vec(d, *i)
        return super().p_div(e, i, p)

    def const(self, b):
        v = _num(z3.simplify(b, som=True))
        if v is not None:
            return v
        s = z3.Solver()
        s.set("timeout", 60000)
        s.add(*self.constraints())
        t = time.time()
        if s.check() == z3.sat:
            c = s.model().eval(b, model_completion=True)
            s.add(b != c)
            if s.check() == z3.unsat:
                self.ck.note_query("total-is-constant", time.time() - t, "unsat")
                return _num(c)
        return b

    def _intercept(self, name, e, i, p):
        if name == "searchsorted" and len(i) == 2 and i[0].ndim == 1:
            a, v = i
            n = a.shape[0]
            cj = p["jaxpr"]
            probe = jax.core.eval_jaxpr(cj.jaxpr, cj.consts, jnp.arange(n, dtype=jnp.float32), jnp.full(v.shape, 1.0, jnp.float32))[0]
            right = int(np.asarray(probe).reshape(-1)[0]) == 2
            out = oarr(v.shape)
            asc = progression(a)
            if not asc and all(not is_z(x) for x in a):
                asc_c = all(a[k] <= a[k + 1] for k in range(n - 1))
                if not asc_c:                      # unsorted: no contract, result arbitrary
                    for o in np.ndindex(*v.shape):
                        out[o] = self.fresh("ss", "Int")
                        self.side += [out[o] >= 0, out[o] <= n]
                    return [out]
            elif not asc:
                self.sorted_needed = list(self.sorted_needed) + [a]
            for o in np.ndindex(*v.shape):
                x = toreal(v[o])
                k = self.fresh("ss", "Int")
                self.side += [k >= 0, k <= n]
                if asc:
                    if not any(b.eq(k) for b in self.bins) and right:
                        key = x.sexpr()
                        known = self.__dict__.setdefault("_known", {})
                        if key in known:            # same pixel, same array: same insertion point
                            out[o] = known[key]
                            self.side.pop(); self.side.pop()
                            continue
                        known[key] = k
                        self.bins.append(k)
                    kr = z3.ToReal(k)
                    if right:
                        self.side.append(z3.If(x < 0, k == 0, z3.If(x >= n - 1, k == n, z3.And(kr - 1 <= x, x < kr))))
                    else:
                        self.side.append(z3.If(x <= 0, k == 0, z3.If(x > n - 1, k == n, z3.And(kr - 1 < x, x <= kr))))
                else:
                    for j in range(n):
                        aj = toreal(a[j])
                        self.side += [z3.Implies(j < k, aj <= x if right else aj < x), z3.Implies(j >= k, aj > x if right else aj >= x)]
                out[o] = k
            return [out]
        return super()._intercept(name, e, i, p)


def _num(e):
    if z3.is_rational_value(e):
        return e.as_fraction()
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    return None


def np_match(src, hist):
    flat = np.clip(np.floor(src.ravel()), 0, 255).astype(int)
    n = len(flat)
    T = np.cumsum(hist.astype(float)) / hist.sum()
    out = []
    for v in flat:
        q = np.sum(flat <= v) / n
        out.append(int(np.argmax(T >= q - 1e-6)))
    return np.array(out, dtype=float).reshape(src.shape)


def body(ck):
    quick = TIER == "quick"
    shapes = [(1, 1), (1, 2)] if quick else [(1, 1), (1, 2), (2, 1), (1, 3)]
    sup = 6 if quick else 12
    ck.bounds = f"images of shape {shapes} with any real pixels in [0,255]; 256-bin targets with arbitrary non-negative mass on {sup} levels spread over 0..255, summing to the number of pixels."
    for H, W in shapes:
        n = H * W
        jp = trace(F, jnp.zeros((H, W)), jnp.ones(256))
        img = sym_array("v", (H, W))
        sup_levels = sorted({0, 255} | {int(round(255 * k / (sup - 1))) for k in range(sup)})
        hist = concrete_to_o(np.zeros(256, np.float32))
        hyp = []
        for L in sup_levels[:-1]:
            hist[L] = z3.Real(f"h_{L}")
            hyp.append(hist[L] >= 0)
        hist[255] = z3.RealVal(n) - sum(hist[L] for L in sup_levels[:-1])
        hyp.append(hist[255] >= 0)
        hyp += [z3.And(v >= 0, v <= 255) for v in img.reshape(-1)]
        it = HistInterp(ck, hyp)
        out = it.run(jp, [img, hist])[0]
        cs = it.constraints()
        ck.reachable("vacuity", cs)

        def cex(m):
            ia = marr(m, img)
            h = np.array([mval(m, x) for x in hist], dtype=np.float64)
            got = np.asarray(F(jnp.asarray(ia), jnp.asarray(h, jnp.float32)), dtype=float)
            exp = np_match(ia, h)
            T = np.cumsum(h) / h.sum()
            q = np.arange(1, n + 1) / n
            if np.min(np.abs(T[:, None] - q[None])[(T[:, None] != q[None])] if np.any(T[:, None] != q[None]) else 1) < 1e-5:
                return None                     # too close to a tie for float32
            if got.shape != exp.shape or np.any(got != exp):
                return ck.violation("match", f"image {ia.tolist()}, target mass {[(L, float(h[L])) for L in sup_levels]}: got {got.tolist()}, expected {exp.tolist()}",
                                    dict(image=ia.tolist(), hist=h.tolist()))
        if out.shape != (H, W):
            ck.prove("shape", [], False, cex)
            continue
        # the contract of searchsorted needs sorted arrays
        for a in it.sorted_needed:
            ck.prove("cdf-sorted", cs, z3.And(*[toreal(a[k]) <= toreal(a[k + 1]) for k in range(255)]), cex)
        lev = [z3.ToInt(v) for v in img.reshape(-1)]
        T, acc = [], z3.RealVal(0)
        for L in range(256):
            if is_z(hist[L]):
                acc = acc + hist[L]
            T.append(acc)
        grid = [z3.Or(*[x == z3.RealVal(Fraction(c * n, 16)) for c in range(17)]) for x in hist if is_z(x)]
        whole = [v == z3.ToReal(z3.ToInt(v)) for v in img.reshape(-1)]
        spread = [z3.Or(lev[0] != lev[1], True)] if n > 1 else []
        for k, o in enumerate(np.ndindex(H, W)):
            r = toreal(out[o])
            q = z3.Sum([z3.If(lev[j] <= lev[k], z3.RealVal(1), z3.RealVal(0)) for j in range(n)] + [z3.RealVal(0)])     # cumulated share x n
            ck.prove("level", cs, z3.And(r >= 0, r <= 255, r == z3.ToReal(z3.ToInt(r))), cex, nice=[grid + whole, grid])
            goal = z3.And(*([z3.Implies(r > L, T[L] < q) for L in range(256)] + [z3.Implies(r == L, T[L] >= q) for L in range(256)]))
            ck.prove("smallest-level", cs, goal, cex, nice=[grid + whole, grid], timeout_s=300)
            for j in range(k):
                r2 = toreal(out[list(np.ndindex(H, W))[j]])
                ck.prove("order", cs, z3.And(z3.Implies(lev[j] <= lev[k], r2 <= r), z3.Implies(lev[j] == lev[k], r2 == r)), cex, nice=[grid + whole, grid], timeout_s=300)
        ck.sample(f"{H}x{W}")
    # own histogram: unchanged (integer images; the target is the histogram of the image itself)
    for levels in ([(0, 3), (255, 254), (7, 7)] if quick else [(0, 3), (255, 254), (7, 7), (0, 255), (128, 0, 128), (1, 2, 3)]):
        n = len(levels)
        jp = trace(F, jnp.zeros((1, n)), jnp.ones(256))
        ia = np.array([levels], np.float32)
        h = np.bincount(np.array(levels), minlength=256).astype(np.float32)
        it = HistInterp(ck, [])
        it.resolve = False
        out = it.run(jp, [ia, h])[0]
        cs = it.constraints()

        def cexo(m):
            got = np.asarray(F(jnp.asarray(ia), jnp.asarray(h)))
            if np.any(got != ia):
                return ck.violation("own", f"image {ia.tolist()} matched to its own histogram becomes {got.tolist()}", {})
        ck.prove("own-histogram", cs, z3.And(*[toreal(out[0, k]) == levels[k] for k in range(n)]), cexo)
    ck.extra["primitives"] = sorted(it.prims)


if __name__ == "__main__":
    main("G08", body, functions=fingerprint(F),
         assumptions=["float32 arithmetic interpreted as exact reals", "contract of jnp.searchsorted on a sorted array (sortedness is proved)", "the target sums to the number of pixels, as documented"],
         outside="images with more pixels; ties of cumulated shares within float32 rounding.")
