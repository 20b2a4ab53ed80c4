"""Harness around the real generate_images_from_flow: rendering kept opaque, everything else symbolic."""
import inspect
from . import repo
from .jaxsmt import *
from .common import Inconclusive

GEN = repo.data_generate.generate_images_from_flow
REAL_RENDER = repo.generate.img_gen_from_data
SPEC = repo.types.ImageGenerationSpecification
SYM = ("p_hide_img1", "p_hide_img2", "diameter_var", "intensity_var", "rho_var", "dt",
       "noise_uniform", "noise_gaussian_mean", "noise_gaussian_std")
NAMES = ("pos", "dx", "dy", "amp", "rho")


def make_spec(concrete, traced):
    """A specification whose scalar fields may be tracers (validation is decided separately, by C01)."""
    sp = SPEC(**concrete)
    for k, v in traced.items():
        object.__setattr__(sp, k, v)
    return sp


def render_wrapper(real):
    sig = inspect.signature(real)

    def g(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        p = b.arguments
        arrs = [p["particle_positions"], p["diameters_x"], p["diameters_y"], p["intensities"], p["rho"]]
        if any(x is None for x in arrs):
            return real(*a, **k)
        shape, dmax, clip = tuple(int(s) for s in p["image_shape"]), p["max_diameter"], p["clip"]

        def fn(pos, dx, dy, amp, rho):
            return real(particle_positions=pos, image_shape=shape, max_diameter=dmax, diameters_x=dx, diameters_y=dy,
                        intensities=amp, rho=rho, clip=clip)
        fn.statics = dict(shape=shape, max_diameter=float(dmax), clip=bool(clip))
        return opaque("img", NAMES, [jnp.asarray(x, jnp.float32) for x in arrs], shape, fn)
    return g


class RandomModel:
    """Fallback replay input: the real program, unmodified random numbers of a real key, generic parameters."""
    def __init__(self, seed):
        self.seed = seed


class RealRun(ConcreteRun):
    """ConcreteRun with JAX's own random numbers"""
    def one(self, eqn, ins):
        if eqn.primitive.name in ("jit", "pjit"):
            return self.ev(eqn.params["jaxpr"].jaxpr, eqn.params["jaxpr"].consts, ins)
        return super().one(eqn, ins)


class Gen:
    """One configuration.  `traced` = the scalar parameters that stay symbolic."""

    def __init__(self, B=3, image=(2, 3), offset=(1, 4), bounds=(4, 12), nflows=2, fshape=(2, 3), density=(1 / 64, 3 / 64),
                 diameters=((0.5, 0.75), (0.25, 1.0)), intensities=((64, 128), (32, 200)), rhos=((-0.5, 0.5), (0.25, 0.5)),
                 traced=SYM, res=True, mask=False, hist=False, values=None, extra_patch=()):
        self.B, self.image, self.offset, self.bounds, self.nflows, self.fshape = B, image, offset, bounds, nflows, fshape
        self.density, self.diameters, self.intensities, self.rhos = density, diameters, intensities, rhos
        self.traced = list(traced)
        self.values = dict(p_hide_img1=0.25, p_hide_img2=0.5, diameter_var=1.0, intensity_var=4.0, rho_var=0.25, dt=0.5,
                           noise_uniform=0.0, noise_gaussian_mean=0.0, noise_gaussian_std=0.0, res_x=2.0, res_y=0.5)
        self.values.update(values or {})
        self.mask, self.res = mask, res
        names = self.traced + (["res_x", "res_y"] if res else [])
        self.names = names
        conc = dict(batch_size=B, image_shape=image, img_offset=offset, seeding_density_range=density,
                    diameter_ranges=[tuple(d) for d in diameters], intensity_ranges=[tuple(d) for d in intensities],
                    rho_ranges=[tuple(d) for d in rhos])
        conc.update({k: v for k, v in self.values.items() if k not in self.traced and k not in ("res_x", "res_y")})

        def f(key, flows, mask, *ps):
            d = dict(zip(names, ps))
            rx, ry = (d.pop("res_x"), d.pop("res_y")) if res else (self.values["res_x"], self.values["res_y"])
            kw = dict(position_bounds=bounds, flow_field_res_x=rx, flow_field_res_y=ry)
            if self.mask:
                kw["mask"] = mask
            if hist:
                kw["histogram"] = jnp.ones(256)
            i1, i2, pr = GEN(key, flows, make_spec(conc, d), **kw)
            return (i1, i2, pr.seeding_densities, pr.diameter_ranges, pr.intensity_ranges, pr.rho_ranges)
        undo = repo.patch_everywhere(REAL_RENDER, render_wrapper(REAL_RENDER))
        for o, n in extra_patch:
            undo += repo.patch_everywhere(o, n)
        try:
            self.jp = trace(f, jax.random.PRNGKey(0), jnp.zeros((nflows,) + tuple(fshape) + (2,)), jnp.ones(image), *[1.0 for _ in names])
        finally:
            repo.restore(undo)
        self.sflow = sym_array("F", (nflows,) + tuple(fshape) + (2,))
        self.smask = sym_array("M", image)
        self.p = {n: z3.Real("p_" + n) for n in names}
        self.base = self.param_hyps()

    def param_hyps(self):
        h = []
        for n, v in self.p.items():
            if n.startswith("p_hide"):
                h += [v >= 0, v <= 1]
            elif n in ("dt", "res_x", "res_y"):
                h += [v > 0]
            else:
                h += [v >= 0]
        if self.mask:
            h += [z3.Or(m == 0, m == 1) for m in self.smask.reshape(-1)]
        return h

    def args(self, flows=None, fixed=None):
        fixed = fixed or {}
        return [raw_key("key"), self.sflow if flows is None else flows, self.smask] + \
            [np.array(fixed[n] if n in fixed else self.p[n], dtype=object) for n in self.names]

    def run(self, ck, hyps=(), flows=None, fixed=None, cls=Interp, resolve=True, cut=False):
        it = cls(ck, list(self.base) + list(hyps))
        it.resolve = resolve
        self.flows_used = self.sflow if flows is None else flows
        self.fixed = fixed or {}
        out = it.run(self.jp, self.args(flows, fixed))
        it.out = dict(zip(("i1", "i2", "dens", "diam", "int", "rho"), out))
        it.img = [o for o in it.opaques if o[0] == "img"]
        return it

    def pair(self, it, k):
        """render arguments and images of the two exposures of pair k"""
        n = len(it.img)
        if n != 2 * self.B:
            raise Inconclusive(f"{n} renderings for {self.B} pairs: cannot attribute them")
        return it.img[2 * k], it.img[2 * k + 1]

    def concrete(self, it, m, override=None):
        """replay: the same program with JAX's kernels, the random draws and inputs of the model, the real renderer"""
        if isinstance(m, RandomModel):
            rng = np.random.default_rng(m.seed)
            vals = {n: (float(rng.choice([0.25, 0.5, 1.0, 2.0])) if not n.startswith("p_hide") else float(rng.choice([0.0, 0.25, 1.0]))) for n in self.names}
            vals.update({n: float(v) for n, v in self.fixed.items()})
            fl = np.round(rng.normal(size=self.sflow.shape) * 2, 2).astype(np.float32)
            if not is_z(self.flows_used.reshape(-1)[0]):
                fl = np.array(self.flows_used, dtype=np.float32)
            mk = rng.integers(0, 2, self.smask.shape).astype(np.float32)
            cr = RealRun()
            out = cr.run(self.jp, [jax.random.PRNGKey(m.seed), fl, mk] + [vals[n] for n in self.names])
            out = dict(zip(("i1", "i2", "dens", "diam", "int", "rho"), [np.asarray(o, dtype=float) for o in out]))
            tags = [{k: np.asarray(v, dtype=float) for k, v in d.items()} for l, d in cr.tags if l == "img"]
            return out, tags, dict(params=vals, flows=fl.tolist(), mask=mk.tolist(), draws=f"jax.random, PRNGKey({m.seed})")
        ds = []
        for d in it.draws:
            ds.append(marr(m, d["sym"], np.int64 if d["kind"] == "randint" else np.float64))
        if override:
            ds = override(ds)
        cr = ConcreteRun(ds)
        vals = {n: (mval(m, self.p[n]) if n not in self.fixed else float(self.fixed[n])) for n in self.names}
        fl = np.zeros(self.sflow.shape, np.float32)
        for i in np.ndindex(*fl.shape):
            fl[i] = mval(m, self.flows_used[i])
        mk = marr(m, self.smask)
        out = cr.run(self.jp, [jax.random.PRNGKey(0), fl, mk] + [vals[n] for n in self.names])
        out = dict(zip(("i1", "i2", "dens", "diam", "int", "rho"), [np.asarray(o, dtype=float) for o in out]))
        tags = [{k: np.asarray(v, dtype=float) for k, v in d.items()} for l, d in cr.tags if l == "img"]
        return out, tags, dict(params=vals, flows=fl.tolist(), mask=mk.tolist(), draws=[np.asarray(d).tolist() for d in ds])

    def nice(self, it):
        """replay-friendly models: moderate numbers"""
        c = []
        for n, v in self.p.items():
            c += [v <= 4]
            if n in ("dt", "res_x", "res_y"):
                c += [v >= z3.RealVal("1/4")]
        c += bounded([self.sflow], 4)
        c += bounded([d["sym"] for d in it.draws if d["kind"] == "normal"], 3)
        return c
