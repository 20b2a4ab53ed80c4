"""Harness parts for samplers: the real SyntheticImageSampler with generation and resampling recorded."""
import contextlib, math
from . import repo
from .repo import jax, jnp, np
from . import symx
from .symx import *
import synthpix.sampler.synthetic as _syn_mod  # noqa
import synthpix.sampler as sampler_pkg
import synthpix.sampler.real as real_mod
import synthpix.sampler.base as base_mod
from synthpix.types import *
from synthpix.scheduler.protocol import EpisodeEnd, SchedulerProtocol, EpisodicSchedulerProtocol

SYN = sampler_pkg.SyntheticImageSampler
REAL = sampler_pkg.RealImageSampler
GENERATE = repo.data_generate.generate_images_from_flow
ADAPT = repo.utils.flow_field_adapter
from synthpix.scheduler import EpisodicFlowFieldScheduler as EPI, PrefetchingFlowFieldScheduler as PRE, BaseFlowFieldScheduler as BASE
SPEC = repo.types.ImageGenerationSpecification


class Source:
    """plain source: batch t has flow value t; ends after n batches (n may be symbolic)"""
    file_list = ["src"]

    def __init__(self, n=None, shape=(2, 2, 2)):
        self.n, self.shape, self.t, self.log = n, shape, 0, []

    def shutdown(self): self.log.append("shutdown")
    def get_flow_fields_shape(self): return self.shape

    def reset(self):
        self.log.append("reset")
        self.t = 0

    def get_batch(self, batch_size):
        self.log.append(("get", batch_size))
        if self.n is not None and self.t >= self.n:
            raise StopIteration
        t = self.t
        self.t = t + 1
        self.log.append(("served", t))
        b = int(batch_size)
        return SchedulerData(flow_fields=np.full((b,) + tuple(int(x) for x in self.shape), float(t), np.float32),
                             mask=np.array([(t + i) % 2 == 0 for i in range(b)]), files=tuple(f"f{t}_{i}" for i in range(b)))


def unary(name, f, orig):
    def g(x, *a, **k):
        if is_sym(x):
            return f(x)
        return orig(x, *a, **k)
    return g


def _ceil(x): return math.ceil(x)
def _floor(x): return math.floor(x)


def numeric_patches():
    """numpy/jax.numpy scalar rounding and comparison also accept symbolic scalars"""
    items = []
    for mod in (jnp, np):
        for n, f in (("ceil", _ceil), ("floor", _floor), ("round", round), ("rint", round), ("trunc", math.trunc), ("abs", abs)):
            items.append((mod, n, unary(n, f, getattr(mod, n))))
        for n, f in (("maximum", symx.SHADOW["max"]), ("minimum", symx.SHADOW["min"])):
            o = getattr(mod, n)
            items.append((mod, n, (lambda o, f: lambda a, b, *r, **k: f(a, b) if is_sym(a) or is_sym(b) else o(a, b, *r, **k))(o, f)))
    return patched(*items)


@contextlib.contextmanager
def recorded(gen, adapt, shard=None, compiled=False):
    """generate_images_from_flow / flow_field_adapter replaced everywhere; jit and shard_map are identities
    (or: the given stand-in for shard_map; compiled=True: the real jit and shard_map)"""
    import inspect
    gs, as_ = inspect.signature(GENERATE), inspect.signature(ADAPT)

    def bind(sig, f):
        def g(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            d = dict(b.arguments)
            d['first'] = next(iter(d.values()))
            return f(d)
        return g
    ident = lambda f, *a, **k: f
    jit0, sm0 = jax.jit, jax.shard_map
    undo = repo.patch_everywhere(GENERATE, bind(gs, gen)) + repo.patch_everywhere(ADAPT, bind(as_, adapt))
    shard = shard or ident
    if not compiled:
        undo += repo.patch_everywhere(jit0, ident) + repo.patch_everywhere(sm0, shard)
    with patched(*([] if compiled else [(jax, "jit", ident), (jax, "shard_map", shard)])):
        try:
            yield
        finally:
            repo.restore(undo)


def spec(**k):
    d = dict(batch_size=1, image_shape=(4, 4), img_offset=(1.0, 1.0), seeding_density_range=(0.0625, 0.0625), p_hide_img1=0.0, p_hide_img2=0.0,
             diameter_ranges=[(0.5, 1.0)], dt=1.0)
    d.update(k)
    return SPEC(**d)


def sampler(scheduler, sp, **k):
    d = dict(batches_per_flow_batch=1, flow_fields_per_batch=1, flow_field_size=(64.0, 64.0), resolution=1.0, velocities_per_pixel=1.0, seed=0,
             max_speed_x=0.0, max_speed_y=0.0, min_speed_x=0.0, min_speed_y=0.0, output_units="pixels", device_ids=None)
    d.update(k)
    return SYN(scheduler=scheduler, generation_specification=sp, **d)


def fake_images(a):
    B, (h, w) = int(a["parameters"].batch_size), a["parameters"].image_shape
    p = repo.types.ImageGenerationParameters(*[jnp.zeros((B, 2))] * 4)
    return jnp.zeros((B, 2, 2)), jnp.ones((B, 2, 2)), p
