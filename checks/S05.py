"""Real-image sampler: source data passes through unchanged (traced), and construction over wrapper stacks."""
from vlib.common import main, fingerprint, TIER
from vlib.samp import *
from vlib import jaxsmt
from vlib.jaxsmt import trace, Interp, sym_array, toreal
from checks.S02 import Epi, Pre


class Data:
    include_images = True
    file_list = ["x"]

    def __init__(self, mk): self.mk, self.log, self.n = mk, [], 0
    def shutdown(self): pass
    def get_flow_fields_shape(self): return (2, 3, 2)
    def reset(self): pass

    def get_batch(self, batch_size):
        self.log.append(batch_size)
        self.n += 1
        return self.mk(self.n)


def content(ck, B, H, W, C, dtype, mask, episodic):
    """arbitrary pixel, flow and mask values"""
    img = (B, H, W) + ((C,) if C else ())
    files = tuple(f"file{i}" for i in range(B))
    what = {}

    def f(i1, i2, fl, mk):
        d = Data(lambda n: SchedulerData(flow_fields=fl, images1=i1, images2=i2, mask=mk if mask else None, files=files))
        src = d
        if episodic:
            src = Epi(d, 5)
            src.include_images = True
        b = next(REAL(src, batch_size=B))
        what.update(log=d.log, files=b.files, mask=b.mask is not None, dtypes=(b.images1.dtype, b.images2.dtype, b.flow_fields.dtype), params=b.params)
        return b.images1, b.images2, b.flow_fields, b.mask if mask and b.mask is not None else jnp.zeros(1)
    args = (jnp.zeros(img, dtype), jnp.zeros(img, dtype), jnp.zeros((B, H, W, 2), jnp.float32), jnp.zeros((B,), bool))
    jp = trace(f, *args)
    sort = "Int" if jnp.issubdtype(dtype, jnp.integer) else "Real"
    ins = [sym_array("a", img, sort), sym_array("b", img, sort), sym_array("f", (B, H, W, 2)), sym_array("m", (B,), "Bool")]
    hyp = []
    if sort == "Int":
        info = jnp.iinfo(dtype)
        hyp = [z3.And(v >= int(info.min), v <= int(info.max)) for a in ins[:2] for v in a.reshape(-1)]
    outs = Interp(ck, hyp).run(jp, ins)
    ck.reachable("vacuity", hyp + [v > 0 for v in ins[0].reshape(-1)])
    rng = np.random.default_rng(7)

    def cex(m):
        v = [(rng.integers(0, 100, a.shape).astype(dtype) if k < 2 else rng.normal(size=a.shape).astype(np.float32) if k == 2 else np.arange(B) % 2 == 0) for k, a in enumerate(args)]
        if m is not None:
            for k, a in enumerate(ins):
                for i in np.ndindex(a.shape):
                    t = m.eval(a[i], model_completion=False)
                    if z3.is_int_value(t) or z3.is_rational_value(t):
                        v[k][i] = np.array(float(t.as_fraction()) if z3.is_rational_value(t) else t.as_long()).astype(v[k].dtype)
                    elif z3.is_true(t) or z3.is_false(t):
                        v[k][i] = z3.is_true(t)
        got = f(*v)
        for n, g, e in zip(("images1", "images2", "flow_fields", "mask"), got, v):
            if n == "mask" and not mask:
                continue
            if g.shape != e.shape or not np.allclose(np.asarray(g, float), e.astype(float), rtol=1e-6):
                return ck.violation("content:" + n, f"{n} of the returned batch differs from the source's (batch {B}, image {img[1:]}, {dtype.__name__}): got {np.asarray(g).tolist()} for {e.tolist()}", dict(batch=B, image=img))
        bad = meta()
        return bad and ck.violation("content:meta", bad, dict(batch=B, image=img))

    def meta():
        if [int(x) for x in what["log"]] != [B]:
            return f"the source was asked {what['log']} for one batch of size {B}"
        if what["files"] is None or tuple(what["files"]) != files:
            return f"file names {what['files']} instead of {files}"
        if what["mask"] != mask:
            return f"validity mask {'dropped' if mask else 'invented'}"
        if not all(jnp.issubdtype(d, jnp.floating) for d in what["dtypes"]):
            return f"returned dtypes {what['dtypes']} are not floating point"
    ck.prove("meta", [], z3.BoolVal(meta() is None), cex)
    for n, o, i in zip(("images1", "images2", "flow_fields", "mask"), outs, ins):
        if n == "mask" and not mask:
            continue
        if o.shape != i.shape:
            ck.prove(n + "-shape", [], z3.BoolVal(False), cex)
            continue
        eq = (lambda x, y: jaxsmt.tobool(x) == jaxsmt.tobool(y)) if n == "mask" else (lambda x, y: toreal(x) == toreal(y))
        ck.prove(n, hyp, z3.And(*[eq(o[k], i[k]) for k in np.ndindex(o.shape)]), cex)


class Bare:
    log = ()
    file_list = ["x"]
    def shutdown(self): pass
    def get_flow_fields_shape(self): return (2, 3, 2)
    def reset(self): pass
    def get_batch(self, batch_size): raise StopIteration


def stacks(depth):
    def h(cx):
        src = Bare()
        kind = cx.choose("base", 0, 2)         # include_images absent / False / True
        if kind:
            src.include_images = kind == 2
        for i in range(cx.choose("wrappers", 0, depth)):
            src = Epi(src, 3) if cx.flag(f"wrapper{i}_episodic") else Pre(src)
        B = cx.int("batch_size", -5, 1000)
        try:
            REAL(src, batch_size=B)
            ok = True
        except ValueError:
            ok = False
        cx.prove("accepts-exactly-image-sources", Iff(ok, And(kind == 2, B > 0)), lambda: f"{'accepted' if ok else 'refused'}: base {('without', 'include_images=False', 'include_images=True')[kind]}, batch size {B}, stack {type(src).__name__}")
    return h


def body(ck):
    confs = [(1, 2, 3, 0, jnp.uint8, True, False), (2, 2, 1, 3, jnp.float32, False, False), (2, 1, 2, 0, jnp.float32, True, True), (3, 1, 2, 0, jnp.int32, True, False)]
    if TIER != "quick":
        confs += [(B, H, W, C, d, m, e) for B in (1, 4) for H, W in ((3, 5), (4, 2)) for C in (0, 3) for d in (jnp.uint8, jnp.float32, jnp.int16) for m in (True, False) for e in (True, False)]
    ck.bounds = f"{len(confs)} (batch, height, width, channels, dtype, mask, episodic) settings up to batch {max(c[0] for c in confs)}, all pixel/flow/mask values; wrapper stacks up to depth 3, every batch size in [-5,1000]."
    for c in confs:
        content(ck, *c)
        ck.sample(f"batch {c[0]}, image {c[1:4]}, {c[4].__name__}, mask={c[5]}, episodic={c[6]}")
    symx.run(ck, stacks(3), "stacks", key="construction")


if __name__ == "__main__":
    main("S05", body, functions=fingerprint(REAL.__init__, REAL._get_next, base_mod.Sampler.__next__),
         assumptions=["values are converted to float32 as exact reals (64-bit inputs are rounded by the conversion)", "wrappers are thread-less stand-ins of the real wrapper classes"],
         outside="larger batches and images; sources that violate the scheduler protocol.")
