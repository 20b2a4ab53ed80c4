"""Batches generated over several devices: symbolic batch size and flow count, sharding by an explicit stand-in."""
import os
os.environ["XLA_FLAGS"] = os.environ.get("XLA_FLAGS", "--xla_cpu_multi_thread_eigen=false") + " --xla_force_host_platform_device_count=4"
from vlib.common import main, fingerprint, TIER
from vlib.samp import *
from vlib.symkeys import *
from vlib.symx import Inconclusive
from jax.sharding import NamedSharding, PartitionSpec
assert len(jax.devices()) == 4
SHAPE = (48, 48, 2)


class Flows:
    """flow fields first .. first+n-1 of the run"""
    ndim, dtype = 4, np.dtype("float32")

    def __init__(self, first, n): self.first, self.n = first, n
    @property
    def shape(self): return (self.n,) + SHAPE
    def __len__(self): return int(self.n)
    def block_until_ready(self): return self
    def part(self, d, k): return Flows(self.first + d * (self.n // k), self.n // k)


class Rows:
    """n rows; row i is (flow it comes from, generator call, index within the call)"""

    def __init__(self, n, f): self.n, self.f = n, f
    def block_until_ready(self): return self
    @property
    def shape(self): return (self.n, 2, 2, 2)
    def __len__(self): return int(self.n)
    def at_row(self, i): return self.f(i)


_MOD = z3.Function("flow_of_row", z3.IntSort(), z3.IntSort(), z3.IntSort())


def cyc(cx, r, n):
    """r mod n, known by its range and by its value for r < n (counterexamples are replayed with the real one)"""
    if not (is_sym(r) or is_sym(n)):
        return r % n
    m = _MOD(z(r), z(n))
    cx._add(z3.And(m >= 0, m < z(n), z3.Implies(z(r) < z(n), m == z(r))))
    return wrap(m)


def pick(c, a, b):
    return tuple(wrap(z3.If(z(c), z(x), z(y))) if is_sym(c) or is_sym(x) or is_sym(y) else (x if c else y) for x, y in zip(a, b))


def concat(parts):
    if not all(isinstance(p, (Rows, Flows)) for p in parts):
        raise Inconclusive("a sharded function returned something that is not modelled")
    if isinstance(parts[0], Flows):
        n = parts[0].n
        return Join([p for p in parts])

    def f(i):
        off = parts[0].n
        out = parts[0].f(i)
        for p in parts[1:]:
            out = pick(i < off, out, p.f(i - off)) if not (isinstance(i, int) and isinstance(off, int)) else (out if i < off else p.f(i - off))
            off = off + p.n
        return out
    n = parts[0].n
    for p in parts[1:]:
        n = n + p.n
    return Rows(n, f)


class Join(Flows):
    """flows that live on the devices part by part"""

    def __init__(self, parts):
        self.parts = parts
        n = parts[0].n
        for p in parts[1:]:
            n = n + p.n
        super().__init__(parts[0].first, n)

    def part(self, d, k):
        if k != len(self.parts):
            raise Inconclusive("flows sharded differently in two places")
        return self.parts[d]


def split(x, spec, axis, ndev):
    names = tuple(spec)
    if any(s is not None for s in names[1:]):
        raise Inconclusive("sharding of a further axis")
    if not names or names[0] is None:
        return [x] * ndev
    if names[0] not in (axis, (axis,)):
        raise Inconclusive(f"sharded along {names[0]!r}")
    if isinstance(x, (Key, KeyArr)):
        ks = keylist(x)
        if len(ks) % ndev:
            raise ValueError("keys do not divide among the devices")
        m = len(ks) // ndev
        return [KeyArr(ks[d * m:(d + 1) * m]) for d in range(ndev)]
    if isinstance(x, Flows):
        if x.n % ndev != 0:
            raise ValueError("flows do not divide among the devices")
        return [x.part(d, ndev) for d in range(ndev)]
    raise Inconclusive(f"sharded argument {type(x).__name__}")


def shard_map(f=None, /, *, mesh, in_specs, out_specs, **kw):
    """the contract of jax.shard_map over a one-dimensional mesh"""
    if f is None:
        return lambda g: shard_map(g, mesh=mesh, in_specs=in_specs, out_specs=out_specs, **kw)
    (axis,), ndev = mesh.axis_names, mesh.devices.size
    isp = lambda x: isinstance(x, PartitionSpec)

    def g(*args):
        specs = [in_specs] * len(args) if isp(in_specs) else list(in_specs)
        shares = [split(a, s, axis, ndev) for a, s in zip(args, specs, strict=True)]
        outs = [f(*[s[d] for s in shares]) for d in range(ndev)]
        leaves = [jax.tree_util.tree_flatten(o) for o in outs]
        flat_specs = [out_specs] * len(leaves[0][0]) if isp(out_specs) else []
        if not flat_specs:
            for s, o in zip(out_specs, outs[0], strict=True):
                flat_specs += [s] * len(jax.tree_util.tree_leaves(o))
        res = []
        for j, s in enumerate(flat_specs):
            parts = [l[0][j] for l in leaves]
            if tuple(s) and tuple(s)[0] in (axis, (axis,)):
                res.append(concat(parts))
            else:
                raise Inconclusive("replicated output")
        return jax.tree_util.tree_unflatten(leaves[0][1], res)
    return g


class Scheduler:
    file_list = ["src"]

    def __init__(self, concrete): self.t, self.concrete, self.asked = 0, concrete, []
    def shutdown(self): pass
    def reset(self): self.t = 0
    def get_flow_fields_shape(self): return SHAPE

    def get_batch(self, batch_size):
        first = 0
        for a in self.asked:
            first = first + a
        self.asked.append(batch_size)
        if not self.concrete:
            return SchedulerData(flow_fields=Flows(first, batch_size))
        return SchedulerData(flow_fields=np.broadcast_to(np.arange(first, first + batch_size, dtype=np.float32).reshape(-1, 1, 1, 1), (batch_size,) + SHAPE).copy())


def leaves_of(batch):
    return [batch.images1, batch.images2] + jax.tree_util.tree_leaves(batch.params)


def harness(ids, ndev, nexts):
    def h(cx):
        # all batch sizes ndev*(share-1)+extra and flow counts ndev*flows+left_over (so that no division is left to the solver)
        share, extra = cx.int("share", 1), cx.choose("extra", 1, ndev)
        B, F = ndev * (share - 1) + extra, ndev * cx.int("flows", 0) + cx.choose("left_over", 0, ndev - 1)
        cx.assume(F >= 1)
        k = cx.choose("batches_per_flow_batch", 1, 2)
        t = cx.choose("examined_batch", 0, nexts - 1)
        dev = cx.choose("device", 0, ndev - 1)
        i = share * dev + cx.int("row", 0)
        i2 = cx.int("other_image", 0)
        cx.assume(F <= B)
        cx.prefer(B <= 12)
        want = share * ndev
        cx.assume(And(i < share * (dev + 1), i2 < want))
        calls, conc = [], cx.concrete
        P = repo.types.ImageGenerationParameters

        def gen(a):
            b, fl = a["parameters"].batch_size, a["flow_field"]
            if not conc:
                if not isinstance(fl, Flows):
                    raise Inconclusive(f"flows reach the generator as {type(fl).__name__}")
                c = len(calls)
                calls.append((keylist(a["key"])[0], fl, b))
                mk = lambda: Rows(b, lambda r: (fl.first + cyc(cx, r, fl.n), c, r))
                return mk(), mk(), P(*[mk() for _ in range(4)])
            key = jnp.reshape(a["key"], (-1, a["key"].shape[-1]))[0]
            r = jnp.arange(b)
            rows = jnp.stack([fl[r % fl.shape[0], 0, 0, 0].astype(jnp.uint32), jnp.broadcast_to(key[0], (b,)), jnp.broadcast_to(key[1], (b,)), r.astype(jnp.uint32)], 1)
            return rows, rows + 0, P(*[rows + 0 for _ in range(4)])

        def adapt(a):
            b, fl = a["batch_size"], a["first"]
            if not conc:
                if not isinstance(fl, Flows):
                    raise Inconclusive(f"flows reach the resampling as {type(fl).__name__}")
                return Rows(b, lambda r: (fl.first + cyc(cx, r, fl.n), 0, r)), fl
            return fl[jnp.arange(b) % fl.shape[0]], fl
        def ident(orig):
            def g(x, *a, **kw):
                if not isinstance(x, Flows):
                    return orig(x, *a, **kw)
                for q in list(a) + list(kw.values()):
                    if isinstance(q, NamedSharding) and tuple(q.spec) and x.n % q.mesh.devices.size != 0:
                        raise ValueError("flows do not divide among the devices")
                return x
            return g
        with contextlib.ExitStack() as st:
            if not conc:
                st.enter_context(numeric_patches())
                st.enter_context(symbolic_keys(always=True))
                st.enter_context(patched((jax, "device_put", ident(jax.device_put)), (jnp, "array", ident(jnp.array)), (jnp, "asarray", ident(jnp.asarray))))
            st.enter_context(recorded(gen, adapt, shard=shard_map, compiled=conc))
            sch = Scheduler(conc)
            fits = bool(F % ndev == 0)
            try:
                s = sampler(sch, spec(batch_size=B), batches_per_flow_batch=k, flow_fields_per_batch=F, seed=3, device_ids=ids, flow_field_size=(48.0, 48.0))
                out = [next(s) for _ in range(nexts)]
            except ValueError as e:
                cx.prove("accepted", not fits, lambda: f"{B} images of {F} flows on {ndev} devices refused: {e}")
                return
        cx.prove("rounded-up", s.batch_size == want, lambda: f"batch size {s.batch_size} for {B} images on {ndev} devices, expected {want}")
        for b in out:
            for q in leaves_of(b) + [b.flow_fields]:
                cx.prove("full-batch", q.shape[0] == want, lambda: f"{q.shape[0]} rows instead of {want} ({B} images of {F} flows on {ndev} devices)")
        b = out[t]
        fetched = t // k
        first = 0
        for a in sch.asked[:fetched]:
            first = first + a
        if conc:
            flow_of = lambda r: int(np.asarray(b.flow_fields)[r, 0, 0, 0])
            origin = lambda q, r: tuple(int(x) for x in np.asarray(q)[r])
        else:
            flow_of = lambda r: b.flow_fields.at_row(r)[0]
            origin = lambda q, r: q.at_row(r)
        rows = [origin(q, i) for q in leaves_of(b)]
        for r in rows[1:]:
            cx.prove("aligned", And(*[x == y for x, y in zip(r, rows[0])]), lambda: f"row {i} of the images and of the parameters come from different generations: {rows}")
        cx.prove("own-flow", rows[0][0] == flow_of(i), lambda: f"image pair {i} shows flow {rows[0][0]}, the batch returns flow {flow_of(i)} with it ({B} images of {F} flows on {ndev} devices)")
        cx.prove("current-flow", And(rows[0][0] >= first, rows[0][0] < first + F), lambda: f"image {i} of batch {t} shows flow {rows[0][0]}, fetched were {first}..")
        cx.prove("asked", And(*[a == F for a in sch.asked]), lambda: f"{sch.asked} flows requested instead of {F}")
        other = origin(b.images1, i2)
        mine = rows[0]
        if conc:
            data = np.asarray(b.images1)
            keys = [tuple(int(x) for x in data[d * share, 1:3]) for d in range(ndev)]
            cx.prove("own-key", len(set(keys)) == ndev and all(tuple(data[r, 1:3]) == keys[r // share] for r in range(want)), lambda: f"keys of the devices: {keys}")
            used = [sorted({int(x) for x in data[d * share:(d + 1) * share, 0]}) for d in range(ndev)]
            cx.prove("own-share", sorted(x for u in used for x in u) == list(range(first, first + F)), lambda: f"flows used by the devices: {used}, fetched {first}..{first + F - 1}")
        else:
            cs = calls[t * ndev:(t + 1) * ndev]
            cx.prove("each-device-once", len(calls) == ndev * nexts, f"{len(calls)} generator calls for {nexts} batches on {ndev} devices")
            cx.prove("own-key", all_distinct([c[0] for c in cs]), "two devices generate from the same key")
            cx.prove("own-key", mine[1] == t * ndev + dev, f"image {i} is not from the call of its device")
            lo = first
            for c in cs:
                cx.prove("own-share", And(c[1].first == lo, c[2] == share), "the devices' flows do not partition the batch of flows")
                lo = lo + c[1].n
            cx.prove("own-share", lo == first + F, "the devices' flows do not partition the batch of flows")
        cx.prove("no-duplicates", Or(i == i2, Not(And(*[x == y for x, y in zip(mine[1:], other[1:])]))), lambda: f"images {i} and {i2} are the same image")
    return h


def body(ck):
    quick = TIER == "quick"
    ck.bounds = "1-4 devices (all of them, subsets, out of order, and with non-existing ids); any batch size, any number of flows up to the batch size, any image index; two (thorough: four) batches, 1-2 image batches per flow batch."
    confs = [(None, 4), ([0], 1), ([2, 0], 2), ([0, 1, 2], 3), ([0, 1, 7], 2)]
    if not quick:
        confs += [([3], 1), ([1, 3], 2), ([3, 2, 1, 0], 4), ([9, 2], 1)]
    for ids, ndev in confs:
        n = symx.run(ck, harness(ids, ndev, 2 if quick else 4), f"device ids {ids}", key=f"devices{ndev}", deadline=150 if quick else 900)
        ck.sample(f"device ids {ids}: {n} paths")
    # the same harness on concrete values runs the real compiled shard_map: the stand-in may not disagree with it
    for ids, ndev, B, F, k in [(None, 4, 6, 4, 1), ([2, 0], 2, 5, 4, 2), ([0, 1, 2], 3, 7, 3, 2), ([0, 1], 2, 5, 3, 1)]:
        symx.agrees(ck, harness(ids, ndev, 3), {"share": -(-B // ndev), "extra": (B - 1) % ndev + 1, "flows": F // ndev, "left_over": F % ndev, "batches_per_flow_batch": k, "examined_batch": 2, "device": 1 % ndev, "row": 0, "other_image": 4}, "shard_map")


if __name__ == "__main__":
    main("C07", body, shards=4, functions=fingerprint(SYN.__init__, SYN._get_next, SYN._reset),
         assumptions=["jax.shard_map over a one-dimensional mesh splits the leading axis of every sharded argument into equal consecutive shares, runs the function once per device and concatenates the results in device order; sharing out a length that does not divide is refused (contract of jax; counterexamples are replayed with the real compiled shard_map on forced host devices)",
                      "within one device row i comes from flow i mod n (generation: G03/G04, resampling: G05/S05)", "keys are terms of a free algebra"],
         outside="more than four devices; several hosts; XLA's execution of the sharded program.")
