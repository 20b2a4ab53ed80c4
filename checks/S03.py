"""Random keys of the synthetic sampler: symbolic seeds, keys as terms, call histories."""
import os
os.environ["XLA_FLAGS"] = os.environ.get("XLA_FLAGS", "--xla_cpu_multi_thread_eigen=false") + " --xla_force_host_platform_device_count=3"
from vlib.common import main, fingerprint, TIER
from vlib.samp import *
from vlib.symkeys import *
from checks.S02 import Epi, Pre
assert len(jax.devices()) == 3


def rig(kind, ndev, seed, k):
    keys = []
    src = Source(shape=(2, 2, 2))
    sched = {"plain": lambda: src, "episodic": lambda: Epi(src, 10 ** 6), "prefetched episodic": lambda: Pre(Epi(src, 10 ** 6))}[kind]()

    def gen(a):
        ks = keylist(a["key"])
        keys.append(ks)
        B = int(a["parameters"].batch_size) * ndev
        p = repo.types.ImageGenerationParameters(*[jnp.zeros((B, 2))] * 4)
        return jnp.zeros((B, 2, 2)), jnp.ones((B, 2, 2)), p

    def adapt(a):
        return a["first"], a["first"]
    ctx = recorded(gen, adapt)
    ctx.__enter__()
    s = sampler(sched, spec(batch_size=3), batches_per_flow_batch=k, flow_fields_per_batch=3, seed=seed, device_ids=list(range(ndev)))
    return s, keys, ctx


def harness(kind, steps, ndev):
    def h(cx):
        seed = cx.int("seed", 0)
        k = cx.choose("batches_per_flow_batch", 1, 2)
        if cx.concrete:
            cx.assume(seed < 2 ** 31)
        with numeric_patches(), symbolic_keys():
            ref, rkeys, c = rig(kind, ndev, seed, k)          # the reference run: batch after batch
            for _ in range(steps):
                next(ref)
            c.__exit__(None, None, None)
            s, keys, c = rig(kind, ndev, seed, k)
            try:
                hist, since = [], []
                names = ("next", "reset", "reset-sampler-only") + (("next_episode",) if "episodic" in kind else ())
                for i in range(steps):
                    op = names[cx.choose(f"op{i}", 0, len(names) - 1)]
                    hist.append(op)
                    if op == "next":
                        n0 = len(keys)
                        next(s)
                        cx.prove("one-draw-per-batch", len(keys) == n0 + 1, "images were not generated exactly once")
                        since.append(keys[-1])
                        r = rkeys[len(since) - 1]
                        cx.prove("replays", And(*[same(a, b) for a, b in zip(since[-1], r)]), lambda: f"batch {len(since)} after construction or reset uses another key than in a fresh run of the same seed (history {hist})")
                    elif op == "next_episode":
                        s.next_episode()
                    else:
                        s.reset(scheduler_reset=op == "reset")
                        since = []
            finally:
                c.__exit__(None, None, None)
    return h


def fresh(kind, steps, ndev):
    def h(cx):
        seed, other = cx.int("seed", 0), cx.int("other_seed", 0)
        k = cx.choose("batches_per_flow_batch", 1, 2)
        cx.assume(seed != other)
        if cx.concrete:
            cx.assume(And(seed < 2 ** 31, other < 2 ** 31))
        with numeric_patches(), symbolic_keys():
            ref, rkeys, c = rig(kind, ndev, seed, k)
            for _ in range(steps):
                next(ref)
            c.__exit__(None, None, None)
            cx.prove("one-key-per-device", all(len(r) == ndev for r in rkeys), lambda: f"{[len(r) for r in rkeys]} keys for {ndev} devices")
            cx.prove("fresh-keys", all_distinct([x for r in rkeys for x in r]), lambda: f"two batches or devices are generated from the same key (seed {seed}, {ndev} devices, {steps} batches)")
            cx.prove("independent-keys", independent([x for r in rkeys for x in r]), lambda: f"the key of one batch is derived from the key of another batch (seed {seed}, {ndev} devices, {steps} batches)")
            oth, okeys, c = rig(kind, ndev, other, k)
            next(oth)
            c.__exit__(None, None, None)
            cx.prove("seeds-differ", And(*[Not(same(a, b)) for a, b in zip(okeys[0], rkeys[0])]), lambda: f"seeds {seed} and {other} start from the same key")
    return h


def body(ck):
    steps = 4 if TIER == "quick" else 6
    ck.bounds = f"all seeds; histories of up to {steps} operations (next, reset, sampler-only reset, next episode), 1 and 3 devices, 1-2 image batches per flow batch; plain, episodic and prefetched episodic sources."
    for kind in ("plain", "episodic", "prefetched episodic"):
        for ndev in (1, 3) :
            symx.run(ck, fresh(kind, steps + 2, ndev), f"fresh run, {kind}, {ndev} devices", key="keys")
            n = symx.run(ck, harness(kind, steps, ndev), f"{kind}, {ndev} devices", key="keys", deadline=250 if TIER == "quick" else 1500, max_paths=200000)
            ck.sample(f"{kind}, {ndev} device(s): {n} histories")


if __name__ == "__main__":
    main("S03", body, functions=fingerprint(SYN.__init__, SYN._get_next, SYN._reset, base_mod.Sampler.reset),
         assumptions=["keys are terms of a free algebra: distinct derivations give distinct keys; split(k,n)[i] = fold_in(k,i) independent of n (jax_threefry_partitionable, the default)",
                      "generation and resampling are recorded stand-ins (key use inside generation is G07); jit/shard_map are identities; devices are forced host devices"],
         outside="longer histories; more than three devices; hash collisions of the key derivation.")
