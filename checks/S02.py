"""Flow batches vs image batches: call histories of the real synthetic sampler over a recording source."""
from vlib.common import main, fingerprint, TIER
from vlib.samp import *


class Epi(EPI):
    """episodic source with an endless supply of episodes of length L"""

    def __init__(self, src, L):
        self.src, self.L, self.t, self.scheduler = src, L, 0, src

    def shutdown(self): pass
    def get_flow_fields_shape(self): return self.src.get_flow_fields_shape()

    def get_batch(self, batch_size):
        if self.t >= self.L:
            raise EpisodeEnd
        self.t = self.t + 1
        return self.src.get_batch(batch_size)

    def reset(self):
        self.t = 0
        self.src.reset()

    def steps_remaining(self): return self.L - self.t
    def next_episode(self): self.t = 0
    @property
    def episode_length(self): return self.L
    @property
    def file_list(self): return []


class Pre(PRE):
    """the prefetching wrapper without its thread"""

    def __init__(self, inner): self.scheduler = inner
    def __del__(self): pass
    def shutdown(self, *a): pass
    def get_flow_fields_shape(self): return self.scheduler.get_flow_fields_shape()
    def get_batch(self, batch_size): return self.scheduler.get_batch(batch_size)
    def reset(self): self.scheduler.reset()
    def steps_remaining(self): return self.scheduler.steps_remaining() if isinstance(self.scheduler, Epi) else 1
    def next_episode(self, *a): self.scheduler.next_episode()
    @property
    def episode_length(self): return self.scheduler.episode_length
    @property
    def file_list(self): return []


def harness(kind, steps, batch):
    def h(cx):
        k = cx.int("batches_per_flow_batch", 1, 1000)
        m = cx.choose("flow_fields_per_batch", 1, batch)
        n = cx.int("source_length", 0, 1000)
        with_mask, with_files = cx.flag("source_has_mask"), cx.flag("source_has_files")
        src = Source(n)
        orig = src.get_batch

        def get_batch(batch_size):
            d = orig(batch_size)
            return d.update(mask=d.mask if with_mask else None, files=d.files if with_files else None)
        src.get_batch = get_batch
        sched = {"plain": lambda: src, "episodic": lambda: Epi(src, 10 ** 6), "prefetched": lambda: Pre(src), "prefetched episodic": lambda: Pre(Epi(src, 10 ** 6))}[kind]()
        per = 1 if "episodic" in kind else k
        calls = []

        def gen(a):
            calls.append(a["flow_field"])
            B = int(a["parameters"].batch_size)
            c = float(len(calls))
            p = repo.types.ImageGenerationParameters(*[jnp.full((B, 2), c)] * 4)
            return jnp.full((B, 2, 2), c), jnp.full((B, 2, 2), c + 0.5), p

        def adapt(a):
            f = a["first"]
            return f + 1000.0, f + 2000.0
        with numeric_patches(), recorded(gen, adapt):
            s = sampler(sched, spec(batch_size=batch), batches_per_flow_batch=k, flow_fields_per_batch=m)
            pos, served, cur = 0, 0, None        # oracle: source position, batches served from flow batch `cur`
            hist = []
            for i in range(steps):
                op = ("next", "reset", "reset-sampler-only")[cx.choose(f"op{i}", 0, 2 if i else 0)]
                hist.append(op)
                if op != "next":
                    s.reset(scheduler_reset=op == "reset")
                    cur, served = None, 0
                    if op == "reset":
                        pos = 0
                    continue
                before = [e[1] for e in src.log if e[0] == "served"]
                ncalls = len(calls)
                need = True if cur is None else bool(served >= per)
                info = lambda what: (lambda: f"{what} (history {hist}, {k} image batches per flow batch, source of {n} flow batches, {kind} source)")
                try:
                    b = next(s)
                except StopIteration:
                    cx.prove("stops-only-at-the-end", And(need, pos >= n), info("iteration ended although data is left"))
                    hist[-1] = "next:end"
                    continue
                after = [e[1] for e in src.log if e[0] == "served"]
                if need:
                    cx.prove("no-invented-batch", pos < n, info("a batch was returned although the source has ended"))
                    cx.prove("fetches-one-flow-batch", len(after) == len(before) + 1 and after[-1] == pos, info("the next flow batch was not fetched exactly once"))
                    cur, served = pos, 0
                    pos += 1
                else:
                    cx.prove("no-early-fetch", len(after) == len(before), info("a new flow batch was fetched too early"))
                served += 1
                cx.prove("one-generation-per-batch", len(calls) == ncalls + 1, info("images were not generated exactly once"))
                t = float(cur)
                ok = lambda x, v: x is not None and bool(np.all(np.asarray(x) == v)) and np.asarray(x).size > 0
                cx.prove("images-from-current-flows", ok(calls[-1], t + 2000.0), info("images are generated from flows of another flow batch"))
                cx.prove("flows-belong", ok(b.flow_fields, t + 1000.0), info("returned flows are not the resampled flows of the current flow batch"))
                cx.prove("images-belong", And(ok(b.images1, float(len(calls))), ok(b.images2, len(calls) + 0.5), ok(b.params.seeding_densities, float(len(calls)))), info("images or parameters are not those of this generation"))
                if with_mask:
                    cx.prove("mask-belongs", b.mask is not None and np.asarray(b.mask).tolist() == [(cur + j) % 2 == 0 for j in range(m)], info("validity mask of another flow batch"))
                else:
                    cx.prove("mask-belongs", b.mask is None, info("a mask was invented"))
                want = tuple(f"f{cur}_{j}" for j in range(m)) if with_files else None
                cx.prove("files-belong", (None if b.files is None else tuple(b.files)) == want, info("file names of another flow batch"))
            cx.prove("request-size", all(e[1] == m for e in src.log if e[0] == "get"), "the source was asked for another number of flows than configured")
    return h


def body(ck):
    steps = 5 if TIER == "quick" else 7
    ck.bounds = f"histories of up to {steps} operations (next, reset, sampler-only reset), image batches per flow batch and source length symbolic in [1,1000] / [0,1000], 1-2 flows per batch of 2, mask/files present or absent; plain, episodic, prefetched and prefetched episodic sources."
    for kind in ("plain", "episodic", "prefetched", "prefetched episodic"):
        n = symx.run(ck, harness(kind, steps if kind == "plain" or TIER != "quick" else steps - 1, 2), kind, key="flow-batches", deadline=250 if TIER == "quick" else 1200, max_paths=200000)
        ck.sample(f"{kind}: {n} paths")


if __name__ == "__main__":
    main("S02", body, functions=fingerprint(SYN.__init__, SYN._get_next, SYN._reset, base_mod.Sampler.__next__, base_mod.Sampler.reset),
         assumptions=["generation and resampling are recorded stand-ins; jit/shard_map are identities; one device",
                      "episodic and prefetching wrappers are stand-ins of the real classes (their own behaviour is D07, P01-P03)"],
         outside="longer histories; sources that raise other errors; several devices (C07).")
