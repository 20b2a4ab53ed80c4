"""Episode end at the sampler: call histories over an episodic source of symbolic episode length."""
from vlib.common import main, fingerprint, TIER
from vlib.samp import *
from checks.S02 import Epi, Pre


class EpiSource:
    """episodic source by protocol only (no synthpix base class); images included"""
    include_images = True
    file_list = ["x"]

    def __init__(self, L): self.L, self.t, self.log, self.ep = L, 0, [], 0
    def shutdown(self): self.log.append("shutdown")
    def get_flow_fields_shape(self): return (2, 2, 2)

    def get_batch(self, batch_size):
        self.log.append("get")
        if self.t >= self.L:
            raise EpisodeEnd
        self.t = self.t + 1
        b = int(batch_size)
        z_ = np.zeros((b, 2, 2), np.float32)
        return SchedulerData(flow_fields=np.zeros((b, 2, 2, 2), np.float32), images1=z_, images2=z_)

    def reset(self):
        self.log.append("reset")
        self.t, self.ep = 0, self.ep + 1

    def steps_remaining(self): return self.L - self.t

    def next_episode(self):
        self.log.append("next_episode")
        self.t, self.ep = 0, self.ep + 1

    @property
    def episode_length(self): return self.L


class PlainSource:
    include_images = True
    file_list = ["x"]

    def __init__(self): self.log = []
    def shutdown(self): self.log.append("shutdown")
    def get_flow_fields_shape(self): return (2, 2, 2)
    def get_batch(self, batch_size):
        self.log.append("get")
        z_ = np.zeros((int(batch_size), 2, 2), np.float32)
        return SchedulerData(flow_fields=np.zeros((int(batch_size), 2, 2, 2), np.float32), images1=z_, images2=z_)
    def reset(self): self.log.append("reset")


def fulls():
    """jnp.full / jnp.array / jnp.asarray decide symbolic truth values by forking"""
    def f(orig, pos):
        def g(*a, **k):
            a = list(a)
            if len(a) > pos and isinstance(a[pos], symx.SymBool):
                a[pos] = bool(a[pos])
            if isinstance(k.get("fill_value"), symx.SymBool):
                k["fill_value"] = bool(k["fill_value"])
            return orig(*a, **k)
        return g
    return patched(*[(m, n, f(getattr(m, n), p)) for m in (jnp, np) for n, p in (("full", 1), ("array", 0), ("asarray", 0))])


def make_sampler(real, sched, B, m):
    if real:
        return REAL(sched, batch_size=B)
    return sampler(sched, spec(batch_size=B), flow_fields_per_batch=m)


def harness(real, steps):
    def h(cx):
        L = cx.int("episode_length", 1, 10 ** 6)
        B = cx.choose("batch_size", 1, 2)
        src = EpiSource(L)

        def gen(a):
            return fake_images(a)

        def adapt(a):
            return a["first"], a["first"]
        with numeric_patches(), recorded(gen, adapt), fulls():
            s = make_sampler(real, src, B, 1)
            served, hist = 0, []
            ops = ("next", "next_episode", "reset", "reset-sampler-only")
            for i in range(steps):
                op = ops[cx.choose(f"op{i}", 0, 3)]
                hist.append(op)
                info = lambda w: (lambda: f"{w} (history {hist}, episode length {L}, {'real' if real else 'synthetic'} sampler)")
                n0 = list(src.log)
                if op == "next_episode":
                    s.next_episode()
                    cx.prove("advance-reaches-source-once", src.log[len(n0):] == ["next_episode"], info("advancing the episode did not reach the source exactly once"))
                    served = 0
                elif op.startswith("reset"):
                    s.reset(scheduler_reset=op == "reset")
                    want = ["reset"] if op == "reset" else []
                    cx.prove("reset-reaches-source-once", src.log[len(n0):] == want, info("reset reached the source a wrong number of times"))
                    if op == "reset":
                        served = 0
                else:
                    try:
                        b = next(s)
                    except EpisodeEnd:
                        cx.prove("ends-only-after-last-step", served >= L, info("the episode was ended early"))
                        cx.prove("end-consumes-nothing", "get" not in src.log[len(n0):] and len(src.log) == len(n0), info("asking beyond the end touched the source"))
                        continue
                    cx.prove("enforced-after-last-step", served < L, info("a batch was served after the last step"))
                    served += 1
                    d = b.done
                    cx.prove("done-present", d is not None and tuple(np.shape(d)) == (B,) and np.asarray(d).dtype == bool, info("done flag missing or of wrong shape"))
                    d = np.asarray(d).tolist()
                    cx.prove("done-exact", Iff(bool(d[0]), served == L) if len(set(d)) == 1 else False, info(f"done flag {d} after {served} steps"))
    return h


def plain(real, steps):
    def h(cx):
        src = PlainSource()

        def gen(a):
            return fake_images(a)

        def adapt(a):
            return a["first"], a["first"]
        with numeric_patches(), recorded(gen, adapt), fulls():
            s = make_sampler(real, src, 2, 1)
            hist = []
            for i in range(steps):
                op = ("next", "next_episode", "reset", "reset-sampler-only", "shutdown")[cx.choose(f"op{i}", 0, 4)]
                hist.append(op)
                info = lambda w: (lambda: f"{w} (history {hist}, {'real' if real else 'synthetic'} sampler, plain source)")
                n0 = len(src.log)
                if op == "next":
                    cx.prove("no-done-without-episodes", next(s).done is None, info("a done flag was produced without episodes"))
                    continue
                want = {"next_episode": [], "reset": ["reset"], "reset-sampler-only": [], "shutdown": ["shutdown"]}[op]
                if op == "next_episode":
                    try:
                        s.next_episode()
                        cx.prove("advance-refused", False, info("advancing the episode was not refused"))
                    except AttributeError:
                        pass
                elif op == "shutdown":
                    s.shutdown()
                else:
                    s.reset(scheduler_reset=op == "reset")
                cx.prove("reaches-source-once", src.log[n0:] == want, info(f"{op} reached the source as {src.log[n0:]}"))
    return h


def body(ck):
    steps = 5 if TIER == "quick" else 7
    ck.bounds = f"histories of up to {steps} operations (next, next episode, reset, sampler-only reset, shutdown), every episode length up to 10^6, batch sizes 1 and 2; real and synthetic samplers."
    for real in (True, False):
        n = symx.run(ck, harness(real, steps if real or TIER != "quick" else steps - 1), f"{'real' if real else 'synthetic'} episodic", key="episode", deadline=300 if TIER == "quick" else 1500, max_paths=200000)
        ck.sample(f"{'real' if real else 'synthetic'} sampler, episodic source: {n} paths")
        symx.run(ck, plain(real, 3), f"{'real' if real else 'synthetic'} plain", key="plain", deadline=100, max_paths=200000)


if __name__ == "__main__":
    main("S04", body, functions=fingerprint(base_mod.Sampler.__next__, base_mod.Sampler.reset, base_mod.Sampler.next_episode, base_mod.Sampler.shutdown, base_mod.Sampler._make_done, SYN._get_next, REAL._get_next),
         assumptions=["the source follows the episodic protocol (its own behaviour is D07/P03)", "generation and resampling are recorded stand-ins; one device", "one image batch per flow batch (what an episodic source gets, S02)"],
         outside="longer histories; several devices; a prefetcher over a source without episodes (it answers the episodic protocol and never flags an end).")
