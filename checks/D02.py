"""Looping, reset and shuffling of the data sources."""
from vlib.common import main, fingerprint, TIER, SHARD
from vlib.sched import *
from vlib.symkeys import *
from checks.D01 import tag, check_batch, READABLE, BROKEN, garbage


def files(cx, n, quality, kind="h5"):
    """virtual files with n[f] slices each"""
    fs = vfs.VFS(cx)
    paths = []
    for f in range(len(n)):
        w = None
        if cx.concrete:
            m = int(n[f])
            w = garbage if quality[f] else write_h5(np.stack([np.full((1, 1, 2), tag(f, y), np.float32) for y in range(m)], 1) if m else np.zeros((1, 0, 1, 2), np.float32))
        paths.append(fs.add(f"f{f}.h5", 1, write=w))

    def content(path):
        f = paths.index(str(path))
        if quality[f]:
            raise OSError("cannot read")
        return {"flow": FakeDataset(Vol(n[f], lambda y: np.full((1, 1, 2), tag(f, y), np.float32), (1, 1, 2)))}
    return fs, paths, content


class Passes:
    """watches the delivered slices; every pass must be complete, blocks in slice order"""

    def __init__(self, cx, n, quality, paths, fixed, describe):
        self.cx, self.n, self.quality, self.paths, self.fixed, self.describe = cx, n, quality, paths, fixed, describe
        self.orders = [[]]          # observed file order per pass
        self.y = 0                  # next slice of the current file

    def restart(self):
        self.orders.append([])
        self.y = 0

    def missing(self):
        """files of the running pass that still have to come"""
        seen = self.orders[-1]
        return [f for f in range(len(self.n)) if f not in seen and not self.quality[f] and self.n[f] > 0]

    def inside(self):
        """the current file has slices left"""
        o = self.orders[-1]
        return bool(o) and bool(self.y < self.n[o[-1]])

    def item(self, f, y, wraps):
        cx = self.cx
        if self.inside():
            cx.prove("slices-in-order", f == self.orders[-1][-1] and self.y == y, lambda: f"slice {y} of file {f} comes where slice {self.y} of file {self.orders[-1][-1]} should ({self.describe()})")
            self.y = self.y + 1
            return
        left = self.missing()
        if not left:
            cx.prove("pass-ends", wraps, lambda: f"more data after a complete pass ({self.describe()})")
            self.restart()
            left = self.missing()
        cx.prove("every-file-once-per-pass", f in left, lambda: f"file {f} is visited although the pass {self.orders[-1]} only lacks {left} ({self.describe()})")
        if self.fixed:
            cx.prove("given-order", f == left[0], lambda: f"file {f} comes before file {left[0]} without randomization ({self.describe()})")
        cx.prove("file-from-its-start", y == 0, lambda: f"file {f} starts with slice {y} ({self.describe()})")
        self.orders[-1].append(f)
        self.y = 1

    def batch(self, b, size, wraps):
        vals = [int(v) for v in np.asarray(b.flow_fields).reshape(np.asarray(b.flow_fields).shape[0], -1)[:, 0]]
        items = [(v // 100000 - 1, v % 100000 - 1) for v in vals if v]
        check_batch(self.cx, b, size, [(tag(f, y), self.paths[f]) for f, y in items], lambda w: (lambda: f"{w()} ({self.describe()})"))
        self.cx.prove("full-batches-when-looping", not wraps or len(items) == size, lambda: f"{len(items)} of {size} items although looping ({self.describe()})")
        for f, y in items:
            self.item(f, y, wraps)
        if len(items) < size:
            self.ended()

    def ended(self):
        self.cx.prove("no-early-end", not self.inside() and not self.missing(), lambda: f"the data ended in pass {self.orders[-1]} although files {self.missing()} are left ({self.describe()})")


def ops(cx, s, mon, loop, length, sizes, describe_ops):
    for i in range(length):
        k = cx.choose(f"op{i}", 0, sizes)
        describe_ops.append("reset" if k == 0 else f"get({k})")
        if k == 0:
            s.reset()
            mon.restart()
            continue
        try:
            b = s.get_batch(k)
        except StopIteration:
            cx.prove("never-ends-when-looping", not loop, lambda: f"end of data although looping ({mon.describe()})")
            mon.ended()
            continue
        mon.batch(b, k, loop)


def ordered(F, nmax, length, sizes):
    """no randomization: any history of requests and resets"""
    def h(cx):
        n = [cx.int(f"slices{f}", 0, nmax) for f in range(F)]
        quality = [cx.choose(f"unreadable{f}", 0, 1) for f in range(F)]
        cx.assume(Or(*[n[f] > 0 for f in range(F) if not quality[f]]))
        loop = cx.flag("loop")
        fs, paths, content = files(cx, n, quality)
        hist = []
        d = draws(cx)
        with fs, readers(cx, h5=content), symbolic_keys(always=True), d:
            s = H5(list(paths), randomize=False, loop=loop, key=jax.random.PRNGKey(cx.int("seed", 0, 10 ** 9)))
            mon = Passes(cx, n, quality, paths, True, lambda: f"loop={loop}, slices {[x if not is_sym(x) else '?' for x in n]}, unreadable {quality}, history {hist}")
            ops(cx, s, mon, loop, length, sizes, hist)
            cx.prove("order-not-drawn", not d.log, "the order was drawn although randomization is off")
    return h


def shuffled_pass(F, length, two_slices, sizes=2):
    """randomization: any history; every pass has its own draw from its own key"""
    def h(cx):
        n = [2 if two_slices and f == 0 else 1 for f in range(F)]
        quality = [0] * F
        if cx.flag("first_unreadable"):
            quality[0] = 1
        loop = cx.flag("loop")
        fs, paths, content = files(cx, n, quality)
        hist = []
        d = draws(cx)
        with fs, readers(cx, h5=content), symbolic_keys(always=True), d:
            given = jax.random.PRNGKey(cx.int("seed", 0, 10 ** 9))
            s = H5(list(paths), randomize=True, loop=loop, key=given)
            mon = Passes(cx, n, quality, paths, False, lambda: f"loop={loop}, slices {n}, unreadable {quality}, draws {[x[1] for x in d.log]}, history {hist}")
            ops(cx, s, mon, loop, length, sizes, hist)
            started = len([o for o in mon.orders[:-1]]) + (1 if mon.orders[-1] else 0)
            keys = [k for k, _ in d.log]
            cx.prove("a-draw-per-pass", len(d.log) >= started, lambda: f"{len(d.log)} draws for {started} passes ({mon.describe()})")
            cx.prove("fresh-keys", independent(keys), lambda: f"two passes are drawn from the same key or from keys derived from one another ({mon.describe()})")
            g = keylist(given)[0]
            cx.prove("keys-from-the-given-one", And(*[derived(g, k) for k in keys]), lambda: f"an order is drawn from a key that is not derived from the given one ({mon.describe()})")
    return h


def composed(F, passes, how):
    """two runs: the order of a pass is one-to-one with its draw"""
    def h(cx):
        n, quality = [1] * F, [0] * F
        bs = cx.choose("batch_size", 1, 2)
        same_key = cx.flag("same_draws")
        out = []
        fs, paths, content = files(cx, n, quality)
        with fs, readers(cx, h5=content), symbolic_keys(always=True):
            given = jax.random.PRNGKey(cx.int("seed", 0, 10 ** 9))
            for r in range(2):
                d = draws(cx, f"run{r}_draw")
                if r == 1 and same_key:
                    old = out[0][1]
                    d._pick = lambda key, total, dec, d=d: (d.log.append((keylist(key)[0], old.log[len(d.log)][1])), d.log[-1][1])[1]
                with d:
                    s = H5(list(paths), randomize=True, loop=how == "loop", key=given)
                    mon = Passes(cx, n, quality, paths, False, lambda: f"{how}, batch size {bs}")
                    while len(mon.orders) < passes or len(mon.orders[-1]) < F:
                        try:
                            b = s.get_batch(bs)
                        except StopIteration:
                            s.reset()
                            mon.restart()
                            continue
                        mon.batch(b, bs, how == "loop")
                        if how == "reset" and len(mon.orders) < passes:
                            s.reset()               # in the middle of a pass
                            mon.restart()
                            break
                    if how == "reset":
                        while len(mon.orders[-1]) < F:
                            mon.batch(s.get_batch(bs), bs, False)
                out.append((mon.orders, d))
            (o0, d0), (o1, d1) = out
            p0, p1 = [x[1] for x in d0.log], [x[1] for x in d1.log]
            txt = lambda: f"{how}, batch size {bs}: draws {p0} and {p1} give the orders {o0} and {o1}"
            k0, k1 = [x[0] for x in d0.log], [x[0] for x in d1.log]
            cx.prove("same-key-same-draw-keys", And(*[same(a, b) for a, b in zip(k0, k1)]), lambda: "the keys drawn from differ between two runs with the same key")
            if p0 == p1:
                cx.prove("same-draws-same-orders", o0 == o1, txt)
            elif how != "reset" and len(p0) == passes:
                k = next(i for i in range(passes) if p0[i] != p1[i])
                cx.prove("order-follows-its-draw", o0[:k] == o1[:k] and o0[k] != o1[k], txt)
            elif how == "reset" and len(p0) == passes and p0[:-1] == p1[:-1]:
                cx.prove("order-follows-its-draw", o0[-1] != o1[-1], txt)
    return h


def body(ck):
    q = TIER == "quick"
    runs = [("given order", ordered(2, 2, 4 if q else 6, 3)), ("given order, three files", ordered(3, 1 if q else 2, 3 if q else 5, 4)),
            ("shuffled", shuffled_pass(2, 4 if q else 6, True)), ("shuffled, three files", shuffled_pass(3, 2 if q else 4, False, 3 if q else 2)),
            ("two runs, looping", composed(3, 2, "loop")), ("two runs, until the end", composed(3, 2, "end")), ("two runs, interrupted", composed(3, 2, "reset"))]
    ck.bounds = f"2-3 files with symbolic slice counts 0-{2} and symbolic readability (at least one slice readable), histories of {"2-4" if q else "4-6"} requests (sizes 1-4) and resets, loop on and off; every permutation that can be drawn for up to 3 files; two passes in the two-run comparison; symbolic seeds."
    for name, h in runs:
        n = symx.run(ck, h, name, key="pass", deadline=250 if q else 1500, max_paths=400000)
        ck.sample(f"{name}: {n} paths" + (" in worker 0" if SHARD else ""))


if __name__ == "__main__":
    main("D02", body, shards=8, functions=fingerprint(BaseFlowFieldScheduler.__init__, BaseFlowFieldScheduler.reset, BaseFlowFieldScheduler._get_next, BaseFlowFieldScheduler.get_batch),
         assumptions=["file contents are served by stand-ins of h5py.File for virtual files (real files and readers in replays)", "keys are terms of a free algebra; draws return any permutation"],
         outside="datasets without any readable slice (looping never returns); longer lists; the statistical quality of jax.random.permutation.")
