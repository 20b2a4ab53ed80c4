"""Episodes: contiguous runs of one folder, aligned over the batch, whatever is drawn."""
from vlib.common import main, fingerprint, TIER, SHARD
from vlib.sched import *
from vlib.symkeys import *
from checks.D03 import REFUSED

EPI = EpisodicFlowFieldScheduler


class Data:
    """leaf folders a and b below a root, frames with a value each"""

    def __init__(self, cx, na, nb, gaps, extra=False):
        self.cx, self.fs = cx, vfs.VFS(cx)
        self.val, self.frames = {}, {}
        kinds = {}
        for d, n in (("a", na), ("b", nb)):
            for i in range(n):
                rel = f"root/{d}/{['2', '10', '1', '03'][i]}.mat"
                k = cx.int("present:" + rel, 0, 1) if d in gaps else 1
                v = float(100 * (ord(d) - 96) + i + 1)
                p = self.fs.add(rel, k, write=self.writer(v) if cx.concrete else None)
                self.val[p] = v
                kinds[p] = k
        if extra:
            self.fs.add("root/a/notes.txt", 1)
            p = self.fs.add("root/zz.mat", 1, write=self.writer(999.0) if cx.concrete else None)
            self.val[p] = 999.0                     # a frame outside the leaf folders
        self.kinds = kinds

    def writer(self, v):
        return lambda p: scipy.io.savemat(p, {"V": np.full((2, 3, 2), v, np.float32)}, appendmat=False)

    def folders(self):
        """the frames of every leaf folder in sorted order (decides which frames are present)"""
        out = {}
        for p in sorted(self.kinds):
            d = os.path.dirname(p)
            out.setdefault(d, [])
            if self.kinds[p] == 1:
                out[d].append(p)
        return out

    def open(self):
        return readers(self.cx, mat=lambda path: {"V": np.full((2, 3, 2), self.val[str(path)], np.float32)})


def listed(cx, data, how):
    if how == 0:
        return [data.fs.path("root")]
    if how == 1:
        return [data.fs.path("root/b"), data.fs.path("root/a")]
    fo = data.folders()
    return [fo[d][-1] for d in fo if fo[d]]


def items(b):
    v = np.asarray(b.flow_fields)
    return [set(v[i].reshape(-1).tolist()) for i in range(v.shape[0])], list(b.files or [])


class Watch:
    """every item of every step belongs to that item's own episode"""

    def __init__(self, cx, data, L, B, txt):
        self.cx, self.data, self.L, self.B, self.txt = cx, data, L, B, txt
        self.folders = data.folders()
        self.where = {p: (d, i) for d, fs in self.folders.items() for i, p in enumerate(fs)}
        self.t = 0
        self.starts = None

    def new(self):
        self.t, self.starts = 0, None

    def step(self, s):
        cx = self.cx
        if self.t == self.L:
            try:
                s.get_batch(self.B)
                end = False
            except EpisodeEnd:
                end = True
            cx.prove("episode-length", end, lambda: f"more than {self.L} steps in an episode: {self.txt()}")
            cx.prove("nothing-remaining", s.steps_remaining() == 0, lambda: f"{s.steps_remaining()} steps remain after the last one: {self.txt()}")
            return
        b = None
        try:
            b = s.get_batch(self.B)
            why = ""
        except (EpisodeEnd, StopIteration) as e:
            why = repr(e)
        cx.prove("step-delivered", b is not None, lambda: f"step {self.t} of {self.L} raises {why}: {self.txt()}")
        vals, names = items(b)
        cx.prove("batch-size", len(vals) == self.B and len(names) == self.B and (b.mask is None or all(np.asarray(b.mask))), lambda: f"{len(vals)} items, {len(names)} names for batch size {self.B}: {self.txt()}")
        show = lambda: [os.path.relpath(n, self.data.fs.root) for n in names]
        cx.prove("names-belong-to-flows", all(n in self.data.val and vals[i] == {self.data.val[n]} for i, n in enumerate(names)), lambda: f"flows {vals} named {show()}: {self.txt()}")
        cx.prove("frames-of-leaf-folders", all(n in self.where for n in names), lambda: f"step {self.t} uses {show()}: {self.txt()}")
        pos = [self.where[n] for n in names]
        if self.starts is None:
            cx.prove("room-for-the-episode", all(i + self.L <= len(self.folders[d]) for d, i in pos), lambda: f"episodes start at {show()} although {self.L} frames must follow: {self.txt()}")
            self.starts = pos
        want = [(d, i + self.t) for d, i in self.starts]
        cx.prove("consecutive-and-aligned", pos == want, lambda: f"step {self.t} uses {show()} in episodes starting at {[self.folders[d][i].split('/root/')[1] for d, i in self.starts]}: {self.txt()}")
        self.t += 1
        cx.prove("steps-remaining", s.steps_remaining() == self.L - self.t, lambda: f"{s.steps_remaining()} steps remaining after {self.t} of {self.L}: {self.txt()}")


def build(cx, data, how, B, L, randomize, loop, key):
    base = MAT(listed(cx, data, how), randomize=randomize, loop=loop, output_shape=(2, 3), key=jax.random.PRNGKey(cx_seed(key)))
    return EPI(base, batch_size=B, episode_length=L, key=key)


def cx_seed(key): return 12345


def histories(na, nb, B, lengths, nops):
    def h(cx):
        data = Data(cx, na, nb, "", extra=True)
        L = lengths[cx.choose("episode_length", 0, len(lengths) - 1)]
        how = cx.choose("listed", 0, 2)
        randomize, loop = cx.flag("randomize"), how == 1
        hist = []
        d = draws(cx, few=True, limit=10 ** 9)
        txt = lambda: f"folders a:{na} b:{nb} frames, episode length {L}, batch {B}, listing {how}, randomize={randomize}, loop={loop}, draws {[x[1] for x in d.log]}, history {hist}"
        with data.fs, data.open(), symbolic_keys(always=True), d:
            given = jax.random.PRNGKey(cx.int("seed", 0, 9999))
            s = build(cx, data, how, B, L, randomize, loop, given)
            w = Watch(cx, data, L, B, txt)
            episodes = 1
            for i in range(nops):
                op = ("get", "next_episode", "reset")[cx.choose(f"op{i}", 0, 2 if i else 0)]
                hist.append(op)
                if op == "get":
                    w.step(s)
                else:
                    getattr(s, op)()
                    episodes += 1
                    w.new()
                    cx.prove("steps-remaining-anew", s.steps_remaining() == L, lambda: f"{s.steps_remaining()} steps remain in a new episode of {L}: {txt()}")
            while w.t < L:
                w.step(s)
            w.step(s)
            keys = [k for k, _ in d.log]
            own = sum(1 for x in d.sorts if x == "select")
            cx.prove("a-draw-per-episode", own >= episodes, lambda: f"{own} draws of starting points for {episodes} episodes: {txt()}")
            cx.prove("fresh-keys", independent(keys), lambda: f"two episodes are drawn from the same key or from keys derived from one another: {txt()}")
            g = keylist(given)[0]
            cx.prove("keys-from-the-given-one", sum_true(derived(g, k) for k in keys) >= episodes, lambda: f"starting points are drawn from a key not derived from the given one: {txt()}")
    return h


def sum_true(xs): return sum(1 for x in xs if bool(x))


def reach(na, nb, B, L):
    """every item can start at every admissible frame; and short folders are rejected"""
    def h(cx):
        data = Data(cx, na, nb, "ab")
        how = cx.choose("listed", 0, 1)
        randomize = cx.flag("randomize")
        txt = lambda: f"frames {[os.path.relpath(p, data.fs.root) for p, k in data.kinds.items() if not is_sym(k) and k]}, episode length {L}, batch {B}, randomize={randomize}"
        with data.fs, data.open(), symbolic_keys(always=True):
            fo = data.folders()
            named = {d: f for d, f in fo.items() if f}          # a folder without frames is not listed
            ok = bool(named) and all(len(f) >= L for f in named.values())
            want = {(d, i) for d, f in named.items() for i in range(len(f) - L + 1)} if ok else set()
            seen = [set() for _ in range(B)]
            c, total = 0, 1
            while c < total:
                d = draws(cx, few=True)

                def pick(key, n, dec, d=d):
                    nonlocal total
                    if False:
                        return dec(0)
                    out = dec(c if d.kind == "starts" else 0)
                    if d.kind == "starts":
                        total = n
                        d.log.append("starts")
                    return out
                d.kind = "order"
                d._pick = pick
                d.select = (lambda d: lambda key, n, k: (setattr(d, "kind", "starts"), draws.select(d, key, n, k), setattr(d, "kind", "order"))[1])(d)
                with d:
                    try:
                        s = build(cx, data, how, B, L, randomize, False, jax.random.PRNGKey(7))
                    except REFUSED as e:
                        cx.prove("long-folders-accepted", not ok, lambda: f"refused with {e!r}: {txt()}")
                        return
                    cx.prove("short-folders-rejected", ok, lambda: f"accepted: {txt()}")
                    w = Watch(cx, data, L, B, txt)
                    w.step(s)
                for i in range(B):
                    seen[i].add(w.starts[i])
                c += 1
            cx.prove("every-start-can-be-drawn", all(x == want for x in seen), lambda: f"starting points {[sorted((os.path.basename(d), i) for d, i in want - x) for x in seen]} are never drawn for the items: {txt()}")
    return h


def arguments(cx):
    data = Data(cx, 2, 2, "")
    B = [1, 2, 0, -1, "2", 1.5, None][cx.choose("batch_size", 0, 6)]
    L = [1, 2, 0, -1, "2", 1.5, None, 3][cx.choose("episode_length", 0, 7)]
    ok = B in (1, 2) and L in (1, 2) and type(B) is int and type(L) is int
    with data.fs, data.open(), symbolic_keys(always=True), draws(cx, few=True, limit=10 ** 9):
        try:
            s = build(cx, data, 0, B, L, False, False, jax.random.PRNGKey(7))
            acc = True
        except REFUSED:
            acc = False
        cx.prove("arguments", acc == ok, lambda: f"batch size {B!r} and episode length {L!r} {'accepted' if acc else 'refused'} with folders of 2 frames")
        if acc:
            try:
                s.get_batch(B + 1)
                other = True
            except REFUSED:
                other = False
            cx.prove("other-batch-size-refused", not other and s.steps_remaining() == L, lambda: f"batch size {B + 1} served by an episodic scheduler of batch size {B}")


def body(ck):
    q = TIER == "quick"
    runs = [("histories", histories(2, 2, 2, [2], 2) if q else histories(2, 2, 2, [1, 2], 3)), ("one item", histories(2, 3, 1, [2], 3 if q else 4)), ("long episodes", histories(3, 3, 1, [3], 3 if q else 5)),
            ("starting points", reach(3, 3, 1, 2)), ("starting points, two items", reach(2, 3, 2, 2)), ("short episodes", reach(2, 2, 2, 1)), ("arguments", arguments)]
    ck.bounds = f"two leaf folders of 2-4 frames (each frame present or missing where starting points are enumerated), with other files beside them, listed as root, folders or files; episode lengths 1-3, batch sizes 1-2, histories of {'2-3' if q else '4-5'} operations followed by the rest of the episode; every draw of starting points, shuffling wrapped source on and off; symbolic seed."
    for name, h in runs:
        n = symx.run(ck, h, name, key="episodes", deadline=400 if q else 1500, max_paths=400000)
        ck.sample(f"{name}: {n} paths" + (" in worker 0" if SHARD else ""))


if __name__ == "__main__":
    main("D07", body, shards=8, functions=fingerprint(EPI.__init__, EPI._calculate_starts, EPI._sample_new_episodes, EPI.get_batch, EPI.next_episode, EPI.reset, BaseFlowFieldScheduler.reset, repo.utils.discover_leaf_dirs),
         assumptions=["MAT files are served by a stand-in of scipy.io.loadmat (real files and reader in replays)", "keys are terms of a free algebra; draws of starting points return any selection, the wrapped source's shuffling the reversal"],
         outside="unreadable frames; data files other than .mat; more folders; longer episodes.")
