"""Leaf folders: exactly the listed folders without sub-folders, in a reproducible order."""
import ast, inspect, json, subprocess, sys, textwrap
from vlib.common import main, fingerprint, TIER, SHARD, REPO
from vlib.sched import *

utils = repo.utils
FAULTS = [None, FileNotFoundError(2, "vanished"), PermissionError(13, "denied"), NotADirectoryError(20, "replaced")]


class Unordered:
    """iteration order of a set of strings is arbitrary (it depends on the process's hash seed): the solver decides"""
    cx = None
    n = 0

    @classmethod
    def order(cls, items):
        items = sorted(items)
        if len(items) < 2 or cls.cx is None:
            return items
        cls.n += 1
        out = []
        while items:
            k = cls.cx.choose(f"set_order_{cls.n}_{len(out)}", 0, len(items) - 1) if len(items) > 1 else 0
            out.append(items.pop(k))
        return out


class USet(set):
    def __iter__(self): return iter(Unordered.order(list(set.__iter__(self))))
    def pop(self):
        x = next(iter(self))
        self.discard(x)
        return x
    def copy(self): return USet(set.__iter__(self))
    def _wrap(name):
        def f(self, *o): return USet(set.__iter__(getattr(set, name)(set(set.__iter__(self)), *[set(set.__iter__(x)) if isinstance(x, set) else x for x in o])))
        return f
    __or__, __and__, __sub__, __xor__ = map(_wrap, ("__or__", "__and__", "__sub__", "__xor__"))
    union, intersection, difference, symmetric_difference = map(_wrap, ("union", "intersection", "difference", "symmetric_difference"))


class Rewrite(ast.NodeTransformer):
    """set displays and comprehensions become sets of undetermined order"""

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.Call(ast.Name("__uset__", ast.Load()), [ast.ListComp(n.elt, n.generators)], []), n)

    def visit_Set(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.Call(ast.Name("__uset__", ast.Load()), [ast.List(n.elts, ast.Load())], []), n)


def transformed():
    """the module's functions with undetermined set order (the rest of the module is shared)"""
    env = dict(vars(utils))
    env.update(__uset__=USet, set=USet, frozenset=USet)
    tree = ast.parse(inspect.getsource(utils))
    keep = [n for n in tree.body if isinstance(n, (ast.FunctionDef, ast.ClassDef))]
    mod = ast.fix_missing_locations(Rewrite().visit(ast.Module(keep, [])))
    exec(compile(mod, "<transformed utils>", "exec"), env)
    return env["discover_leaf_dirs"]


def shape(cx, deep):
    """a tree: folders a, b, b/c (and more) with symbolic entries"""
    fs = vfs.VFS(cx)
    dirs = ["a", "b", "b/c"] + (["b/c/d"] if deep else [])
    kind, link, fault = {}, {}, {}

    def add(rel, lo=0, hi=2, linkable=True):
        kind[rel] = cx.int("kind:" + rel, lo, hi)
        link[rel] = cx.flag("symlink:" + rel) if linkable else False
        fs.add(rel, kind[rel], link=link[rel])
    add("a", 0, 2, False)
    fault["a"] = FAULTS[cx.choose("fault:a", 0, len(FAULTS) - 1)]
    node = fs.top.kids["a"]
    node.fault = fault["a"]
    fs.add("a/f.mat", 1)
    add("a/s")
    add("b", 2, 2, False)
    fs.add("b/f.mat", 1)
    add("b/c", 0, 2, False)
    if deep:
        fs.add("b/c/f.mat", 1)
        add("b/c/d", 0, 2, False)
    return fs, dirs, kind, link, fault


def leaf(d, kind, link, fault, follow):
    """the oracle for one folder"""
    if kind[d] != 2 or fault.get(d) is not None:
        return False
    for sub in kind:
        if os.path.dirname(sub) == d and kind[sub] == 2 and (follow or not link[sub]):
            return False
    parent = os.path.dirname(d)
    return not parent or kind[parent] == 2


SPELL = ["{d}/x.mat", "{d}/../{d0}/y.mat", "{d}//z.mat", "{d}/./x.mat"]


def exact(deep, L):
    f = transformed()

    def h(cx):
        Unordered.cx, Unordered.n = cx, 0
        fs, dirs, kind, link, fault = shape(cx, deep)
        follow = cx.flag("follow_symlinks")
        n = cx.choose("length", 0, L)
        at = [dirs[cx.choose(f"path{i}", 0, len(dirs) - 1)] for i in range(n)]
        sp = cx.choose("spelling", 0, 3) if n else 0
        paths = [fs.path("") + "/" + (SPELL[sp] if i == n - 1 else SPELL[0]).format(d=d, d0=os.path.basename(d)) for i, d in enumerate(at)]
        with fs:
            got = (utils.discover_leaf_dirs if cx.concrete else f)(list(paths), follow_symlinks=follow)
            want = {fs.path(d) for d in set(at) if leaf(d, kind, link, fault, follow)}
        norm = [os.path.normpath(g) for g in got]
        txt = lambda: f"paths {[p[len(fs.root):] for p in paths]}, tree { {k: ('missing', 'file', 'folder')[int(v)] for k, v in kind.items()} if cx.concrete else '?'}, symlinks {[k for k in link if link[k]]}, faults {fault}, follow_symlinks={follow}: {[g[len(fs.root):] for g in got]}"
        cx.prove("no-other-folder", set(norm) <= want, lambda: f"folders without being leaves: {txt()}")
        cx.prove("no-leaf-missed", want <= set(norm), lambda: f"leaf folders {sorted(w[len(fs.root):] for w in want - set(norm))} missed: {txt()}")
        cx.prove("each-once", len(norm) == len(set(norm)), lambda: f"a folder twice: {txt()}")
    return h


PROBE = """
import sys, json
sys.path.insert(0, {verif!r})
from vlib import repo
print(json.dumps(repo.utils.discover_leaf_dirs(json.loads(sys.argv[1]))))
"""


def hash_orders(paths):
    """the real function in fresh processes with different hash seeds"""
    from vlib.common import VERIF
    outs = []
    for s in range(12):
        r = subprocess.run([sys.executable, "-c", PROBE.format(verif=VERIF), json.dumps(paths)], capture_output=True, text=True, env={**os.environ, "PYTHONHASHSEED": str(s + 1), "VERIF_SHARD": ""})
        outs.append((s + 1, r.stdout.strip().splitlines()[-1] if r.stdout.strip() else r.stderr[-200:]))
    return outs


def reproducible(k):
    """two processes, same paths: any set order, any listing order"""
    f = transformed()

    def h(cx):
        names = ["m", "c", "x", "a"][:k]
        at = list(names)
        if cx.flag("reversed"):
            at = at[::-1]
        res = []
        for r in range(2):
            fs = vfs.VFS(cx)
            fs.order = {}
            for n in names:
                fs.add(f"{n}/f.mat", 1)
                fs.add(f"{n}/g.mat", 1)
            paths = [fs.path(d) + "/f.mat" for d in at]
            if cx.concrete:
                with fs:
                    outs = hash_orders(paths)
                cx.prove("reproducible", len({o for _, o in outs}) == 1, lambda: f"leaf folders of {[p[len(fs.root):] for p in paths]} come in another order with another hash seed: {[(s, o.replace(fs.root, '')) for s, o in outs[:4]]}")
                return
            Unordered.cx, Unordered.n = cx, 10 * r
            fs._ordered = lambda node, items: items
            with fs:
                res.append([g[len(fs.root):] for g in f(paths)])
        cx.prove("reproducible", res[0] == res[1], "")
    return h


def listing_order(cx):
    """the order does not depend on how the operating system lists a folder"""
    Unordered.cx = None
    res = []
    for r in range(2):
        fs = vfs.VFS(cx, "vfs")
        ask = cx.choose
        for n in ("b", "a"):
            fs.add(f"{n}/f.mat", 1)
            fs.add(f"{n}/sub", cx.int(f"sub{r}{n}", 0, 2) if r == 0 else kinds[n])
            fs.add(f"{n}/z", 1)
        kinds = {n: fs.top.kids[n].kids["sub"].kind for n in ("a", "b")}
        orders = {}

        def order(node, items, r=r):
            if len(items) < 2:
                return items
            if node.name not in orders:
                orders[node.name] = cx.choose(f"listing{r}{node.name}", 0, len(items) - 1)
            j = orders[node.name]
            return items[j:] + items[:j]
        fs._ordered = order
        with fs:
            res.append([g[len(fs.root):] for g in utils.discover_leaf_dirs([fs.path(d) + "/f.mat" for d in ("b", "a")])])
    cx.prove("listing-order", res[0] == res[1], lambda: f"{res[0]} or {res[1]} depending on how the folders are listed")


def body(ck):
    q = TIER == "quick"
    runs = [("folders", exact(False, 2 if q else 3)), ("nested folders", exact(True, 2 if q else 3)), ("two processes", reproducible(3 if q else 4)), ("listing order", listing_order)]
    ck.bounds = f"up to {2 if q else 3} paths (any of four spellings) into three or four nested folders, each missing / file / folder, sub-folders also as symbolic links, vanishing or unreadable when listed; symlinks followed or not; every iteration order of sets over {3 if q else 4} folders in two runs."
    for name, h in runs:
        n = symx.run(ck, h, name, key="leaves", deadline=250 if q else 1500, max_paths=400000)
        ck.sample(f"{name}: {n} paths" + (" in worker 0" if SHARD else ""))


if __name__ == "__main__":
    main("D08", body, shards=8, functions=fingerprint(utils.discover_leaf_dirs),
         assumptions=["the file system answers from a virtual tree (a real temporary tree in replays)", "sets of strings iterate in any order (set displays, comprehensions and set() of the module)"],
         outside="relative paths; folders that change while being listed; permission errors other than at listing.")
