"""Updating and flattening records: every field in its place."""
import jax
from vlib.common import main, fingerprint, TIER
from vlib.symx import *
from vlib import symx, repo
from synthpix.types import ImageGenerationSpecification as Spec, ImageGenerationParameters as Params, SynthpixBatch as Batch, SchedulerData as Data
from checks.C01 import NAMES, settings, valid, same

PARAMS = ["seeding_densities", "diameter_ranges", "intensity_ranges", "rho_ranges"]
BATCH = ["images1", "images2", "flow_fields", "params", "done", "mask", "files"]
DATA = ["flow_fields", "images1", "images2", "mask", "files"]


class Leaf:
    """an array as the records see it: an opaque object"""

    def __init__(self, name, v):
        self.name, self.v = name, v

    def __repr__(self): return f"{self.name}={self.v}"
    def __eq__(self, o): raise Inconclusive("records compare their arrays")
    __hash__ = object.__hash__
    def __bool__(self): raise ValueError("the truth value of an array is ambiguous")


def value(cx, tag, f, kinds):
    """an opaque array, or one of the values a careless test for 'not given' would skip"""
    k = cx.choose("kind:" + tag + f, 0, kinds)
    if k == 0:
        return Leaf(tag + f, cx.int(tag + f))
    return [None, (), 0, False, ("a", "b")][k - 1]


def snapshot(r, fields):
    return {f: getattr(r, f) for f in fields}


def updating(cls, fields, optional):
    def h(cx):
        # which fields are updated: chosen by the solver
        given = [f for f in fields if cx.flag("update:" + f)]
        # at most one of the new and one of the old values is special (None, empty, zero)
        special = cx.choose("special", -1, len(fields) - 1)
        old = {f: Leaf("old." + f, cx.int("old." + f)) for f in fields}
        new = {f: Leaf("new." + f, cx.int("new." + f)) for f in given}
        if special >= 0:
            f = fields[special]
            if f in optional:
                old[f] = [None, (), Leaf("x", 0)][cx.choose("old kind", 0, 2)]
            if f in given:
                new[f] = [None, (), 0, False][cx.choose("new kind", 0, 3)]
        r = cls(**old)
        try:
            u = r.update(**new)
        except Exception as e:
            cx.prove("update-works", False, lambda: f"updating {given} raises {e!r}")
            return
        cx.prove("same-kind", type(u) is cls, lambda: f"{type(u)}")
        cx.prove("new-record", u is not r, "update returns the same record")
        for f in fields:
            want = new[f] if f in new else old[f]
            got = getattr(u, f)
            cx.prove("exactly-the-given-fields", got is want, lambda: f"{cls.__name__}.{f} is {got!r} instead of {want!r} after updating {new}")
            cx.prove("original-untouched", getattr(r, f) is old[f], lambda: f"{cls.__name__}.{f} of the original became {getattr(r, f)!r} after updating {new}")
    h.__name__ = "update_" + cls.__name__
    return h


def respec(cx):
    """settings: any two fields at once, or all but two, with arbitrary new numbers"""
    whole = cx.flag("whole")
    old = settings(cx, "old.", (1, 1, 1), whole)
    cx.assume(valid(old))
    i = cx.choose("first", 0, len(NAMES) - 1)
    j = cx.choose("second", i, len(NAMES) - 1)
    rest = cx.flag("all others")
    given = [f for k, f in enumerate(NAMES) if (k in (i, j)) != rest]
    new = {f: v for f, v in settings(cx, "new.", (2, 1, 2), whole).items() if f in given}
    r = Spec(**old)
    want = {**old, **new}
    if rest and i != j:
        cx.assume(valid({**settings_ok(), **{f: new[f] for f in given[1:]}}))     # only the first of many new values may be invalid
    try:
        u = r.update(**new)
    except (ValueError, TypeError):
        u = None
    for f in NAMES:
        cx.prove("original-untouched", same(getattr(r, f), old[f]), lambda: f"{f} of the original became {getattr(r, f)}")
    if u is None:
        cx.prove("valid-update-accepted", Not(valid(want)), lambda: f"refused: {new} on {old}")
        return
    cx.prove("updated-settings-validated", valid(want), lambda: f"accepted: {new} on {old}")
    cx.prove("same-kind", type(u) is Spec and u is not r)
    for f in NAMES:
        cx.prove("exactly-the-given-fields", same(getattr(u, f), want[f]), lambda: f"{f} is {getattr(u, f)} instead of {want[f]} after updating {list(new)}")


def settings_ok():
    d = Spec()
    return {f: getattr(d, f) for f in NAMES}


def batch(cx, tag=""):
    """a batch with its optional parts present or not"""
    leaf = lambda f: Leaf(tag + f, cx.int(tag + f))
    have = lambda f: cx.flag("has:" + f) if not tag else True
    v = {f: leaf(f) for f in BATCH[:3]}
    v["params"] = Params(**{f: leaf(f) for f in PARAMS}) if have("params") else None
    v["done"] = leaf("done") if have("done") else None
    v["mask"] = leaf("mask") if have("mask") else None
    n = cx.choose("files", 0, 3) if not tag else 0
    v["files"] = None if n == 0 else tuple(f"{tag}f{k}" for k in range(n - 1))
    return Batch(**v)


def places(x, g=lambda v: v):
    """expected content of a record after mapping g over its leaves"""
    if x is None:
        return None
    if isinstance(x, (Batch, Params)):
        return type(x), {f: places(getattr(x, f), g) for f in (BATCH if isinstance(x, Batch) else PARAMS)}
    if isinstance(x, tuple):
        return tuple(places(e, g) for e in x)
    return g(x)


def agree(a, b):
    """record a has the expected content b"""
    if b is None:
        return a is None
    if isinstance(b, tuple) and len(b) == 2 and isinstance(b[1], dict):
        return type(a) is b[0] and all(agree(getattr(a, f), v) for f, v in b[1].items())
    if isinstance(b, tuple):
        return type(a) is tuple and len(a) == len(b) and all(agree(x, y) for x, y in zip(a, b))
    if isinstance(b, Mapped):
        return isinstance(a, Mapped) and a.by == b.by
    return a is b


class Mapped:
    def __init__(self, *by): self.by = tuple(by)
    def __repr__(self): return f"f{self.by}"


def trees(cx):
    b = batch(cx)
    before = places(b)
    nested = cx.flag("inside a container")
    t = {"z": b, "a": (b.images1, [b])} if nested else b

    def ok(name, r, want):
        rs = [r["z"], r["a"][1][0]] if nested else [r]
        for x in rs:
            cx.prove(name, agree(x, want), lambda: f"{x} instead of {want}")
    leaves, tree = jax.tree_util.tree_flatten(t)
    ok("flatten-and-rebuild", jax.tree_util.tree_unflatten(tree, leaves), before)
    n = sum(1 for _ in flat(before)) * (2 if nested else 1) + (1 if nested else 0)
    cx.prove("every-leaf-once", len(leaves) == n, lambda: f"{len(leaves)} leaves instead of {n}")
    ok("mapped-in-place", jax.tree_util.tree_map(Mapped, t), places(b, Mapped))
    again = jax.tree_util.tree_map(lambda v: v, t)
    ok("mapped-in-place", jax.tree_util.tree_map(lambda x, y: Mapped(x, y), t, again), places(b, lambda v: Mapped(v, v)))
    # unknown values (None) may stand in for leaves, as transformations do
    ok("rebuild-with-other-leaves", jax.tree_util.tree_unflatten(tree, [Mapped(v) for v in leaves]), places(b, Mapped))
    with_none = jax.tree_util.tree_map(lambda v: None if v is b.images2 else v, t)
    for x in ([with_none["z"]] if nested else [with_none]):
        cx.prove("mapped-to-none", x.images2 is None and x.images1 is b.images1 and x.flow_fields is b.flow_fields, lambda: f"{x}")
    kids, aux = b.tree_flatten()
    ok2 = Batch.tree_unflatten(aux, kids)
    cx.prove("flatten-and-rebuild", agree(ok2, before), lambda: f"{ok2} instead of {before}")
    if b.params is not None:
        p = Params.tree_unflatten(b.params.tree_flatten()[1], b.params.tree_flatten()[0])
        cx.prove("flatten-and-rebuild", agree(p, places(b.params)), lambda: f"{p}")
    cx.prove("original-untouched", agree(b, before), lambda: f"{b} instead of {before}")


def flat(x):
    if x is None:
        return
    if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], dict):
        for v in x[1].values():
            yield from flat(v)
    elif isinstance(x, tuple):
        for v in x:
            yield from flat(v)
    else:
        yield x


def body(ck):
    symx.run(ck, updating(Batch, BATCH, BATCH[3:]), "update_batch")
    symx.run(ck, updating(Data, DATA, DATA[1:]), "update_source_record")
    symx.run(ck, respec, "update_settings", deadline=400)
    symx.run(ck, trees, "trees")
    ck.bounds = ["batches and source records: every subset of fields updated at once, new and old values opaque, None, empty, zero or False",
                 "settings: every pair of fields, and all fields but a pair, with any numbers (validity decided symbolically)",
                 "trees: every combination of missing optional fields, 0..2 file names, nested in containers or not; rebuilt and mapped with one and two trees"]


if __name__ == "__main__":
    main("C02", body, shards=6,
         functions=fingerprint(Batch.update, Batch.tree_flatten, Batch.tree_unflatten, Params.tree_flatten, Params.tree_unflatten, Data.update, Spec.update, Spec.__post_init__),
         assumptions=["jax.tree_util's registry calls the records' own flatten and unflatten (the real jax functions are used)"],
         outside=["update() with names that are no fields", "settings updates of 3 to 13 fields at once"])
