"""Random keys as terms of a free algebra: root(seed), child(key, index).

jax.random.split(k, n)[i] does not depend on n and equals fold_in(k, i) (partitionable threefry), so both are
child(k, i).  Two keys are the same exactly when their terms are equal (no accidental collisions)."""
import contextlib, math
import z3
from .repo import jax, jnp, np
from .symx import *
from . import symx

_D = z3.Datatype("Key")
_D.declare("root", ("seed", z3.IntSort()))
_D.declare("child", ("parent", _D), ("index", z3.IntSort()))
KeySort = _D.create()


class Key:
    """one key (shape (2,))"""
    shape, ndim, size, dtype = (2,), 1, 2, np.dtype("uint32")

    def __init__(self, t): self.t = t
    def block_until_ready(self): return self
    def reshape(self, *s): return KeyArr([self]) if s in ((1, 2), ((1, 2),), (1, -1), (-1, 2), ((-1, 2),)) else self
    def __getitem__(self, i): return KeyArr([self]) if i is None else self


class KeyArr:
    ndim, dtype = 2, np.dtype("uint32")

    def __init__(self, ks): self.ks = list(ks)
    @property
    def shape(self): return (len(self.ks), 2)
    def __len__(self): return len(self.ks)
    def __iter__(self): return iter(self.ks)
    def __getitem__(self, i):
        r = self.ks[i]
        return KeyArr(r) if isinstance(r, list) else r
    def block_until_ready(self): return self
    def reshape(self, *s): return self


def child(k, i): return Key(KeySort.child(k.t, z(i)))


def _split(orig):
    def f(key, num=2, **kw):
        if isinstance(key, KeyArr) and len(key) == 1:
            key = key[0]
        if not isinstance(key, Key):
            return orig(key, num, **kw)
        n = num if isinstance(num, int) else int(num[0]) if isinstance(num, tuple) and len(num) == 1 else int(num)
        return KeyArr([child(key, i) for i in range(n)])
    return f


@contextlib.contextmanager
def symbolic_keys(always=False):
    """seeds given as symbolic integers (all seeds if `always`) make key terms; real keys stay real"""
    R = jax.random
    oP, oS, oF = R.PRNGKey, R.split, R.fold_in

    def prng(seed, *a, **k):
        if is_sym(seed) or always:
            return Key(KeySort.root(z(seed)))
        return oP(seed, *a, **k)
    ident = lambda orig: (lambda x, *a, **k: x if isinstance(x, (Key, KeyArr)) else orig(x, *a, **k))
    items = [(R, "PRNGKey", prng), (R, "key", prng), (R, "split", _split(oS)),
             (R, "fold_in", lambda k, d, *a, **kw: child(k, d) if isinstance(k, Key) else oF(k, d, *a, **kw)),
             (jax, "device_put", ident(jax.device_put)), (jnp, "array", ident(jnp.array)), (jnp, "asarray", ident(jnp.asarray))]
    if hasattr(R, "clone"):
        items.append((R, "clone", ident(R.clone)))
    with patched(*items):
        yield


def keylist(a):
    """the individual keys in an argument (symbolic or real)"""
    if isinstance(a, Key):
        return [a]
    if isinstance(a, KeyArr):
        return list(a.ks)
    v = np.asarray(a).reshape(-1, 2)
    return [tuple(int(x) for x in r) for r in v]


def same(a, b):
    if isinstance(a, Key) and isinstance(b, Key):
        return wrap(a.t == b.t)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return a == b
    raise Inconclusive("mixed symbolic and real keys")


def all_distinct(ks):
    if not ks or isinstance(ks[0], tuple):
        return len(set(ks)) == len(ks)
    if len(ks) == 1:
        return True
    return wrap(z3.Distinct(*[k.t for k in ks]))


def derived(a, b):
    """b is a or is derived from a (concrete replay: up to two derivation steps)"""
    if isinstance(a, Key):
        r, t = [same(a, b)], b.t
        while t.decl().name() == "child":
            t = t.arg(0)
            r.append(wrap(a.t == t))
        return Or(*r)
    ks = np.asarray([a], np.uint32)
    for _ in range(6):
        if tuple(b) in {tuple(int(x) for x in k) for k in ks}:
            return True
        ks = np.asarray(jax.vmap(lambda k: jax.random.split(k, 3))(jnp.asarray(ks))).reshape(-1, 2)
    return tuple(b) in {tuple(int(x) for x in k) for k in ks}


def independent(ks):
    """no key equals or is derived from another one"""
    return And(*[Not(derived(a, b)) for i, a in enumerate(ks) for j, b in enumerate(ks) if i != j])


class draws:
    """jax.random.permutation / choice / uniform-like draws of a run are the solver's choice; keys are recorded.

    log: list of (key, outcome).  Every outcome a draw can have is explored (numbers of outcomes are finite here:
    permutations of n items, n**k selections)."""

    def __init__(self, cx, name="draw", limit=24, few=False):
        """few: permutations are always the reversal (not explored)"""
        self.cx, self.name, self.log, self.limit, self.few, self.sorts = cx, name, [], limit, few, []

    def _pick(self, key, total, decode):
        k = self.cx.choose(f"{self.name}{len(self.log)}", 0, total - 1)
        out = decode(k)
        self.log.append((keylist(key)[0], out))
        return out

    def perm(self, key, n):
        if self.few:
            self.log.append((keylist(key)[0], tuple(range(n))[::-1]))
            return self.log[-1][1]
        if math.factorial(n) > self.limit:
            raise Inconclusive(f"permutation of {n} items")
        def dec(k):
            left, out = list(range(n)), []
            for m in range(n, 0, -1):
                k, r = divmod(k, m)
                out.append(left.pop(r))
            return tuple(out)
        return self._pick(key, math.factorial(n), dec)

    def select(self, key, n, k):
        if n == 0:
            raise ValueError("a cannot be empty unless no samples are taken")
        self.sorts.append("select")
        return self._pick(key, n ** k, lambda c: tuple((c // n ** j) % n for j in range(k)))

    def __enter__(self):
        R = jax.random
        me = self

        def permutation(key, x, axis=0, independent=False, **k):
            n = x if isinstance(x, int) else len(x)
            p = me.perm(key, n)
            return jnp.asarray(p, int) if isinstance(x, int) else jnp.asarray(np.asarray(x)[list(p)])

        def choice(key, a, shape=(), replace=True, p=None, axis=0, **kw):
            n = a if isinstance(a, int) else len(a)
            k = int(np.prod(shape)) if shape != () else 1
            if p is not None:
                raise Inconclusive("weighted choice")
            idx = me.select(key, n, k) if replace else me.perm(key, n)[:k]
            idx = np.asarray(idx, int).reshape(shape)
            return jnp.asarray(idx if isinstance(a, int) else np.asarray(a)[idx])

        def randint(key, shape, minval, maxval, *r, **kw):
            k = int(np.prod(shape)) if shape != () else 1
            return jnp.asarray(me.select(key, int(maxval) - int(minval), k), int).reshape(shape) + int(minval)

        def ranks(key, shape=(), *r, **kw):
            if len(shape) != 1:
                raise Inconclusive(f"draw of shape {shape}")
            return jnp.asarray([(x + 0.5) / shape[0] for x in me.perm(key, shape[0])])
        self.p = patched((R, "permutation", permutation), (R, "choice", choice), (R, "randint", randint), (R, "uniform", ranks), (R, "normal", ranks), (R, "bits", lambda *a, **k: ranks(*a, **k)))
        self.p.__enter__()
        return self

    def __exit__(self, *a): self.p.__exit__()
