"""Symbolic interpreter for JAX programs.

`trace(f, *args)` asks JAX for the jaxpr of the *real* function (regenerated on every run), and
`Interp` executes that jaxpr on arrays whose elements are either concrete numbers or z3 terms.
float32/float64 are interpreted as exact reals, int32 as mathematical integers, random draws and
exp/sqrt as arbitrary values constrained by their contracts.  `ConcreteRun` executes the same
jaxpr with JAX's own kernels (for replaying counterexamples with given random draws).
"""
from __future__ import annotations
import itertools, math, time
from fractions import Fraction
import numpy as np
import jax, jax.numpy as jnp
from jax.extend import core as jex_core
try:
    from jax._src import core as jcore
except Exception:                                            # pragma: no cover
    jcore = jex_core
import z3
from .common import Inconclusive

INF = float("inf")


# ------------------------------------------------------------------ tag primitive
from jax.extend.core import Primitive
from jax.interpreters import mlir, batching
tag_p = Primitive("vtag")
tag_p.multiple_results = True
tag_p.def_impl(lambda *xs, **k: list(xs))
tag_p.def_abstract_eval(lambda *xs, **k: list(xs))
mlir.register_lowering(tag_p, lambda ctx, *xs, **k: list(xs))


def _tofront(args, dims):
    n = next(a.shape[d] for a, d in zip(args, dims) if d is not batching.not_mapped)
    return [jnp.broadcast_to(a, (n,) + a.shape) if d is batching.not_mapped else jnp.moveaxis(a, d, 0)
            for a, d in zip(args, dims)]


def _tag_batch(args, dims, **params):
    return tag_p.bind(*_tofront(args, dims), **{**params, "batched": params["batched"] + 1}), [0] * len(args)


batching.primitive_batchers[tag_p] = _tag_batch


def tag(label, names, arrays):
    return tag_p.bind(*arrays, label=label, names=tuple(names), batched=0)


# An opaque call: the result is arbitrary (fresh symbols) in the symbolic run, the real function in concrete runs.
opaque_p = Primitive("vopaque")
opaque_p.def_abstract_eval(lambda *xs, label, names, batched, shape, fn: jcore.ShapedArray(
    (tuple(xs[0].shape[:batched]) if batched else ()) + shape, np.dtype(np.float32)))


def _opaque_impl(*xs, label, names, batched, shape, fn):
    f = fn
    for _ in range(batched):
        f = jax.vmap(f)
    return jnp.asarray(f(*xs), jnp.float32)


opaque_p.def_impl(_opaque_impl)
mlir.register_lowering(opaque_p, mlir.lower_fun(_opaque_impl, multiple_results=False))
batching.primitive_batchers[opaque_p] = lambda args, dims, **p: (
    opaque_p.bind(*_tofront(args, dims), **{**p, "batched": p["batched"] + 1}), 0)


def opaque(label, names, arrays, shape, fn):
    return opaque_p.bind(*arrays, label=label, names=tuple(names), batched=0, shape=tuple(shape), fn=fn)


def trace(f, *args, **kw):
    return jax.make_jaxpr(f, **kw)(*args)


# ------------------------------------------------------------------ scalars
def is_z(x):
    return isinstance(x, z3.ExprRef)


def frac(x):
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    if isinstance(x, Fraction):
        return x
    x = float(x)
    if math.isinf(x) or math.isnan(x):
        return x
    return Fraction(x)


def toreal(x):
    if is_z(x):
        if x.sort() == z3.RealSort():
            return x
        if x.sort() == z3.IntSort():
            return z3.ToReal(x)
        return z3.If(x, z3.RealVal(1), z3.RealVal(0))
    x = frac(x)
    if isinstance(x, float):
        raise Inconclusive(f"non-finite constant {x} reached the solver")
    return z3.RealVal(x)


def toint(x):
    if is_z(x):
        if x.sort() == z3.IntSort():
            return x
        if x.sort() == z3.BoolSort():
            return z3.If(x, z3.IntVal(1), z3.IntVal(0))
        raise Inconclusive("real used as int")
    return z3.IntVal(int(x))


def tobool(x):
    if is_z(x):
        return x
    return z3.BoolVal(bool(x))


def lift2(a, b):
    """both to a common z3 sort"""
    if is_z(a) and is_z(b) and a.sort() == b.sort():
        return a, b
    if (is_z(a) and a.sort() == z3.RealSort()) or (is_z(b) and b.sort() == z3.RealSort()) \
            or isinstance(a, Fraction) or isinstance(b, Fraction):
        return toreal(a), toreal(b)
    return toint(a), toint(b)


def isnum(x, v):
    return (not is_z(x)) and not isinstance(x, KeyTerm) and x == v


def s_add(a, b):
    if not is_z(a) and not is_z(b):
        return a + b
    if isnum(a, 0):
        return b
    if isnum(b, 0):
        return a
    a, b = lift2(a, b)
    return a + b


def s_neg(a):
    return -a


def s_sub(a, b):
    if not is_z(a) and not is_z(b):
        return a - b
    if isnum(b, 0):
        return a
    if is_z(a) and is_z(b) and a.eq(b):
        return 0 if a.sort() == z3.IntSort() else Fraction(0)
    a, b = lift2(a, b)
    return a - b


def s_mul(a, b):
    if not is_z(a) and not is_z(b):
        return a * b
    if isnum(a, 0) or isnum(b, 0):
        real = (is_z(a) and a.sort() == z3.RealSort()) or (is_z(b) and b.sort() == z3.RealSort())
        return Fraction(0) if real else 0
    if isnum(a, 1):
        return b
    if isnum(b, 1):
        return a
    # products with a 0/1 indicator stay linear
    for p, q in ((a, b), (b, a)):
        ind = _indicator(p)
        if ind is not None:
            q2 = q
            z = toreal(0) if (not is_z(q2) and isinstance(q2, Fraction)) or (is_z(q2) and q2.sort() == z3.RealSort()) else toint(0)
            return s_ite(ind, q2, Fraction(0) if z.sort() == z3.RealSort() else 0)
    a, b = lift2(a, b)
    return a * b


def _indicator(x):
    """If(c,1,0) -> c"""
    if is_z(x) and z3.is_app_of(x, z3.Z3_OP_ITE):
        t, e = x.arg(1), x.arg(2)
        if (z3.is_int_value(t) or z3.is_rational_value(t)) and (z3.is_int_value(e) or z3.is_rational_value(e)):
            if _val(t) == 1 and _val(e) == 0:
                return x.arg(0)
    if is_z(x) and z3.is_app_of(x, z3.Z3_OP_TO_REAL):
        return _indicator(x.arg(0))
    return None


def _val(t):
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return t.as_fraction()
    return None


def s_div(a, b):
    if not is_z(a) and not is_z(b):
        if b == 0:
            if a == 0:
                raise Inconclusive("0/0")
            return INF if a > 0 else -INF
        return frac(a) / frac(b)
    if not is_z(b):
        if b == 1:
            return a
        if isinstance(b, float):
            return Fraction(0)
        return toreal(a) * z3.RealVal(1 / frac(b))
    if isnum(a, 0):
        return Fraction(0)
    return toreal(a) / toreal(b)


def s_ite(c, a, b):
    if not is_z(c):
        return a if c else b
    if not is_z(a) and not is_z(b) and not isinstance(a, KeyTerm) and not isinstance(b, KeyTerm):
        if a == b and type(a) == type(b):
            return a
    if is_z(a) and is_z(b) and a.eq(b):
        return a
    if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)) or (is_z(a) and a.sort() == z3.BoolSort()):
        return z3.If(c, tobool(a), tobool(b))
    a, b = lift2(a, b)
    return z3.If(c, a, b)


def _cmp(op):
    def f(a, b):
        if isinstance(a, KeyTerm) or isinstance(b, KeyTerm):
            raise Inconclusive("comparison of random keys")
        if not is_z(a) and not is_z(b):
            return bool(op(a, b))
        if isinstance(a, float) and not isinstance(a, bool) or isinstance(b, float):
            # infinities against finite symbolic values
            fa = a if not is_z(a) else 0
            fb = b if not is_z(b) else 0
            return bool(op(fa, fb))
        if (is_z(a) and a.sort() == z3.BoolSort()) or (is_z(b) and b.sort() == z3.BoolSort()):
            return op(toint(a), toint(b)) if False else op(tobool(a), tobool(b))
        a, b = lift2(a, b)
        return op(a, b)
    return f


import operator as _op
s_lt, s_le, s_gt, s_ge = _cmp(_op.lt), _cmp(_op.le), _cmp(_op.gt), _cmp(_op.ge)
s_eq, s_ne = _cmp(_op.eq), _cmp(_op.ne)


def s_and(a, b):
    if not is_z(a) and isinstance(a, (bool, np.bool_)):
        return b if a else False
    if not is_z(b) and isinstance(b, (bool, np.bool_)):
        return a if b else False
    if not is_z(a) and not is_z(b):
        return a & b
    return z3.And(a, b)


def s_or(a, b):
    if not is_z(a) and isinstance(a, (bool, np.bool_)):
        return True if a else b
    if not is_z(b) and isinstance(b, (bool, np.bool_)):
        return True if b else a
    if not is_z(a) and not is_z(b):
        return a | b
    return z3.Or(a, b)


def s_not(a):
    if is_z(a):
        return z3.Not(a)
    if isinstance(a, (bool, np.bool_)):
        return not a
    return ~a


def s_max(a, b):
    if not is_z(a) and not is_z(b):
        return max(a, b)
    if isinstance(a, float):
        return b if a < 0 else a
    if isinstance(b, float):
        return a if b < 0 else b
    return s_ite(s_ge(a, b), a, b)


def s_min(a, b):
    if not is_z(a) and not is_z(b):
        return min(a, b)
    if isinstance(a, float):
        return b if a > 0 else a
    if isinstance(b, float):
        return a if b > 0 else b
    return s_ite(s_le(a, b), a, b)


# ------------------------------------------------------------------ keys
class KeyTerm:
    """A random key as a term: root name | child(k, i).  split(k, n)[i] and fold_in(k, i) are the same key in JAX's
    default (partitionable) threefry, so both are child(k, i).  Derivation is modelled as injective (collision free)."""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, KeyTerm) and self.t == o.t

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        def r(t):
            if t[0] == "root":
                return t[1]
            return f"{r(t[1])}.{t[2]}"
        return r(self.t)


class KeyWord:
    """one uint32 word of a raw key"""
    __slots__ = ("k", "w")

    def __init__(self, k, w):
        self.k, self.w = k, w

    def __eq__(self, o):
        return isinstance(o, KeyWord) and self.k == o.k and self.w == o.w

    def __hash__(self):
        return hash((self.k, self.w))


def raw_key(name):
    k = KeyTerm(("root", name))
    return np.array([KeyWord(k, 0), KeyWord(k, 1)], dtype=object)


# ------------------------------------------------------------------ arrays
def oarr(shape, fill=None):
    a = np.empty(shape, dtype=object)
    if fill is not None:
        a[...] = fill
    return a


def concrete_to_o(x):
    x = np.asarray(x)
    out = oarr(x.shape)
    fl = np.issubdtype(x.dtype, np.floating) or x.dtype.name == "bfloat16"
    it = np.nditer(x, flags=["multi_index", "zerosize_ok"]) if x.size else []
    for _ in it:
        v = x[it.multi_index]
        if x.dtype == bool:
            out[it.multi_index] = bool(v)
        elif fl:
            out[it.multi_index] = frac(v)
        else:
            out[it.multi_index] = int(v)
    return out


def sym_array(name, shape, sort="Real"):
    out = oarr(shape)
    mk = {"Real": z3.Real, "Int": z3.Int, "Bool": z3.Bool}[sort]
    for idx in np.ndindex(*shape):
        out[idx] = mk(name + "".join(f"_{i}" for i in idx))
    return out


def vec(f, *arrs):
    arrs = np.broadcast_arrays(*[np.asarray(a, dtype=object) if not isinstance(a, np.ndarray) else a for a in arrs], subok=False) \
        if len(arrs) > 1 else [np.asarray(arrs[0], dtype=object)]
    out = oarr(arrs[0].shape)
    for idx in np.ndindex(*arrs[0].shape):
        out[idx] = f(*[a[idx] for a in arrs])
    return out


def isfloat(aval):
    return jnp.issubdtype(aval.dtype, jnp.floating)


# ------------------------------------------------------------------ interpreter
class Interp:
    def __init__(self, ck=None, assume=(), max_loop=600, resolve=True):
        self.assume = list(assume)      # hypotheses usable to fix integer values
        self.side = []                  # contract constraints of UFs and draws
        self.draws = []                 # dicts: kind,key,shape,sym array,params
        self.tags = []                  # (label, {name: array})
        self.max_loop = max_loop
        self.resolve = resolve
        self.split = False
        self.ck = ck
        self.nfresh = 0
        self.exp_tab = {}
        self.sqrt_tab = {}
        self.draw_hook = None           # optional: (kind, key, shape, params) -> object array
        self.prims = set()
        self._s = None
        self.key_uses = []              # (key, what)
        self.nondet_keys = []
        self.sym_index = {}
        self.opaques = []               # (label, {name: array}, output)

    # -- helpers
    def fresh(self, base, sort="Real"):
        self.nfresh += 1
        return {"Real": z3.Real, "Int": z3.Int, "Bool": z3.Bool}[sort](f"{base}!{self.nfresh}")

    def constraints(self):
        return self.assume + self.side

    def _solver(self):
        if self._s is None:
            self._s = z3.Solver()
            self._s.set("timeout", 20000)
            self._n = 0
            self._s.add(*self.assume)
        while self._n < len(self.side):
            self._s.add(self.side[self._n])
            self._n += 1
        return self._s

    def fix(self, e):
        """If the hypotheses force a unique value for integer term e, return that value (solver-decided)."""
        if not is_z(e) or not self.resolve:
            return e
        v = z3.simplify(e)
        if z3.is_int_value(v):
            return v.as_long()
        if not self.assume:
            return e
        s = self._solver()
        t = time.time()
        s.push()
        r = s.check()
        if r != z3.sat:
            s.pop()
            return e
        c = s.model().eval(e, model_completion=True)
        s.add(e != c)
        r2 = s.check()
        s.pop()
        if self.ck is not None:
            self.ck.note_query("index-resolution", time.time() - t, "unsat" if r2 == z3.unsat else ("sat" if r2 == z3.sat else "unknown"))
        if r2 == z3.unsat and z3.is_int_value(c):
            return c.as_long()
        if self.split and r2 == z3.sat and z3.is_int_value(c):
            raise Split([e == c, e != c])
        return e

    def entails(self, b):
        """Under the hypotheses, is Boolean b forced?  True/False/None."""
        if not is_z(b):
            return bool(b)
        v = z3.simplify(b)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        if not self.assume or not self.resolve:
            return None
        s = self._solver()
        t = time.time()
        s.push(); s.add(z3.Not(b)); r1 = s.check(); s.pop()
        out = None
        if r1 == z3.unsat:
            out = True
        else:
            s.push(); s.add(b); r2 = s.check(); s.pop()
            if r2 == z3.unsat:
                out = False
        if self.ck is not None:
            self.ck.note_query("branch-resolution", time.time() - t, "unsat" if out is not None else "sat")
        return out

    # -- scalar functions with contracts
    def s_floor(self, x):
        if not is_z(x):
            return x if isinstance(x, float) else Fraction(math.floor(x))
        if z3.is_app_of(x, z3.Z3_OP_TO_REAL):
            return x
        r = self.fix(z3.ToInt(x))
        return Fraction(r) if not is_z(r) else z3.ToReal(r)

    def s_ceil(self, x):
        if not is_z(x):
            return x if isinstance(x, float) else Fraction(math.ceil(x))
        if z3.is_app_of(x, z3.Z3_OP_TO_REAL):
            return x
        r = self.fix(-z3.ToInt(-x))
        return Fraction(r) if not is_z(r) else z3.ToReal(r)

    def s_trunc_int(self, x):
        """real -> int32 conversion (toward zero)"""
        if not is_z(x):
            if isinstance(x, float):
                raise Inconclusive("inf to int")
            return math.trunc(x)
        if z3.is_app_of(x, z3.Z3_OP_TO_REAL):
            return x.arg(0)
        if z3.is_app_of(x, z3.Z3_OP_ITE):          # conversions distribute over case splits
            return s_ite(x.arg(0), self.s_trunc_int(self._unval(x.arg(1))), self.s_trunc_int(self._unval(x.arg(2))))
        return self.fix(z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x)))

    def s_round_even(self, x):
        if not is_z(x):
            return Fraction(round(x))
        fl = z3.ToInt(x)
        d = x - z3.ToReal(fl)
        r = z3.If(d < z3.RealVal("1/2"), fl, z3.If(d > z3.RealVal("1/2"), fl + 1, z3.If(fl % 2 == 0, fl, fl + 1)))
        r = self.fix(r)
        return Fraction(r) if not is_z(r) else z3.ToReal(r)

    @staticmethod
    def _unval(e):
        v = _val(e)
        return Fraction(v) if v is not None and e.sort() == z3.RealSort() else (v if v is not None else e)

    def s_exp(self, x):
        if not is_z(x):
            if x == 0:
                return Fraction(1)
            if isinstance(x, float):
                return Fraction(0) if x < 0 else INF
            xs = z3.RealVal(frac(x))
        else:
            xs = z3.simplify(x, som=True)
            v = _val(xs)
            if v is not None and v == 0:
                return Fraction(1)
        k = xs.sexpr()
        if k not in self.exp_tab:
            e = self.fresh("exp")
            self.exp_tab[k] = (xs, e)
            self.side.append(e > 0)
            self.side.append(z3.Implies(xs <= 0, e <= 1))
            self.side.append(z3.Implies(xs == 0, e == 1))
            self.side.append(z3.Implies(xs < 0, e < 1))
        return self.exp_tab[k][1]

    def s_sqrt(self, x):
        if not is_z(x):
            x = frac(x)
            if x < 0:
                raise Inconclusive("sqrt of negative constant")
            n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
            if n * n == x.numerator and d * d == x.denominator:
                return Fraction(n, d)
            xs = z3.RealVal(x)
        else:
            xs = x
        k = z3.simplify(xs, som=True).sexpr()
        if k not in self.sqrt_tab:
            e = self.fresh("sqrt")
            self.sqrt_tab[k] = e
            self.side += [z3.Implies(xs >= 0, z3.And(e >= 0, e * e == xs)), z3.Implies(xs > 0, e > 0)]
        return self.sqrt_tab[k]

    def s_intpow(self, x, n):
        if n < 0:
            return s_div(Fraction(1), self.s_intpow(x, -n))
        r = Fraction(1) if not (is_z(x) and x.sort() == z3.IntSort()) and not isinstance(x, int) else 1
        for _ in range(n):
            r = s_mul(r, x)
        return r

    # -- draws
    def draw(self, kind, key, shape, params):
        self.key_uses.append((key, kind, shape))
        if self.draw_hook is not None:
            r = self.draw_hook(self, kind, key, shape, params)
            if r is not None:
                self.draws.append(dict(kind=kind, key=key, shape=shape, sym=r, params=params))
                return r
        n = len(self.draws)
        if kind == "randint":
            a = sym_array(f"ri{n}", shape, "Int")
            lo, hi = np.broadcast_to(params["lo"], shape), np.broadcast_to(params["hi"], shape)
            for i in np.ndindex(*shape):
                self.side += [tobool(s_ge(a[i], lo[i])), tobool(s_lt(a[i], hi[i]))]
        elif kind == "uniform":
            a = sym_array(f"u{n}", shape)
            lo, hi = np.broadcast_to(params["lo"], shape), np.broadcast_to(params["hi"], shape)
            for i in np.ndindex(*shape):
                # contract of jax.random.uniform: [lo, hi) for lo < hi, and lo when hi <= lo
                l, h, v = toreal(lo[i]), toreal(hi[i]), a[i]
                self.side.append(z3.If(l < h, z3.And(v >= l, v < h), v == l))
        elif kind == "normal":
            a = sym_array(f"n{n}", shape)
        elif kind == "bits":
            a = sym_array(f"b{n}", shape, "Int")
            for i in np.ndindex(*shape):
                self.side += [a[i] >= 0, a[i] < 2 ** 32]
        elif kind == "perm":
            a = params["arr"]
            raise Inconclusive("permutation draw")
        else:
            raise Inconclusive(f"unknown draw {kind}")
        self.draws.append(dict(kind=kind, key=key, shape=shape, sym=a, params=params))
        return a

    # -- jaxpr evaluation
    def run(self, closed, args):
        return self.eval_jaxpr(closed.jaxpr, closed.consts, args)

    def eval_jaxpr(self, jaxpr, consts, args):
        env = {}

        def read(v):
            if isinstance(v, jcore.Literal):
                return concrete_to_o(np.asarray(v.val, dtype=v.aval.dtype) if isinstance(v.val, float) else v.val)
            return env[v]
        for v, c in zip(jaxpr.constvars, consts):
            env[v] = c if isinstance(c, np.ndarray) and c.dtype == object else concrete_to_o(c)
        assert len(jaxpr.invars) == len(args), (len(jaxpr.invars), len(args))
        for v, a in zip(jaxpr.invars, args):
            if not (isinstance(a, np.ndarray) and a.dtype == object):
                a = concrete_to_o(a)
            assert a.shape == v.aval.shape, (a.shape, v.aval.shape)
            env[v] = a
        for eqn in jaxpr.eqns:
            ins = [read(v) for v in eqn.invars]
            outs = self.eval_eqn(eqn, ins)
            for v, o in zip(eqn.outvars, outs):
                if type(v).__name__ == "DropVar":
                    continue
                if o.shape != tuple(v.aval.shape):
                    raise Inconclusive(f"{eqn.primitive.name}: shape {o.shape} vs {v.aval.shape}")
                env[v] = o
        return [read(v) for v in jaxpr.outvars]

    def eval_eqn(self, eqn, ins):
        name = eqn.primitive.name
        self.prims.add(name)
        p = eqn.params
        f = getattr(self, "p_" + name.replace("-", "_"), None)
        if f is None:
            raise Inconclusive(f"primitive {name} is not encoded")
        out = f(eqn, ins, p)
        return out if isinstance(out, list) else [out]

    # elementwise
    def p_add(self, e, i, p): return vec(s_add, *i)
    p_add_any = p_add
    def p_sub(self, e, i, p): return vec(s_sub, *i)
    def p_mul(self, e, i, p): return vec(s_mul, *i)
    def p_neg(self, e, i, p): return vec(s_neg, *i)

    def p_div(self, e, i, p):
        if isfloat(e.outvars[0].aval):
            return vec(s_div, *i)

        def idiv(a, b):
            if not is_z(a) and not is_z(b):
                q = abs(a) // abs(b)
                return q if (a >= 0) == (b >= 0) else -q
            if not is_z(b) and b > 0:
                return self.fix(z3.If(a >= 0, a / b, -((-a) / b)))
            raise Inconclusive("integer division by a symbol")
        return vec(idiv, *i)

    def p_rem(self, e, i, p):
        def f(a, b):
            if not is_z(a) and not is_z(b):
                if isinstance(a, Fraction) or isinstance(b, Fraction):
                    return frac(a) - frac(b) * math.trunc(frac(a) / frac(b))
                return int(math.fmod(a, b))
            if not is_z(b) and b > 0 and a.sort() == z3.IntSort():
                return self.fix(z3.If(a >= 0, a % b, -((-a) % b)))
            raise Inconclusive("rem")
        return vec(f, *i)

    def p_max(self, e, i, p): return vec(s_max, *i)
    def p_min(self, e, i, p): return vec(s_min, *i)
    def p_floor(self, e, i, p): return vec(self.s_floor, *i)
    def p_ceil(self, e, i, p): return vec(self.s_ceil, *i)

    def p_round(self, e, i, p):
        return vec(self.s_round_even, *i)

    def p_abs(self, e, i, p):
        return vec(lambda x: abs(x) if not is_z(x) else z3.If(x >= 0, x, -x), *i)

    def p_sign(self, e, i, p):
        def f(x):
            if not is_z(x):
                return type(x)((x > 0) - (x < 0)) if not isinstance(x, float) else Fraction(int(x > 0) - int(x < 0))
            o = z3.RealVal if x.sort() == z3.RealSort() else z3.IntVal
            return z3.If(x > 0, o(1), z3.If(x < 0, o(-1), o(0)))
        return vec(f, *i)

    def p_exp(self, e, i, p): return vec(self.s_exp, *i)
    def p_sqrt(self, e, i, p): return vec(self.s_sqrt, *i)
    def p_rsqrt(self, e, i, p): return vec(lambda x: s_div(Fraction(1), self.s_sqrt(x)), *i)
    def p_integer_pow(self, e, i, p): return vec(lambda x: self.s_intpow(x, p["y"]), *i)
    def p_square(self, e, i, p): return vec(lambda x: self.s_intpow(x, 2), *i)

    def p_pow(self, e, i, p):
        def f(a, b):
            if not is_z(b) and frac(b).denominator == 1:
                return self.s_intpow(a, int(b))
            if not is_z(b) and frac(b) == Fraction(1, 2):
                return self.s_sqrt(a)
            raise Inconclusive("pow")
        return vec(f, *i)

    def p_lt(self, e, i, p): return vec(s_lt, *i)
    def p_le(self, e, i, p): return vec(s_le, *i)
    def p_gt(self, e, i, p): return vec(s_gt, *i)
    def p_ge(self, e, i, p): return vec(s_ge, *i)
    def p_eq(self, e, i, p): return vec(s_eq, *i)
    def p_ne(self, e, i, p): return vec(s_ne, *i)
    def p_and(self, e, i, p): return vec(s_and, *i)
    def p_or(self, e, i, p): return vec(s_or, *i)
    def p_not(self, e, i, p): return vec(s_not, *i)
    def p_xor(self, e, i, p): return vec(lambda a, b: (a != b) if not is_z(a) and not is_z(b) else z3.Xor(tobool(a), tobool(b)), *i)
    def p_is_finite(self, e, i, p): return vec(lambda x: True if is_z(x) else not isinstance(x, float), *i)
    def p_stop_gradient(self, e, i, p): return i[0]
    def p_copy(self, e, i, p): return i[0]
    p_copy_p = p_copy
    p_optimization_barrier = lambda self, e, i, p: list(i)
    p_device_put = lambda self, e, i, p: list(i)

    def p_clamp(self, e, i, p):
        lo, x, hi = np.broadcast_arrays(*i)
        return vec(lambda l, v, h: s_min(s_max(v, l), h), lo, x, hi)

    def p_select_n(self, e, i, p):
        c = i[0]
        cases = i[1:]
        if c.shape == () and cases[0].shape != ():
            c = np.broadcast_to(c, cases[0].shape)

        def f(w, *vs):
            if not is_z(w):
                return vs[int(w)]
            if w.sort() == z3.BoolSort():
                return s_ite(w, vs[1], vs[0])
            r = vs[-1]
            for k in range(len(vs) - 2, -1, -1):
                r = s_ite(w == k, vs[k], r)
            return r
        return vec(f, c, *cases)

    def p_convert_element_type(self, e, i, p):
        new = np.dtype(p["new_dtype"]) if not hasattr(p["new_dtype"], "_rules") else p["new_dtype"]
        old = e.invars[0].aval.dtype

        def f(x):
            if isinstance(x, (KeyWord, KeyTerm)):
                return x
            if jnp.issubdtype(new, jnp.floating):
                if is_z(x):
                    return toreal(x) if x.sort() != z3.BoolSort() else z3.If(x, z3.RealVal(1), z3.RealVal(0))
                return frac(x)
            if new == np.dtype(bool):
                return s_ne(x, 0) if not (is_z(x) and x.sort() == z3.BoolSort()) and not isinstance(x, bool) else x
            # integer targets
            if is_z(x):
                if x.sort() == z3.BoolSort():
                    return z3.If(x, z3.IntVal(1), z3.IntVal(0))
                if x.sort() == z3.RealSort():
                    return self.s_trunc_int(x)
                return x
            if isinstance(x, bool):
                return int(x)
            return math.trunc(x)
        return vec(f, *i)

    # structural
    def p_broadcast_in_dim(self, e, i, p):
        x = i[0]
        shape, bd = p["shape"], p["broadcast_dimensions"]
        idx = [1] * len(shape)
        for k, d in enumerate(bd):
            idx[d] = x.shape[k]
        return np.array(np.broadcast_to(x.reshape(idx), shape), dtype=object)

    def p_reshape(self, e, i, p):
        return i[0].reshape(p["new_sizes"])

    def p_squeeze(self, e, i, p):
        return np.squeeze(i[0], axis=tuple(p["dimensions"])) if i[0].shape != () else i[0]

    def p_expand_dims(self, e, i, p):
        return np.expand_dims(i[0], tuple(p["dimensions"]))

    def p_transpose(self, e, i, p):
        return np.transpose(i[0], p["permutation"])

    def p_rev(self, e, i, p):
        return np.flip(i[0], tuple(p["dimensions"]))

    def p_concatenate(self, e, i, p):
        return np.concatenate(i, axis=p["dimension"])

    def p_split(self, e, i, p):
        return list(np.split(i[0], np.cumsum(p["sizes"])[:-1], axis=p["axis"]))

    def p_slice(self, e, i, p):
        st = p["strides"] or [1] * i[0].ndim
        return i[0][tuple(slice(a, b, s) for a, b, s in zip(p["start_indices"], p["limit_indices"], st))]

    def p_iota(self, e, i, p):
        shape, d = p["shape"], p["dimension"]
        out = oarr(shape)
        fl = jnp.issubdtype(p["dtype"], jnp.floating)
        for idx in np.ndindex(*shape):
            out[idx] = Fraction(idx[d]) if fl else idx[d]
        return out

    def p_pad(self, e, i, p):
        x, v = i
        cfg = p["padding_config"]
        shape = e.outvars[0].aval.shape
        out = oarr(shape)
        out[...] = v[()]
        for idx in np.ndindex(*x.shape):
            o = tuple(lo + k * (it + 1) for k, (lo, hi, it) in zip(idx, cfg))
            if all(0 <= a < s for a, s in zip(o, shape)):
                out[o] = x[idx]
        return out

    def _dyn_start(self, starts, dims, sizes):
        out = []
        for s, d, z in zip(starts, dims, sizes):
            s = s[()]
            s = s_min(s_max(s, 0), d - z)
            out.append(self.fix(s))
        return out

    def p_dynamic_slice(self, e, i, p):
        x, starts = i[0], i[1:]
        sizes = p["slice_sizes"]
        st = self._dyn_start(starts, x.shape, sizes)
        out = oarr(sizes)
        for idx in np.ndindex(*sizes):
            out[idx] = self._pick(x, [s_add(a, b) for a, b in zip(st, idx)])
        return out

    def p_dynamic_update_slice(self, e, i, p):
        x, u, starts = i[0], i[1], i[2:]
        st = self._dyn_start(starts, x.shape, u.shape)
        out = x.copy()
        for idx in np.ndindex(*u.shape):
            tgt = [s_add(a, b) for a, b in zip(st, idx)]
            if all(not is_z(t) for t in tgt):
                out[tuple(tgt)] = u[idx]
            else:
                for o in np.ndindex(*x.shape):
                    c = True
                    for t, k in zip(tgt, o):
                        c = s_and(c, s_eq(t, k))
                    out[o] = s_ite(c, u[idx], out[o])
        return out

    def _pick(self, x, index):
        """x[index] where components may be symbolic (assumed/clamped in range)"""
        if not index:
            return x[()] if isinstance(x, np.ndarray) else x
        h, rest = index[0], index[1:]
        if not is_z(h):
            return self._pick(x[int(h)], rest)
        r = self._pick(x[x.shape[0] - 1], rest)
        for k in range(x.shape[0] - 2, -1, -1):
            v = self._pick(x[k], rest)
            if isinstance(v, (KeyTerm, KeyWord)):
                raise Inconclusive("symbolic key selection")
            r = s_ite(h == k, v, r)
        return r

    def p_gather(self, e, i, p):
        x, ind = i
        dn = p["dimension_numbers"]
        sizes = p["slice_sizes"]
        mode = str(p["mode"])
        out_shape = e.outvars[0].aval.shape
        out = oarr(out_shape)
        obd = tuple(getattr(dn, "operand_batching_dims", ()) or ())
        sbd = tuple(getattr(dn, "start_indices_batching_dims", ()) or ())
        batch_dims = [d for d in range(len(out_shape)) if d not in dn.offset_dims]
        window_dims = [d for d in range(x.ndim) if d not in dn.collapsed_slice_dims and d not in obd]
        fill = p.get("fill_value")
        cache = {}
        for o in np.ndindex(*out_shape):
            b = tuple(o[d] for d in batch_dims)
            if b not in cache:
                sv = ind[b]
                start = [0] * x.ndim
                ok = True
                for k, d in enumerate(dn.start_index_map):
                    v = self.fix(sv[k]) if is_z(sv[k]) else sv[k]
                    if "FILL" in mode.upper():
                        ok = s_and(ok, s_and(s_ge(v, 0), s_le(v, x.shape[d] - sizes[d])))
                    v = s_min(s_max(v, 0), x.shape[d] - sizes[d])
                    start[d] = self.fix(v) if is_z(v) else v
                for k, d in enumerate(obd):
                    start[d] = b[sbd[k]]
                cache[b] = (start, ok)
            start, ok = cache[b]
            idx = list(start)
            for od, wd in zip(dn.offset_dims, window_dims):
                idx[wd] = s_add(idx[wd], o[od])
            v = self._pick(x, idx)
            if ok is not True:
                if fill is None:
                    if isfloat(e.outvars[0].aval):
                        fv = self.fresh("nan")
                    else:
                        fv = self.fresh("fillint", "Int")
                else:
                    fv = frac(fill) if isfloat(e.outvars[0].aval) else int(fill)
                v = s_ite(ok, v, fv)
            out[o] = v
        return out

    def _scatter(self, e, i, p, comb):
        x, ind, upd = i
        dn = p["dimension_numbers"]
        mode = str(p["mode"]).upper()
        out = x.copy()
        obd = tuple(getattr(dn, "operand_batching_dims", ()) or ())
        sbd = tuple(getattr(dn, "scatter_indices_batching_dims", ()) or ())
        scatter_dims = [d for d in range(upd.ndim) if d not in dn.update_window_dims]
        window_dims = [d for d in range(x.ndim) if d not in dn.inserted_window_dims and d not in obd]
        wsize = {wd: upd.shape[ud] for wd, ud in zip(window_dims, dn.update_window_dims)}
        cache = {}
        for u in np.ndindex(*upd.shape):
            b = tuple(u[d] for d in scatter_dims)
            if b not in cache:
                sv = ind[b]
                start = [0] * x.ndim
                ok = True
                for k, d in enumerate(dn.scatter_dims_to_operand_dims):
                    v = self.fix(sv[k]) if is_z(sv[k]) else sv[k]
                    w = wsize.get(d, 1)
                    if "CLIP" in mode:
                        v = s_min(s_max(v, 0), x.shape[d] - w)
                        v = self.fix(v) if is_z(v) else v
                    else:        # FILL_OR_DROP / PROMISE_IN_BOUNDS: XLA drops out-of-bounds windows
                        ok = s_and(ok, s_and(s_ge(v, 0), s_le(v, x.shape[d] - w)))
                    start[d] = v
                for k, d in enumerate(obd):
                    start[d] = b[sbd[k]]
                if is_z(ok):
                    r = self.entails(ok)
                    ok = ok if r is None else r
                cache[b] = (start, ok)
            start, ok = cache[b]
            if ok is False:
                continue
            idx = list(start)
            for ud, wd in zip(dn.update_window_dims, window_dims):
                idx[wd] = s_add(idx[wd], u[ud])
            uv = upd[u]
            if all(not is_z(t) for t in idx):
                o = tuple(int(t) for t in idx)
                out[o] = s_ite(ok, comb(out[o], uv), out[o])
            else:
                for o in np.ndindex(*x.shape):
                    c = ok
                    for t, k in zip(idx, o):
                        c = s_and(c, s_eq(t, k))
                        if c is False:
                            break
                    if c is not False:
                        out[o] = s_ite(c, comb(out[o], uv), out[o])
        return out

    def p_scatter(self, e, i, p): return self._scatter(e, i, p, lambda a, b: b)
    def p_scatter_add(self, e, i, p): return self._scatter(e, i, p, s_add)
    def p_scatter_mul(self, e, i, p): return self._scatter(e, i, p, s_mul)
    def p_scatter_max(self, e, i, p): return self._scatter(e, i, p, s_max)
    def p_scatter_min(self, e, i, p): return self._scatter(e, i, p, s_min)
    def p_scatter_sub(self, e, i, p): return self._scatter(e, i, p, s_sub)

    # reductions
    def _reduce(self, x, axes, f, init):
        keep = [d for d in range(x.ndim) if d not in axes]
        out = oarr([x.shape[d] for d in keep])
        for o in np.ndindex(*out.shape):
            sl = [slice(None)] * x.ndim
            for d, k in zip(keep, o):
                sl[d] = k
            r = None
            for v in x[tuple(sl)].reshape(-1) if keep != list(range(x.ndim)) else [x[o]]:
                r = v if r is None else f(r, v)
            out[o] = init if r is None else r
        return out

    def p_reduce_sum(self, e, i, p):
        return self._reduce(i[0], p["axes"], s_add, Fraction(0) if isfloat(e.outvars[0].aval) else 0)

    def p_reduce_max(self, e, i, p): return self._reduce(i[0], p["axes"], s_max, -INF)
    def p_reduce_min(self, e, i, p): return self._reduce(i[0], p["axes"], s_min, INF)
    def p_reduce_prod(self, e, i, p): return self._reduce(i[0], p["axes"], s_mul, 1)
    def p_reduce_and(self, e, i, p): return self._reduce(i[0], p["axes"], s_and, True)
    def p_reduce_or(self, e, i, p): return self._reduce(i[0], p["axes"], s_or, False)

    def p_argmax(self, e, i, p):
        return self._arg(i[0], p["axes"][0], s_gt)

    def p_argmin(self, e, i, p):
        return self._arg(i[0], p["axes"][0], s_lt)

    def _arg(self, x, ax, better):
        x = np.moveaxis(x, ax, -1)
        out = oarr(x.shape[:-1])
        for o in np.ndindex(*out.shape):
            bi, bv = 0, x[o][0]
            for k in range(1, x.shape[-1]):
                c = better(x[o][k], bv)
                bi, bv = s_ite(c, k, bi), s_ite(c, x[o][k], bv)
            out[o] = bi
        return out

    def _cum(self, i, p, f):
        x = np.moveaxis(i[0], p["axis"], 0)
        if p.get("reverse"):
            x = x[::-1]
        out = oarr(x.shape)
        acc = None
        for k in range(x.shape[0]):
            acc = x[k] if acc is None else vec(f, acc, x[k])
            if isinstance(acc, np.ndarray) and acc.shape == ():
                acc = acc[()]
            out[k] = acc
        if p.get("reverse"):
            out = out[::-1]
        return np.moveaxis(out, 0, p["axis"])

    def p_cumsum(self, e, i, p): return self._cum(i, p, s_add)
    def p_cummax(self, e, i, p): return self._cum(i, p, s_max)
    def p_cummin(self, e, i, p): return self._cum(i, p, s_min)
    def p_cumprod(self, e, i, p): return self._cum(i, p, s_mul)

    def p_dot_general(self, e, i, p):
        a, b = i
        (ca, cb), (ba, bb) = p["dimension_numbers"]
        fa = [d for d in range(a.ndim) if d not in ca and d not in ba]
        fb = [d for d in range(b.ndim) if d not in cb and d not in bb]
        out = oarr(e.outvars[0].aval.shape)
        cs = [a.shape[d] for d in ca]
        for o in np.ndindex(*out.shape):
            nb = len(ba)
            ia, ib = [0] * a.ndim, [0] * b.ndim
            for k, (x, y) in enumerate(zip(ba, bb)):
                ia[x] = ib[y] = o[k]
            for k, d in enumerate(fa):
                ia[d] = o[nb + k]
            for k, d in enumerate(fb):
                ib[d] = o[nb + len(fa) + k]
            r = Fraction(0) if isfloat(e.outvars[0].aval) else 0
            for c in np.ndindex(*cs):
                for k, (x, y) in enumerate(zip(ca, cb)):
                    ia[x] = ib[y] = c[k]
                r = s_add(r, s_mul(a[tuple(ia)], b[tuple(ib)]))
            out[o] = r
        return out

    def p_sort(self, e, i, p):
        d = p["dimension"]
        nk = p["num_keys"]
        if i[0].ndim != 1:
            raise Inconclusive("sort of rank > 1")
        n = i[0].shape[0]
        cols = [list(a) for a in i]
        for a in range(n):                      # insertion/bubble network, stable
            for b in range(n - 1 - a):
                c = False
                eqp = True
                for k in range(nk):
                    c = s_or(c, s_and(eqp, s_gt(cols[k][b], cols[k][b + 1])))
                    eqp = s_and(eqp, s_eq(cols[k][b], cols[k][b + 1]))
                for col in cols:
                    x, y = col[b], col[b + 1]
                    col[b], col[b + 1] = s_ite(c, y, x), s_ite(c, x, y)
        out = []
        for col in cols:
            o = oarr((n,))
            for k, v in enumerate(col):
                o[k] = v
            out.append(o)
        return out

    # control flow / calls
    def _call(self, closed, ins):
        return self.eval_jaxpr(closed.jaxpr, closed.consts, ins)

    def p_jit(self, e, i, p):
        r = self._intercept(p.get("name", ""), e, i, p)
        if r is not None:
            return r
        return self._call(p["jaxpr"], i)
    p_pjit = p_jit
    p_closed_call = lambda self, e, i, p: self._call(p.get("call_jaxpr") or p["jaxpr"], i)
    p_core_call = p_closed_call
    def p_custom_jvp_call(self, e, i, p): return self._call(p["call_jaxpr"], i)
    def p_custom_vjp_call(self, e, i, p): return self._call(p.get("call_jaxpr") or p["fun_jaxpr"], i)
    p_custom_vjp_call_jaxpr = p_custom_vjp_call
    def p_checkpoint(self, e, i, p): return self.eval_jaxpr(p["jaxpr"], [], i)
    p_remat2 = p_checkpoint

    def p_cond(self, e, i, p):
        w = i[0][()]
        w = self.fix(w) if is_z(w) and w.sort() == z3.IntSort() else w
        if is_z(w) and w.sort() == z3.BoolSort():
            r = self.entails(w)
            w = int(r) if r is not None else w
        br = p["branches"]
        if not is_z(w):
            k = min(max(int(w), 0), len(br) - 1)
            return self._call(br[k], i[1:])
        outs = [self._call(b, i[1:]) for b in br]

        def sel(*vs):
            if w.sort() == z3.BoolSort():
                return s_ite(w, vs[1], vs[0])
            r = vs[-1]
            for k in range(len(vs) - 2, -1, -1):
                r = s_ite(w <= k if k == 0 else w == k, vs[k], r)
            return r
        return [vec(sel, *os) for os in zip(*outs)]

    def p_while(self, e, i, p):
        cn, bn = p["cond_nconsts"], p["body_nconsts"]
        cc, bc, st = i[:cn], i[cn:cn + bn], list(i[cn + bn:])
        for _ in range(self.max_loop):
            c = self._call(p["cond_jaxpr"], list(cc) + st)[0][()]
            if is_z(c):
                c = self.entails(c)
                if c is None:
                    raise Inconclusive("while loop with symbolic trip count")
            if not c:
                return st
            st = self._call(p["body_jaxpr"], list(bc) + st)
        raise Inconclusive("loop bound exceeded")

    def p_scan(self, e, i, p):
        nc, nk = p["num_consts"], p["num_carry"]
        consts, carry, xs = i[:nc], list(i[nc:nc + nk]), i[nc + nk:]
        n = p["length"]
        order = range(n - 1, -1, -1) if p["reverse"] else range(n)
        ys = [None] * n
        for k in order:
            out = self._call(p["jaxpr"], list(consts) + carry + [np.asarray(x[k], dtype=object) if not isinstance(x[k], np.ndarray) else x[k] for x in xs])
            carry, ys[k] = out[:nk], out[nk:]
        nout = len(e.outvars) - nk
        stacked = []
        for j in range(nout):
            shape = tuple(e.outvars[nk + j].aval.shape)
            o = oarr(shape)
            for k in range(n):
                o[k] = ys[k][j] if ys[k][j].shape != () else ys[k][j][()]
            stacked.append(o)
        return list(carry) + stacked

    def p_vtag(self, e, i, p):
        nb = p["batched"]
        for b in np.ndindex(*i[0].shape[:nb]):
            self.tags.append((p["label"], {n: a[b] for n, a in zip(p["names"], i)}))
        return list(i)

    def p_vopaque(self, e, i, p):
        nb, shape = p["batched"], p["shape"]
        out = oarr(tuple(i[0].shape[:nb]) + tuple(shape))
        for b in np.ndindex(*i[0].shape[:nb]):
            r = sym_array(f"{p['label']}{sum(1 for q in self.opaques if q[0] == p['label'])}", shape)
            self.opaques.append((p["label"], {n: np.asarray(a[b], dtype=object) if not isinstance(a[b], np.ndarray) else a[b]
                                              for n, a in zip(p["names"], i)}, r, getattr(p["fn"], "statics", {})))
            out[b] = r
        return out

    # randomness
    def p_random_wrap(self, e, i, p):
        x = i[0]
        out = oarr(x.shape[:-1])
        for o in np.ndindex(*out.shape):
            w0, w1 = x[o]
            if not (isinstance(w0, KeyWord) and isinstance(w1, KeyWord) and w0.k == w1.k and (w0.w, w1.w) == (0, 1)):
                if not is_z(w0) and not is_z(w1) and not isinstance(w0, KeyWord) and not isinstance(w1, KeyWord):
                    k = KeyTerm(("root", f"const[{w0},{w1}]"))
                    self.nondet_keys.append(k)
                    out[o] = k
                    continue
                raise Inconclusive("random key assembled from foreign words")
            out[o] = w0.k
        return out

    def p_random_unwrap(self, e, i, p):
        x = i[0]
        out = oarr(x.shape + (2,))
        for o in np.ndindex(*x.shape):
            out[o + (0,)], out[o + (1,)] = KeyWord(x[o], 0), KeyWord(x[o], 1)
        return out

    def p_random_split(self, e, i, p):
        shape = tuple(p["shape"])
        x = i[0]
        out = oarr(x.shape + shape)
        n = int(np.prod(shape))
        for o in np.ndindex(*x.shape):
            self.key_uses.append((x[o], f"split{n}", shape))
            for j, s in enumerate(np.ndindex(*shape)):
                out[o + s] = KeyTerm(("child", x[o].t, j))
        return out

    def p_random_fold_in(self, e, i, p):
        x, d = i
        d = np.broadcast_to(d, x.shape)
        out = oarr(x.shape)
        for o in np.ndindex(*x.shape):
            if is_z(d[o]):
                self.sym_index[d[o].sexpr()] = d[o]
                out[o] = KeyTerm(("child", x[o].t, "$" + d[o].sexpr()))
            else:
                out[o] = KeyTerm(("child", x[o].t, int(d[o])))
            self.key_uses.append((x[o], "fold", ()))
        return out

    def p_random_seed(self, e, i, p):
        return vec(lambda s: KeyTerm(("root", f"seed({s})")), *i)

    def _key1(self, x):
        """scalar key from a raw (2,) array or a typed key array"""
        if x.shape == ():
            return x[()]
        if x.shape == (2,) and isinstance(x[0], KeyWord):
            return x[0].k
        return None

    def _intercept(self, name, e, i, p):
        """random samplers are replaced by their contract"""
        if not i:
            return None
        if name in ("_uniform", "uniform", "_randint", "randint", "_normal", "_normal_real", "_truncated_normal"):
            k = self._key1(i[0])
            shape = tuple(e.outvars[0].aval.shape)
            if k is None:                # a vmapped draw: one draw per leading index
                kb = i[0] if not (i[0].ndim and isinstance(i[0].reshape(-1)[0], KeyWord)) else self.p_random_wrap(None, [i[0]], None)
                B = kb.shape
                if shape[:len(B)] != B:
                    raise Inconclusive(f"{name}: batched key with unexpected layout")
                out = oarr(shape)
                kind = {"_uniform": "uniform", "uniform": "uniform", "_randint": "randint", "randint": "randint",
                        "_normal": "normal", "_normal_real": "normal"}[name]
                for b in np.ndindex(*B):
                    pr = {}
                    if kind != "normal":
                        for nm, a in (("lo", i[1]), ("hi", i[2])):
                            pr[nm] = a[b] if a.ndim >= len(B) and a.shape[:len(B)] == B and a.ndim > 0 else a
                            pr[nm] = np.asarray(pr[nm], dtype=object) if not isinstance(pr[nm], np.ndarray) else pr[nm]
                    r = self.draw(kind, kb[b], shape[len(B):], pr)
                    out[b] = r if r.shape else r[()]
                return [out]
            if name in ("_uniform", "uniform"):
                return [self.draw("uniform", k, shape, dict(lo=i[1], hi=i[2]))]
            if name in ("_randint", "randint"):
                return [self.draw("randint", k, shape, dict(lo=i[1], hi=i[2]))]
            if name in ("_normal", "_normal_real"):
                return [self.draw("normal", k, shape, {})]
            raise Inconclusive(f"sampler {name} has no contract")
        return None

    def p_random_bits(self, e, i, p):
        raise Inconclusive("raw random bits reached the encoding: sampler without a contract")


# ------------------------------------------------------------------ concrete execution with given draws
class ConcreteRun:
    """Runs the same jaxpr with JAX's own kernels, random draws supplied by `draws` (same order as Interp)."""

    def __init__(self, draws=()):
        self.draws = list(draws)
        self.n = 0
        self.tags = []

    def run(self, closed, args):
        return self.ev(closed.jaxpr, closed.consts, args)

    def ev(self, jaxpr, consts, args):
        env = {}
        read = lambda v: v.val if isinstance(v, jcore.Literal) else env[v]
        for v, c in zip(jaxpr.constvars, consts):
            env[v] = c
        for v, a in zip(jaxpr.invars, args):
            env[v] = a if hasattr(v.aval.dtype, "_rules") else jnp.asarray(a, dtype=v.aval.dtype)
        for eqn in jaxpr.eqns:
            ins = [read(v) for v in eqn.invars]
            outs = self.one(eqn, ins)
            for v, o in zip(eqn.outvars, outs):
                if type(v).__name__ != "DropVar":
                    env[v] = o
        return [read(v) for v in jaxpr.outvars]

    def one(self, eqn, ins):
        n, p = eqn.primitive.name, eqn.params
        if n in ("jit", "pjit"):
            if p.get("name") in ("_uniform", "uniform", "_randint", "randint", "_normal", "_normal_real"):
                want = tuple(eqn.outvars[0].aval.shape)
                d = np.asarray(self.draws[self.n])
                self.n += 1
                while d.shape != want and d.size < int(np.prod(want)):      # batched draw: gather consecutive ones
                    nxt = [np.asarray(x) for x in self.draws[self.n:self.n + int(np.prod(want)) // max(d.size, 1) - 1]]
                    self.n += len(nxt)
                    d = np.stack([d] + nxt).reshape(want)
                return [jnp.asarray(np.asarray(d, dtype=np.float64) if not np.issubdtype(np.asarray(d).dtype, np.integer) else d,
                                    dtype=eqn.outvars[0].aval.dtype)]
            return self.ev(p["jaxpr"].jaxpr, p["jaxpr"].consts, ins)
        if n == "scan":
            nc, nk = p["num_consts"], p["num_carry"]
            consts, carry, xs = ins[:nc], list(ins[nc:nc + nk]), ins[nc + nk:]
            ys = []
            for k in range(p["length"]):
                out = self.ev(p["jaxpr"].jaxpr, p["jaxpr"].consts, list(consts) + carry + [x[k] for x in xs])
                carry = out[:nk]
                ys.append(out[nk:])
            return list(carry) + [jnp.stack([y[j] for y in ys]) for j in range(len(eqn.outvars) - nk)]
        if n == "cond":
            k = int(np.clip(int(ins[0]), 0, len(p["branches"]) - 1))
            b = p["branches"][k]
            return self.ev(b.jaxpr, b.consts, ins[1:])
        if n == "while":
            cn, bn = p["cond_nconsts"], p["body_nconsts"]
            cc, bc, st = ins[:cn], ins[cn:cn + bn], list(ins[cn + bn:])
            while bool(self.ev(p["cond_jaxpr"].jaxpr, p["cond_jaxpr"].consts, list(cc) + st)[0]):
                st = self.ev(p["body_jaxpr"].jaxpr, p["body_jaxpr"].consts, list(bc) + st)
            return st
        if n == "vtag":
            for b in np.ndindex(*ins[0].shape[:p["batched"]]):
                self.tags.append((p["label"], {k: np.asarray(a)[b] for k, a in zip(p["names"], ins)}))
            return list(ins)
        if n == "vopaque":
            out = _opaque_impl(*ins, **p)
            for b in np.ndindex(*ins[0].shape[:p["batched"]]):
                self.tags.append((p["label"], {k: np.asarray(a)[b] for k, a in zip(p["names"], ins)}))
            return [out]
        out = eqn.primitive.bind(*ins, **p)
        return out if eqn.primitive.multiple_results else [out]


# ------------------------------------------------------------------ models -> numbers
def mval(model, e):
    """concrete Python value of an element under a model"""
    if not is_z(e):
        return e if isinstance(e, (bool, int)) else float(e)
    v = model.eval(e, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_algebraic_value(v):
        return float(v.approx(20).as_fraction())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    raise Inconclusive(f"model value {v}")


def marr(model, arr, dtype=np.float32):
    out = np.zeros(arr.shape, dtype=dtype)
    for i in np.ndindex(*arr.shape):
        out[i] = mval(model, arr[i])
    return out


def bounded(arrs, lim=50):
    cs = []
    for a in arrs:
        for v in np.asarray(a, dtype=object).reshape(-1):
            if is_z(v) and v.sort() != z3.BoolSort():
                cs += [v <= lim, v >= -lim]
    return cs


def requal(a, b):
    """equality of two real-valued elements as a z3 Bool"""
    return toreal(a) == toreal(b)


def diff_zero(a, b):
    """goal a == b, with polynomial normalisation first"""
    d = z3.simplify(toreal(a) - toreal(b), som=True)
    if _val(d) is not None and _val(d) == 0:
        return True
    return d == 0


# ------------------------------------------------------------------ uninterpreted user functions
uf_p = Primitive("vuf")
uf_p.def_abstract_eval(lambda *xs, name: jcore.ShapedArray(xs[0].shape, np.dtype(np.float32)))
uf_p.def_impl(lambda *xs, name: sum((k + 1.7) * jnp.asarray(x, jnp.float32) ** (1 + k % 2) for k, x in enumerate(xs)) * (1 + len(name) % 3) + (3.0 if name.endswith("1") else 0.0))


def _uf_batch(args, dims, **params):
    n = next(a.shape[d] for a, d in zip(args, dims) if d is not batching.not_mapped)
    out = []
    for a, d in zip(args, dims):
        out.append(jnp.broadcast_to(a, (n,) + a.shape) if d is batching.not_mapped else jnp.moveaxis(a, d, 0))
    return uf_p.bind(*out, **params), 0


batching.primitive_batchers[uf_p] = _uf_batch
mlir.register_lowering(uf_p, mlir.lower_fun(lambda *xs, name: uf_p.impl(*xs, name=name), multiple_results=False))


def uf(name, *args):
    args = [jnp.asarray(a, jnp.float32) for a in args]
    shape = jnp.broadcast_shapes(*[a.shape for a in args])
    return uf_p.bind(*[jnp.broadcast_to(a, shape) for a in args], name=name)


def _p_vuf(self, e, i, p):
    f = z3.Function("UF_" + p["name"], *([z3.RealSort()] * (len(i) + 1)))
    return vec(lambda *a: f(*[z3.simplify(toreal(x)) for x in a]), *i)


Interp.p_vuf = _p_vuf


# ------------------------------------------------------------------ keys for the solver
def key_sort():
    K = z3.Datatype("Key")
    K.declare("root", ("name", z3.IntSort()))
    K.declare("child", ("parent", K), ("index", z3.IntSort()))
    return K.create()


def key_z3(k, K, roots, symidx):
    t = k.t if isinstance(k, KeyTerm) else k
    if t[0] == "root":
        return K.root(z3.IntVal(roots.setdefault(t[1], len(roots))))
    i = t[2]
    i = symidx[i[1:]] if isinstance(i, str) else z3.IntVal(i)
    return K.child(key_z3(t[1], K, roots, symidx), i)


# ------------------------------------------------------------------ rational functions and branch-resolving runs
def _pmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = tuple(sorted(m1 + m2))
            c = r.get(m, 0) + c1 * c2
            if c:
                r[m] = c
            else:
                r.pop(m, None)
    return r


def _padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        c = r.get(m, 0) + s * c
        if c:
            r[m] = c
        else:
            r.pop(m, None)
    return r


_P1 = {(): Fraction(1)}


def ratform(e, atoms=None):
    """(numerator, denominator) as polynomials {monomial: coefficient} over the non-arithmetic subterms of a real term
    (denominators assumed non-zero)."""
    memo = {}
    atoms = {} if atoms is None else atoms

    def go(t):
        k = t.get_id()
        if k in memo:
            return memo[k][1]
        v = _val(t)
        if v is not None:
            r = ({(): Fraction(v)} if v else {}, _P1)
        elif z3.is_div(t):
            (a, b), (c, d) = go(t.arg(0)), go(t.arg(1))
            r = (_pmul(a, d), _pmul(b, c))
        elif z3.is_mul(t):
            a, b = _P1, _P1
            for x in t.children():
                c, d = go(x)
                a, b = _pmul(a, c), _pmul(b, d)
            r = (a, b)
        elif z3.is_add(t) or z3.is_sub(t):
            ch = [go(x) for x in t.children()]
            a, b = ch[0]
            for c, d in ch[1:]:
                sg = 1 if z3.is_add(t) else -1
                if not c:
                    continue
                if not a:
                    a, b = _padd({}, c, sg), d
                elif b == d:
                    a = _padd(a, c, sg)
                else:
                    a, b = _padd(_pmul(a, d), _pmul(c, b), sg), _pmul(b, d)
            r = (a, b)
        elif z3.is_app_of(t, z3.Z3_OP_UMINUS):
            a, b = go(t.arg(0))
            r = (_padd({}, a, -1), b)
        elif z3.is_app_of(t, z3.Z3_OP_POWER) and z3.is_rational_value(t.arg(1)) and t.arg(1).as_fraction().denominator == 1:
            a, b = go(t.arg(0))
            n = int(t.arg(1).as_fraction())
            if n < 0:
                a, b, n = b, a, -n
            p, q = _P1, _P1
            for _ in range(n):
                p, q = _pmul(p, a), _pmul(q, b)
            r = (p, q)
        else:
            name = t.sexpr()
            atoms[name] = t
            r = ({(name,): Fraction(1)}, _P1)
        if not r[0]:
            r = ({}, _P1)
        memo[k] = (t, r)
        return r
    return go(e)


def rational_same(a, b):
    """Are two terms the same rational function?"""
    (n1, d1), (n2, d2) = ratform(a), ratform(b)
    return _pmul(n1, d2) == _pmul(n2, d1)


class Split(Exception):
    """An index the hypotheses leave open: the harness decides the property separately for each alternative."""
    def __init__(self, cases):
        self.cases = cases


def split_cases(hyp, run, limit=64):
    """run(hypotheses) for a complete case split of `hyp`, refined on demand"""
    todo, n = [list(hyp)], 0
    while todo:
        h = todo.pop()
        n += 1
        if n > limit:
            raise Inconclusive("case split does not terminate")
        try:
            run(h)
        except Split as e:
            todo += [h + [c] for c in e.cases]


class BranchInterp(Interp):
    """Resolves min/max/clamp/select under the hypotheses (solver-decided), so that terms stay polynomial."""

    def _cond(self, c):
        if not is_z(c):
            return c
        k = c.sexpr()
        tab = self.__dict__.setdefault("_ctab", {})
        if k not in tab:
            r = self.entails(c)
            tab[k] = c if r is None else r
        return tab[k]

    def _mx(self, a, b):
        if not (is_z(a) or is_z(b)) or isinstance(a, float) or isinstance(b, float):
            return s_max(a, b)
        c = self._cond(s_ge(a, b))
        return s_ite(c, a, b) if is_z(c) else (a if c else b)

    def _mn(self, a, b):
        if not (is_z(a) or is_z(b)) or isinstance(a, float) or isinstance(b, float):
            return s_min(a, b)
        c = self._cond(s_le(a, b))
        return s_ite(c, a, b) if is_z(c) else (a if c else b)

    def p_max(self, e, i, p): return vec(self._mx, *i)
    def p_min(self, e, i, p): return vec(self._mn, *i)

    def p_clamp(self, e, i, p):
        lo, x, hi = np.broadcast_arrays(*i)
        return vec(lambda l, v, h: self._mn(self._mx(v, l), h), lo, x, hi)

    def p_select_n(self, e, i, p):
        c = vec(lambda w: self._cond(w) if is_z(w) and w.sort() == z3.BoolSort() else w, i[0])
        return Interp.p_select_n(self, e, [c] + list(i[1:]), p)
