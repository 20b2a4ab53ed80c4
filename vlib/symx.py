"""Symbolic execution of the real (plain Python) code by re-execution.

A harness is an ordinary function `h(cx)`.  It obtains symbolic inputs from `cx`, runs the real code on
them and states goals with `cx.prove`.  Symbolic values are proxies over z3 terms; whenever the code asks
for the truth value of a symbolic condition (or uses a symbolic integer as an index) execution forks: the
solver decides which outcomes are feasible and every feasible one is explored by running the harness again
with the decision fixed.  Every goal is discharged under the path's condition.  A counterexample is replayed
by running the same harness with the model's concrete numbers; only then is it reported.
"""
from __future__ import annotations
import builtins, copy, math, numbers, time
import numpy
from fractions import Fraction
import z3
from .common import Inconclusive, Enough, repo_modules, VERIF, SHARD, COUNTS

_cx = None            # the running context


class Abort(BaseException):
    """ends the current path (BaseException: the code under test must not swallow it)"""


class Infeasible(Abort):
    pass


class Failed(Abort):
    """concrete replay: a goal was false"""
    def __init__(self, name, text):
        self.name, self.text = name, text


def is_sym(x):
    return builtins.isinstance(x, (SymInt, SymReal, SymBool))


def z(x):
    """z3 term of a value (symbolic or plain)"""
    if builtins.isinstance(x, SymFP):
        raise Inconclusive("floating-point symbol in exact arithmetic")
    if builtins.isinstance(x, (SymInt, SymReal, SymBool)):
        return x.e
    if z3.is_expr(x):
        return x
    if builtins.isinstance(x, (bool, numpy.bool_)):
        return z3.BoolVal(builtins.bool(x))
    if builtins.isinstance(x, numbers.Integral):
        return z3.IntVal(builtins.int(x))
    if builtins.isinstance(x, Fraction):
        return z3.RealVal(x)
    if builtins.isinstance(x, numbers.Real):
        f = builtins.float(x)
        if math.isinf(f) or math.isnan(f):
            raise Inconclusive(f"non-finite constant {f} in symbolic arithmetic")
        return z3.RealVal(Fraction(f))
    raise TypeError(f"no term for {type(x)}")


def wrap(e):
    e = z3.simplify(e)
    if e.sort() == z3.BoolSort():
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return SymBool(e)
    if e.sort() == z3.IntSort():
        return e.as_long() if z3.is_int_value(e) else SymInt(e)
    if z3.is_rational_value(e):
        f = e.as_fraction()
        v = builtins.float(f)
        return v if Fraction(v) == f else SymReal(e)
    return SymReal(e)


def toreal(e):
    return z3.ToReal(e) if e.sort() == z3.IntSort() else e


def _arith(a, b):
    """common-sorted terms of two operands or None"""
    for v in (a, b):
        if not (is_sym(v) or builtins.isinstance(v, (builtins.int, builtins.float, Fraction, numbers.Real))):
            return None
    x, y = _b2i(z(a)), _b2i(z(b))
    if x.sort() != y.sort():
        x, y = toreal(x), toreal(y)
    return x, y


def _b2i(e):
    return z3.If(e, z3.IntVal(1), z3.IntVal(0)) if e.sort() == z3.BoolSort() else e


def _inf(v):
    return builtins.isinstance(v, builtins.float) and (math.isinf(v) or math.isnan(v))


def _exact_quotient(x, y):
    """floor(x / k) without a division where x = k*(...) + constant"""
    y = z3.simplify(y)
    if not z3.is_int_value(y):
        return None
    k = y.as_long()
    if k == 1:
        return x
    x = z3.simplify(x, som=True)
    out, rest = [], 0
    for t in (x.children() if z3.is_add(x) else [x]):
        if z3.is_int_value(t):
            rest += t.as_long()
        elif z3.is_mul(t) and z3.is_int_value(t.arg(0)) and t.arg(0).as_long() % k == 0 and t.num_args() >= 2:
            c = t.arg(0).as_long() // k
            f = t.arg(1) if t.num_args() == 2 else z3.Product(*t.children()[1:])
            out.append(f if c == 1 else c * f)
        else:
            return None
    return z3.simplify(z3.Sum(*out, z3.IntVal(rest // k)))


class _Num:
    __slots__ = ("e",)
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, e):
        self.e = e

    def _bin(self, o, f, swap=False):
        if _inf(o):
            raise Inconclusive("arithmetic with a non-finite constant")
        p = _arith(self, o)
        if p is None:
            return NotImplemented
        x, y = p
        return wrap(f(y, x) if swap else f(x, y))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, True)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: a * b, True)

    def _div(self, a, b):
        if _cx.branch(z(b) == 0):
            raise ZeroDivisionError("division by zero")
        p = _arith(a, b)
        if p is None:
            return NotImplemented
        return wrap(toreal(p[0]) / toreal(p[1]))

    def __truediv__(self, o): return self._div(self, o)
    def __rtruediv__(self, o): return self._div(o, self)

    def _fdiv(self, a, b):
        p = _arith(a, b)
        if p is None:
            return NotImplemented
        x, y = p
        if _cx.branch(y == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        if x.sort() == z3.IntSort():
            if _cx.branch(y > 0):
                q = _exact_quotient(x, y)
                return wrap(x / y if q is None else q)
            return wrap((-x) / (-y))
        return wrap(z3.ToReal(z3.ToInt(x / y)))

    def __floordiv__(self, o): return self._fdiv(self, o)
    def __rfloordiv__(self, o): return self._fdiv(o, self)

    def _mod(self, a, b):
        q = self._fdiv(a, b)
        return q if q is NotImplemented else a - q * b

    def __mod__(self, o): return self._mod(self, o)
    def __rmod__(self, o): return self._mod(o, self)
    def __divmod__(self, o): return self._fdiv(self, o), self._mod(self, o)
    def __rdivmod__(self, o): return self._fdiv(o, self), self._mod(o, self)

    def __pow__(self, k):
        if builtins.isinstance(k, builtins.int) and 0 <= k <= 4:
            r = 1
            for _ in builtins.range(k):
                r = r * self
            return r
        return NotImplemented

    def __neg__(self): return wrap(-_b2i(self.e))
    def __pos__(self): return self
    def __abs__(self):
        e = _b2i(self.e)
        return wrap(z3.If(e >= 0, e, -e))

    def _cmp(self, o, f, inf):
        if _inf(o):
            if math.isnan(o):
                return False
            return inf(o)
        p = _arith(self, o)
        if p is None:
            return NotImplemented
        return wrap(f(*p))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, lambda v: v > 0)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, lambda v: v > 0)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, lambda v: v < 0)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, lambda v: v < 0)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, lambda v: False)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b, lambda v: True)
        return True if r is NotImplemented else r

    def __bool__(self):
        return _cx.branch(_b2i(self.e) != 0)

    def __repr__(self): return f"<{self.e}>"
    def __str__(self): return _cx.token(self)
    def __format__(self, spec): return _cx.token(self)


class SymInt(_Num):
    __slots__ = ()

    def __index__(self): return _cx.concretize(self.e)
    def __int__(self): return _cx.concretize(self.e)
    def __hash__(self): return hash(_cx.concretize(self.e))
    def __trunc__(self): return self
    def __floor__(self): return self
    def __ceil__(self): return self
    def __round__(self, n=None): return self
    def __float__(self): return builtins.float(_cx.concretize(self.e))
    @property
    def real(self): return self
    def item(self): return self
    def bit_length(self): return _cx.concretize(self.e).bit_length()
    def is_integer(self): return True


class SymReal(_Num):
    __slots__ = ()

    def __trunc__(self): return wrap(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))
    def __floor__(self): return wrap(z3.ToInt(self.e))
    def __ceil__(self): return wrap(-z3.ToInt(-self.e))

    def __round__(self, n=None):
        if n not in (None, 0):
            raise Inconclusive("round to digits")
        fl = z3.ToInt(self.e)
        d = self.e - z3.ToReal(fl)
        r = z3.If(d < z3.RealVal("1/2"), fl, z3.If(d > z3.RealVal("1/2"), fl + 1, z3.If(fl % 2 == 0, fl, fl + 1)))
        return wrap(r)

    def __hash__(self): return _cx.hash_of(self.e)
    def __float__(self): raise Inconclusive("a symbolic real reached native code")
    def is_integer(self): return wrap(z3.IsInt(self.e))
    def item(self): return self


class SymBool(_Num):
    __slots__ = ()

    def __bool__(self): return _cx.branch(self.e)
    def __hash__(self): return hash(bool(self))
    def __index__(self): return builtins.int(bool(self))
    def __and__(self, o): return wrap(z3.And(self.e, z(o))) if builtins.isinstance(o, (bool, SymBool)) else NotImplemented
    __rand__ = __and__
    def __or__(self, o): return wrap(z3.Or(self.e, z(o))) if builtins.isinstance(o, (bool, SymBool)) else NotImplemented
    __ror__ = __or__
    def __invert__(self): return wrap(z3.Not(self.e))

    def __eq__(self, o):
        if builtins.isinstance(o, (bool, SymBool)):
            return wrap(self.e == z(o))
        return _Num.__eq__(self, o)

    def __ne__(self, o):
        if builtins.isinstance(o, (bool, SymBool)):
            return wrap(self.e != z(o))
        return _Num.__ne__(self, o)


F64 = z3.Float64()
RNE, RTZ = z3.RNE(), z3.RTZ()


class SymFP(SymReal):
    """IEEE-754 double (bit-exact): for the few places where rounding itself is the question"""
    __slots__ = ()

    @staticmethod
    def _fp(v):
        if builtins.isinstance(v, SymFP):
            return v.e
        if builtins.isinstance(v, (SymInt, SymReal, SymBool)):
            raise Inconclusive("mixed exact and floating-point symbols")
        if builtins.isinstance(v, numbers.Real):
            return z3.FPVal(builtins.float(v), F64)
        return None

    def _op(self, o, f, swap=False):
        y = self._fp(o)
        if y is None:
            return NotImplemented
        a, b = (y, self.e) if swap else (self.e, y)
        return SymFP(z3.simplify(f(a, b)))

    def __add__(self, o): return self._op(o, lambda a, b: z3.fpAdd(RNE, a, b))
    def __radd__(self, o): return self._op(o, lambda a, b: z3.fpAdd(RNE, a, b), True)
    def __sub__(self, o): return self._op(o, lambda a, b: z3.fpSub(RNE, a, b))
    def __rsub__(self, o): return self._op(o, lambda a, b: z3.fpSub(RNE, a, b), True)
    def __mul__(self, o): return self._op(o, lambda a, b: z3.fpMul(RNE, a, b))
    def __rmul__(self, o): return self._op(o, lambda a, b: z3.fpMul(RNE, a, b), True)
    def __truediv__(self, o): return self._op(o, lambda a, b: z3.fpDiv(RNE, a, b))
    def __rtruediv__(self, o): return self._op(o, lambda a, b: z3.fpDiv(RNE, a, b), True)
    def __neg__(self): return SymFP(z3.fpNeg(self.e))
    def __abs__(self): return SymFP(z3.fpAbs(self.e))
    def __trunc__(self): return SymFP(z3.fpRoundToIntegral(RTZ, self.e))
    def __floor__(self): return SymFP(z3.fpRoundToIntegral(z3.RTN(), self.e))
    def __ceil__(self): return SymFP(z3.fpRoundToIntegral(z3.RTP(), self.e))
    def __round__(self, n=None): return SymFP(z3.fpRoundToIntegral(RNE, self.e))

    def _c(self, o, f):
        y = self._fp(o)
        return NotImplemented if y is None else wrap(f(self.e, y))

    def __lt__(self, o): return self._c(o, z3.fpLT)
    def __le__(self, o): return self._c(o, z3.fpLEQ)
    def __gt__(self, o): return self._c(o, z3.fpGT)
    def __ge__(self, o): return self._c(o, z3.fpGEQ)
    def __eq__(self, o): return self._c(o, z3.fpEQ)
    def __ne__(self, o):
        r = self._c(o, z3.fpEQ)
        return r if r is NotImplemented else Not(r)
    def __hash__(self): return id(self)
    def __bool__(self): return not _cx.branch(z3.fpIsZero(self.e))


numbers.Integral.register(SymInt)
numbers.Real.register(SymReal)


# ------------------------------------------------------------------ contexts
TOKEN_RE = r"(77310\d{4}|-?(?:0|[1-9]\d*)(?!\d))"
TOKEN = "77310"          # decimal strings starting like this stand for symbolic numbers in formatted text


class Sym:
    """symbolic run along one path"""
    concrete = False

    def __init__(self, ck, prefix, todo, timeout=60):
        self.ck, self.prefix, self.todo = ck, prefix, todo
        self.n = 0
        self.s = z3.Solver()
        self.s.set("timeout", timeout * 1000)
        self.pc = []
        self.inputs = {}
        self.tokens = []
        self.fresh = 0
        self.dead = False
        self.prefs = []

    # inputs ------------------------------------------------------
    def _in(self, name, e, *cs):
        if name in self.inputs:
            raise Inconclusive(f"input {name} requested twice")
        self.inputs[name] = e
        for c in cs:
            self._add(c)
        return e

    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        self._in(name, v, *([v >= lo] if lo is not None else []), *([v <= hi] if hi is not None else []))
        return SymInt(v)

    def real(self, name, lo=None, hi=None):
        v = z3.Real(name)
        self._in(name, v, *([v >= z(lo)] if lo is not None else []), *([v <= z(hi)] if hi is not None else []))
        return SymReal(v)

    def double(self, name, lo, hi, bits=12):
        """a double with at most `bits` fraction bits"""
        v = z3.FP(name, F64)
        raw = z3.BitVec(name + "!bits", 64)
        self._add(z3.And(z3.fpToFP(raw, F64) == v, z3.Extract(51 - bits, 0, raw) == 0))
        self._in(name, v, z3.fpGEQ(v, z3.FPVal(lo, F64)), z3.fpLEQ(v, z3.FPVal(hi, F64)))
        return SymFP(v)

    def bool(self, name):
        return SymBool(self._in(name, z3.Bool(name)))

    def choose(self, name, lo, hi):
        """an integer input that is decided by forking"""
        return self.concretize(self.int(name, lo, hi).e)

    def flag(self, name):
        return bool(self.bool(name))

    # path condition ----------------------------------------------
    def _add(self, c):
        self.pc.append(c)
        self.s.add(c)

    def assume(self, c):
        c = z(c)
        self._add(c)
        if self.n >= len(self.prefix) and self._check() == z3.unsat:
            raise Infeasible()

    def _check(self, *a):
        t = time.time()
        r = self.s.check(*a)
        self.ck.note_query("path-feasibility", time.time() - t, str(r))
        return r

    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        i = self.n
        self.n += 1
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            t = self._check(c) != z3.unsat
            f = self._check(z3.Not(c)) != z3.unsat
            if not t and not f:
                raise Infeasible()
            d = t
            if t and f:
                self.todo.append(self.prefix + [False])
            self.prefix = self.prefix + [d]
        self._add(c if d else z3.Not(c))
        return d

    def concretize(self, e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        i = self.n
        self.n += 1
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            vals = []
            self.s.push()
            while True:
                if self._check() != z3.sat:
                    break
                v = self.s.model().eval(e, model_completion=True).as_long()
                vals.append(v)
                self.s.add(e != v)
                if len(vals) > 200:
                    raise Inconclusive(f"index {e} has too many values")
            self.s.pop()
            if not vals:
                raise Infeasible()
            vals.sort()
            for v in vals[1:]:
                self.todo.append(self.prefix + [v])
            v = vals[0]
            self.prefix = self.prefix + [v]
        self._add(e == v)
        return v

    def prefer(self, *cs):
        """conditions a counterexample should satisfy if it can (small sizes)"""
        self.prefs = [z(c) for c in cs]

    # text tokens -------------------------------------------------
    def token(self, v):
        e = z3.simplify(v.e)
        for k, t in enumerate(self.tokens):
            if t.eq(e):
                return f"{TOKEN}{k:04d}"
        self.tokens.append(e)
        return f"{TOKEN}{len(self.tokens)-1:04d}"

    def untoken(self, text):
        """the symbolic number a decimal string stands for (or None)"""
        if text.startswith(TOKEN) and len(text) == len(TOKEN) + 4:
            return wrap(self.tokens[builtins.int(text[len(TOKEN):])])
        return None

    def hash_of(self, e):
        raise Inconclusive("hash of a symbolic real")

    # goals ---------------------------------------------------------
    def prove(self, name, goal, text="", tight=None):
        """the goal must hold on this path; `tight` (weaker goal) steers the counterexample away from rounding"""
        if not is_sym(goal) and not z3.is_expr(goal):
            goal = bool(goal)
        g = z(goal)
        self.ck.obl += 1
        if z3.is_true(z3.simplify(g)):
            # decided on this path by the path condition alone: the path itself is a solver-decided case
            self.ck.discharged += 1
            return
        v, m = self.ck.solve(name, self.pc + [z3.Not(g)], 120)
        if v == "unsat":
            self.ck.discharged += 1
            return
        tries = []
        reals = [x for x in self.inputs.values() if x.sort() == z3.RealSort()]
        grid = [z3.And(z3.IsInt(r * 8), r <= 64, r >= -64) for r in reals]
        alts = ([z3.Not(z(tight))] if tight is not None else [None]) + [None]
        for pref in ([self.prefs] if self.prefs else []) + [[]]:
            for a in alts:
                for extra in ([grid] if reals else []) + [[]]:
                    tries.append(([z3.Not(g)] if a is None else [a]) + extra + pref)
        raise Found(name, self, tries, m)

    def prove_all(self, name, goals, text=""):
        self.prove(name, z3.And(*[z(g) for g in goals]) if goals else True, text)

    def note(self, *a):
        pass


class Found(Abort):
    def __init__(self, name, cx, tries, model):
        self.name, self.cx, self.tries, self.model = name, cx, tries, model


class Conc:
    """concrete replay with the numbers of a model"""
    concrete = True

    def __init__(self, values):
        self.values = values
        self.used = {}

    def _get(self, name, default):
        v = self.values.get(name, default)
        self.used[name] = v
        return v

    def int(self, name, lo=None, hi=None):
        return builtins.int(self._get(name, lo if lo is not None else 0))

    def real(self, name, lo=None, hi=None):
        return builtins.float(self._get(name, lo if lo is not None else 0.0))

    def double(self, name, lo, hi, bits=12): return builtins.float(self._get(name, lo))
    def bool(self, name): return bool(self._get(name, False))
    def choose(self, name, lo, hi): return self.int(name, lo, hi)
    def flag(self, name): return self.bool(name)

    def assume(self, c):
        if not _truth(c):
            raise Infeasible()

    def prefer(self, *cs): pass

    def branch(self, c): return _truth(c)
    def concretize(self, e): return z3.simplify(e).as_long()
    def token(self, v): return str(v)
    def untoken(self, text): return None

    def prove(self, name, goal, text="", tight=None):
        # a replayed violation must be clear of rounding where a tolerance is given
        bad = not _truth(tight if tight is not None else goal)
        if bad:
            raise Failed(name, text() if callable(text) else text)

    def prove_all(self, name, goals, text=""):
        self.prove(name, all(_truth(g) for g in goals), text)


def _truth(c):
    if z3.is_expr(c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        raise Inconclusive(f"undecided concrete condition {c}")
    return bool(c)


def And(*c): return wrap(z3.And(*[z(x) for x in c])) if c else True
def Or(*c): return wrap(z3.Or(*[z(x) for x in c])) if c else False
def Not(c): return wrap(z3.Not(z(c)))
def Implies(a, b): return wrap(z3.Implies(z(a), z(b)))
def Iff(a, b): return wrap(z(a) == z(b))


def value(m, e):
    v = m.eval(e, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return v.as_fraction()
    if z3.is_algebraic_value(v):
        return v.approx(20).as_fraction()
    if z3.is_true(v) or z3.is_false(v):
        return z3.is_true(v)
    if z3.is_fp_value(v):
        b = z3.simplify(z3.fpToIEEEBV(v)).as_long()
        import struct
        return struct.unpack(">d", b.to_bytes(8, "big"))[0]
    raise Inconclusive(f"model value {v}")


def run(ck, harness, name="", max_paths=20000, deadline=600, key=None):
    """Explore every feasible path of the harness; report replayed counterexamples."""
    global _cx
    todo = [[]]
    t0 = time.time()
    paths = 0
    complete = 0
    dividing = SHARD is not None
    if dividing:
        saved = {k: getattr(ck, k) for k in COUNTS}
        saved["by"] = copy.deepcopy(ck.by)
    while todo:
        if dividing and len(todo) >= 16 * SHARD[1]:
            # every worker gets here with the same list: from now on each explores its own share
            dividing = False
            todo[:] = todo[SHARD[0]::SHARD[1]]
            if SHARD[0]:
                complete = 0
                for k, v in saved.items():
                    setattr(ck, k, v)
            if not todo:
                break
        prefix = todo.pop(0) if dividing else todo.pop()
        paths += 1
        if paths > max_paths:
            raise Inconclusive(f"{name}: more than {max_paths} paths")
        if time.time() - t0 > deadline:
            raise Inconclusive(f"{name}: path exploration exceeded {deadline}s ({paths} paths)")
        cx = Sym(ck, prefix, todo)
        _cx = cx
        try:
            with shadowed():
                harness(cx)
            complete += 1
        except Infeasible:
            continue
        except Found as f:
            complete += 1
            _replay(ck, harness, name, f.name, f.cx, f.tries, key)
            todo.clear()        # one reported violation per harness is enough
        except (Inconclusive, Enough, KeyboardInterrupt):
            raise
        except Exception as e:
            # unexpected exception on this path: does it happen with concrete numbers as well?
            if _replay(ck, harness, name, f"{type(e).__name__}", cx, ([cx.prefs] if cx.prefs else []) + [[]], key, quiet=True):
                todo.clear()
                continue
            import traceback
            raise Inconclusive(f"{name}: symbolic execution failed with {e!r} and does not fail concretely: {traceback.format_exc()[-900:]}")
        finally:
            _cx = None
    if SHARD and dividing and SHARD[0]:      # too small to divide: the first worker reports it
        for k, v in saved.items():
            setattr(ck, k, v)
        ck.witness += 1
        return 0
    if complete == 0 and not (SHARD and not dividing):
        raise Inconclusive(f"{name}: no feasible path - vacuous harness")
    ck.paths += complete
    ck.witness += 1
    return complete


def _replay(ck, harness, name, goal, cx, tries, key=None, quiet=False):
    global _cx
    seen = []
    for extra in tries:
        s = z3.Solver()
        s.set("timeout", 30000)
        s.add(*cx.pc)
        s.add(*extra)
        if s.check() != z3.sat:
            continue
        m = s.model()
        vals = {n: value(m, e) for n, e in cx.inputs.items()}
        vals = {n: (float(v) if isinstance(v, Fraction) else v) for n, v in vals.items()}
        if vals in seen:
            continue
        seen.append(vals)
        ck.replays += 1
        cc = Conc(vals)
        old, _cx = _cx, cc
        try:
            harness(cc)
            continue
        except Failed as f:
            return ck.violation((key or name) + ":" + f.name, f"{f.text or f.name} [inputs {vals}]", vals)
        except Infeasible:
            continue
        except (Inconclusive, Enough):
            raise
        except Exception as e:
            tb = e.__traceback__
            while tb.tb_next:
                tb = tb.tb_next
            if builtins.isinstance(e, (AttributeError, NameError)) and tb.tb_frame.f_code.co_filename.startswith(VERIF):
                raise Inconclusive(f"{name}: the harness itself failed with {e!r}")
            return ck.violation((key or name) + ":" + type(e).__name__, f"{name}: unexpected {e!r} [inputs {vals}]", vals)
        finally:
            _cx = old
    if quiet:
        return False
    raise Inconclusive(f"{name}/{goal}: counterexample did not reproduce on the real code (inputs {seen})")


def agrees(ck, harness, values, what):
    """the harness on these concrete values runs the real parts that are stand-ins in the symbolic run: no goal may fail"""
    global _cx
    if ck.viol:
        return
    cc = Conc(values)
    old, _cx = _cx, cc
    try:
        harness(cc)
    except Infeasible:
        raise Inconclusive(f"{what}: {values} is not an input")
    except Failed as f:
        raise Inconclusive(f"{what}: the stand-in holds but the real run does not: {f.text or f.name} [inputs {values}]")
    finally:
        _cx = old


# ------------------------------------------------------------------ builtins seen by the code under test
def _isinstance(x, t):
    if builtins.hasattr(type(x), "_stands_for"):       # stand-ins of arrays with symbolic shapes
        ts = t if builtins.isinstance(t, tuple) else (t,)
        return any(builtins.isinstance(x._stands_for, q) for q in ts) or builtins.isinstance(x, t)
    if is_sym(x):
        ts = t if builtins.isinstance(t, tuple) else (t,)
        flat = []
        for q in ts:
            if hasattr(q, "__args__") and type(q).__name__ == "UnionType":
                flat += list(q.__args__)
            elif builtins.isinstance(q, tuple):
                flat += list(q)
            else:
                flat.append(q)
        for q in flat:
            q = _BACK.get(q, q)
            if builtins.isinstance(x, SymBool):
                if q in (bool, builtins.int, object) or q in (numbers.Number, numbers.Real, numbers.Integral):
                    return True
            elif builtins.isinstance(x, SymInt):
                if q in (builtins.int, object, numbers.Number, numbers.Real, numbers.Integral):
                    return True
            elif q in (builtins.float, object, numbers.Number, numbers.Real):
                return True
        return False
    if builtins.isinstance(t, tuple):
        t = tuple(_BACK.get(q, q) for q in t)
    else:
        try:
            t = _BACK.get(t, t)
        except TypeError:
            pass
    return builtins.isinstance(x, t)


class _Meta(type):
    def __instancecheck__(cls, x):
        return _isinstance(x, cls._real)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __getattr__(cls, n):
        return getattr(cls._real, n)

    def __or__(cls, o):
        return cls._real | _BACK.get(o, o)

    def __ror__(cls, o):
        return _BACK.get(o, o) | cls._real


class _int(metaclass=_Meta):
    _real = builtins.int

    def __new__(cls, *a, **k):
        if len(a) == 1 and not k:
            x = a[0]
            if builtins.isinstance(x, SymInt):
                return x
            if builtins.isinstance(x, SymReal):          # SymFP as well
                return x.__trunc__()
            if builtins.isinstance(x, SymBool):
                return wrap(_b2i(x.e))
            if builtins.isinstance(x, str) and _cx is not None:
                t = _cx.untoken(x)
                if t is not None:
                    return t
        return builtins.int(*a, **k)


class _float(metaclass=_Meta):
    _real = builtins.float

    def __new__(cls, *a):
        if len(a) == 1 and is_sym(a[0]):
            return wrap(toreal(_b2i(a[0].e)))
        return builtins.float(*a)


class _bool(metaclass=_Meta):
    _real = builtins.bool

    def __new__(cls, x=False):
        if builtins.isinstance(x, SymBool):
            return x
        if is_sym(x):
            return wrap(_b2i(x.e) != 0)
        return builtins.bool(x)


_BACK = {_int: builtins.int, _float: builtins.float, _bool: builtins.bool}


def _pick(fn, gt):
    def f(*a, **k):
        if k or not a:
            return fn(*a, **k)
        xs = list(a) if len(a) > 1 else list(a[0])
        if any(builtins.isinstance(x, SymFP) for x in xs):
            r = xs[0]
            for x in xs[1:]:
                p, q = SymFP._fp(r), SymFP._fp(x)
                r = SymFP(z3.If(z3.fpGEQ(p, q) if gt else z3.fpLEQ(p, q), p, q))
            return r
        if not any(is_sym(x) for x in xs) or any(_inf(x) or _arith(x, 0) is None for x in xs):
            return fn(xs)
        r = xs[0]
        for x in xs[1:]:
            p, q = _arith(r, x)
            r = wrap(z3.If(p >= q, p, q) if gt else z3.If(p <= q, p, q))
        return r
    return f


SHADOW = {"isinstance": _isinstance, "int": _int, "float": _float, "max": _pick(builtins.max, True), "min": _pick(builtins.min, False)}


class shadowed:
    """module globals of synthpix see proxies-aware int/float/isinstance while symbolic code runs"""

    def __enter__(self):
        self.undo = []
        for m in repo_modules():
            for n, f in SHADOW.items():
                if n in vars(m):
                    continue
                setattr(m, n, f)
                self.undo.append((m, n))

    def __exit__(self, *a):
        for m, n in self.undo:
            try:
                delattr(m, n)
            except AttributeError:
                pass


class patched:
    """temporarily replace objects: pairs (owner, attribute, new); dict owners replace items"""

    def __init__(self, *items):
        self.items = items

    def __enter__(self):
        self.undo = []
        for o, n, new in self.items:
            self.undo.append((o, n, getattr(o, n, None), n in vars(o) if hasattr(o, "__dict__") else True))
            setattr(o, n, new)
        return self

    def __exit__(self, *a):
        for o, n, old, had in reversed(self.undo):
            if had:
                setattr(o, n, old)
            else:
                delattr(o, n)
