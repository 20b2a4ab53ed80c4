"""Bounded model checking of the real prefetching code over all schedules.

Extraction: the real methods of the prefetcher are executed against stand-ins of queue.Queue, threading.* , time and
the wrapped source.  Every operation on such an object is one atomic step; its answer comes from a script, and the
execution is repeated with every possible answer, which yields the thread's control automaton (nodes with equal
frames, locals and attributes are merged).  Nothing of the code is transcribed by hand.

Model: one-hot program counters, queues, events, locks, the source and the monitor as bit-vectors; per step one
free choice of the thread and edge that fires.  z3 decides whether any schedule of at most K steps reaches a bad
state or a state in which nobody can move although somebody should.  A schedule found is replayed: real threads run
the real methods on real queue.Queue / threading.Event state, ordered by the schedule, and only what then really
goes wrong is reported.
"""
from __future__ import annotations
import builtins, collections, enum, os, queue as real_queue, shutil, subprocess, sys, tempfile, threading as real_threading, time as real_time, types, weakref
import z3
from .common import Inconclusive, SHARD, TIER

FILE = __file__


class Pending(BaseException):
    """the next answer is not known yet"""


class Item:
    """a batch: opaque to the code under test"""

    def __init__(self, reg):
        object.__setattr__(self, "reg", reg)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Inconclusive(f"the code looks into a batch ({n})")


# ------------------------------------------------------------------------------------------------ canonical values
class Hole:
    def __repr__(self): return "<item>"


HOLE = Hole()


def enc(v, cx, depth=0):
    if v is None or builtins.isinstance(v, (bool, int, float, str, bytes)):
        return v if not builtins.isinstance(v, bool) else ("b", v)
    if builtins.isinstance(v, Item):
        return ("item", v.reg)
    if v is HOLE:
        return ("hole",)
    if builtins.isinstance(v, Obj):
        return ("o", v.oid)
    if depth > 6:
        raise Inconclusive("deeply nested state")
    if builtins.isinstance(v, (tuple, list, collections.deque)):
        return (type(v).__name__,) + tuple(enc(x, cx, depth + 1) for x in v)
    if builtins.isinstance(v, (set, frozenset)):
        return ("set",) + tuple(sorted((enc(x, cx, depth + 1) for x in v), key=repr))
    if builtins.isinstance(v, dict):
        return ("dict",) + tuple((enc(a, cx, depth + 1), enc(b, cx, depth + 1)) for a, b in v.items())
    if builtins.isinstance(v, types.MethodType):
        return ("m", v.__func__.__qualname__, enc(v.__self__, cx, depth + 1))
    if builtins.isinstance(v, types.FunctionType):
        cells = [c.cell_contents for c in (v.__closure__ or ()) if _full(c)]
        return ("f", v.__qualname__) + tuple(enc(c, cx, depth + 1) for c in cells)
    if builtins.isinstance(v, (type, types.ModuleType, types.BuiltinFunctionType, types.SimpleNamespace)):
        return ("n", getattr(v, "__qualname__", getattr(v, "__name__", "?")))
    if builtins.isinstance(v, BaseException):
        return ("x", cx.constant(type(v)))
    if builtins.isinstance(v, enum.Enum):
        return ("obj", cx.constant(v))
    if cx is not None and v is cx.subject:
        return ("self",)
    if builtins.isinstance(v, (Harness, Ctx)):
        return ("h",)
    if type(v) is object:
        if cx.subject is not None:
            for n, x in object.__getattribute__(cx.subject, "__dict__").items():
                if x is v:
                    return ("own", n)
        return ("obj", cx.constant(v))
    if hasattr(v, "func") and hasattr(v, "keywords"):
        return ("partial", enc(v.func, cx, depth + 1), enc(v.args, cx, depth + 1), enc(v.keywords, cx, depth + 1))
    if hasattr(v, "__dict__"):
        return ("d", type(v).__name__) + tuple((k, enc(x, cx, depth + 1)) for k, x in sorted(vars(v).items()))
    raise Inconclusive(f"state of type {type(v).__name__}")


def _full(c):
    try:
        c.cell_contents
        return True
    except ValueError:
        return False


# ------------------------------------------------------------------------------------------------ stand-ins
CX = None                   # what the stand-ins talk to: an extraction (Ctx) or a replay


class Obj:
    oid = "?"


class SQueue(Obj):
    """queue.Queue: every method one atomic step"""
    KIND = "Q"

    def __init__(self, maxsize=0, oid=None):
        if not builtins.isinstance(maxsize, int):
            raise Inconclusive("queue of symbolic size")
        self.maxsize = maxsize
        self.oid = oid or CX.new("Q", maxsize, self)
        self.mutex = SMutex(self.oid)
        self.queue = SDeque(self.oid)
        self.not_empty = SCond(self.oid, "ne", self.mutex)
        self.not_full = SCond(self.oid, "nf", self.mutex)
        self.all_tasks_done = SCond(self.oid, "td", self.mutex)

    def put(self, item, block=True, timeout=None):
        if timeout is not None and block and timeout < 0:
            raise ValueError("'timeout' must be a non-negative number")
        r = CX.op("put", self.oid, _mode(block, timeout), CX.shape(item))
        if r == "full":
            CX.elapsed(timeout if block else 0)
            raise real_queue.Full

    def get(self, block=True, timeout=None):
        if timeout is not None and block and timeout < 0:
            raise ValueError("'timeout' must be a non-negative number")
        r = CX.op("get", self.oid, _mode(block, timeout))
        if r == "empty":
            CX.elapsed(timeout if block else 0)
            raise real_queue.Empty
        return CX.value(r)

    def put_nowait(self, item): return self.put(item, block=False)
    def get_nowait(self): return self.get(block=False)
    def qsize(self): return CX.op("qsize", self.oid)[1]
    def empty(self): return CX.op("qsize", self.oid)[1] == 0
    def full(self): return 0 < self.maxsize <= CX.op("qsize", self.oid)[1]
    def task_done(self): pass
    def __getattr__(self, n): raise Inconclusive(f"Queue.{n}")


def _mode(block, timeout):
    return "nb" if not block or timeout == 0 else "wait" if timeout is None else "timed"


class SMutex(Obj):
    def __init__(self, q): self.q, self.oid = q, q + ".mutex"
    def acquire(self, blocking=True, timeout=-1):
        if not blocking or timeout != -1:
            raise Inconclusive("non-blocking acquire")
        CX.op("lock", self.q)
        CX.hold(self.q)
        return True

    def release(self):
        CX.op("unlock", self.q)
        CX.hold(self.q, False)

    def __enter__(self): return self.acquire()
    def __exit__(self, *a):
        if not CX.dead():
            self.release()

    def __getattr__(self, n): raise Inconclusive(f"mutex.{n}")


class SCond(Obj):
    def __init__(self, q, which, mutex): self.q, self.which, self.mutex, self.oid = q, which, mutex, f"{q}.{which}"
    def notify(self, n=1): CX.op("notify", self.q, self.which)
    def notify_all(self): CX.op("notify", self.q, self.which)
    def acquire(self, *a): return self.mutex.acquire(*a)
    def release(self): self.mutex.release()
    def __enter__(self): return self.mutex.__enter__()
    def __exit__(self, *a): return self.mutex.__exit__(*a)
    def __getattr__(self, n): raise Inconclusive(f"Condition.{n}")


class SDeque(Obj):
    """the deque inside a queue, used directly"""

    def __init__(self, q): self.q, self.oid = q, q + ".queue"
    def append(self, v): CX.op("append", self.q, CX.shape(v))
    def appendleft(self, v): CX.op("appendleft", self.q, CX.shape(v))
    def clear(self): CX.op("clearq", self.q)
    def __len__(self): return CX.op("len", self.q)[1]
    def __bool__(self): return CX.op("len", self.q)[1] > 0

    def popleft(self):
        r = CX.op("popleft", self.q)
        if r == "empty":
            raise IndexError("pop from an empty deque")
        return CX.value(r)

    def pop(self):
        r = CX.op("pop", self.q)
        if r == "empty":
            raise IndexError("pop from an empty deque")
        return CX.value(r)

    def __getattr__(self, n): raise Inconclusive(f"deque.{n}")


class SEvent(Obj):
    def __init__(self, oid=None): self.oid = oid or CX.new("E", None, self)
    def set(self): CX.op("set", self.oid)
    def clear(self): CX.op("clear", self.oid)
    def is_set(self): return CX.op("is_set", self.oid)[1]
    isSet = is_set

    def wait(self, timeout=None):
        r = CX.op("ewait", self.oid, "wait" if timeout is None else "timed")
        if r == "timeout":
            CX.elapsed(timeout)
            return False
        return True

    def __getattr__(self, n): raise Inconclusive(f"Event.{n}")


class SLock(Obj):
    def __init__(self, oid=None): self.oid = oid or CX.new("L", None, self)
    def acquire(self, blocking=True, timeout=-1):
        if not blocking or timeout != -1:
            raise Inconclusive("non-blocking acquire")
        CX.op("lock", self.oid)
        CX.hold(self.oid)
        return True

    def release(self):
        CX.op("unlock", self.oid)
        CX.hold(self.oid, False)

    def __enter__(self): return self.acquire()
    def __exit__(self, *a):
        if not CX.dead():
            self.release()

    def __getattr__(self, n): raise Inconclusive(f"Lock.{n}")


class SThread(Obj):
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None, oid=None):
        self._call = (target, tuple(args), dict(kwargs or {}))
        self.daemon, self.name = daemon, name
        self.oid = oid or CX.new("T", self._call, self)

    def start(self):
        if CX.op("start", self.oid, CX.call_key(self._call)) == "error":
            raise RuntimeError("threads can only be started once")

    def is_alive(self): return CX.op("alive", self.oid)[1]

    def join(self, timeout=None):
        r = CX.op("join", self.oid, "wait" if timeout is None else "timed")
        if r == "error":
            raise RuntimeError("cannot join thread before it is started")
        if r == "timeout":
            CX.elapsed(timeout)

    def __getattr__(self, n): raise Inconclusive(f"Thread.{n}")


class Source(Obj):
    """the wrapped source"""
    oid = "src"

    def __init__(self): self.file_list = ["a"]

    def get_batch(self, batch_size):
        r = CX.op("src.get")
        if r == "stop":
            raise StopIteration
        if r == "ee":
            raise CX.EpisodeEnd("end")
        return CX.batch()

    def reset(self): CX.op("src.reset")
    def shutdown(self): pass
    def get_flow_fields_shape(self): return (1, 1, 2)

    @classmethod
    def from_config(cls, config): raise Inconclusive("from_config")


class EpisodicSource(Source):
    def next_episode(self): CX.op("src.next")
    def steps_remaining(self): return CX.op("src.steps")[1]
    @property
    def episode_length(self): return CX.L
    def __len__(self): return CX.L


class TimeVal(float):
    """a value derived from the clock"""
    def __add__(self, o): return TimeVal(float(self) + o)
    __radd__ = __add__
    def __sub__(self, o): return TimeVal(float(self) - o)
    def __rsub__(self, o): return TimeVal(o - float(self))


def _timed(v, depth=0):
    if builtins.isinstance(v, TimeVal):
        return True
    if depth < 3 and builtins.isinstance(v, (tuple, list)):
        return any(_timed(x, depth + 1) for x in v)
    return False


class Time:
    @staticmethod
    def time(): return CX.now()
    monotonic = perf_counter = time
    @staticmethod
    def sleep(s): CX.elapsed(s)
    def __getattr__(self, n): raise Inconclusive(f"time.{n}")


class NS:
    def __init__(self, name, **k):
        self.__name__ = name
        self.__dict__.update(k)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Inconclusive(f"{self.__name__}.{n}")


def replacements():
    q = NS("queue", Queue=SQueue, Empty=real_queue.Empty, Full=real_queue.Full)
    t = NS("threading", Thread=SThread, Event=SEvent, Lock=SLock, current_thread=lambda: CX.me())
    return {real_queue: q, real_threading: t, real_time: Time(), real_queue.Queue: SQueue, real_threading.Thread: SThread,
            real_threading.Event: SEvent, real_threading.Lock: SLock, real_time.time: Time.time, real_time.monotonic: Time.time, real_time.sleep: Time.sleep}


class patched_module:
    def __init__(self, mod): self.mod = mod

    def __enter__(self):
        rep = replacements()
        self.old = {}
        for n, v in list(vars(self.mod).items()):
            for k, r in rep.items():
                if v is k:
                    self.old[n] = v
                    setattr(self.mod, n, r)

    def __exit__(self, *a):
        for n, v in self.old.items():
            setattr(self.mod, n, v)


def tracked(cls):
    """the class with every access to an instance attribute reported"""
    get, put = object.__getattribute__, object.__setattr__

    class T(cls):
        def __getattribute__(self, n):
            if CX is None or n[:2] == "__":
                return get(self, n)
            d = get(self, "__dict__")
            if n in d:
                return CX.attr_read(self, n, d)
            return get(self, n)

        def __setattr__(self, n, v):
            if CX is None or n[:2] == "__":
                return put(self, n, v)
            if isinstance(getattr(cls, n, None), property):
                return put(self, n, v)
            CX.attr_write(self, n, v, get(self, "__dict__"))

        def __del__(self): pass
    T.__name__, T.__qualname__ = cls.__name__, cls.__qualname__
    return T


# ------------------------------------------------------------------------------------------------ extraction
class Harness:
    """what a consumer program may do besides using the prefetcher"""
    def choose(self, name, n): return CX.op("choose", name, n)[1]
    def emit(self, kind, *args): CX.emit(kind, args)


class Domain:
    """answers seen so far, grown to a fixpoint"""

    def __init__(self):
        self.shapes = [("hole",)]       # what queues may hold
        self.attrs = {}                 # shared attribute -> values
        self.objects = {}               # oid -> (kind, parameter)
        self.shared = {}                # attribute -> "cw" (only the consumer writes) or "all"
        self.init = {}                  # attribute -> value after construction
        self.log = collections.defaultdict(set)   # attribute -> {(thread kind, r/w)}
        self.consts = []
        self.version = 0

    def add_shape(self, s):
        if s not in self.shapes:
            self.shapes.append(s)
            self.version += 1

    def add_attr(self, n, s):
        l = self.attrs.setdefault(n, [])
        if s not in l:
            l.append(s)
            self.version += 1


class Ctx:
    """one scripted execution of one thread"""

    def __init__(self, spec, dom, script, worker=None):
        self.spec, self.dom, self.script, self.k = spec, dom, list(script), 0
        self.L, self.EpisodeEnd = spec.L, spec.EpisodeEnd
        self.worker = worker                # (thread oid, worker script): run that thread where the script ends
        self.thread = "C"
        self.live = weakref.WeakSet()
        self.emits, self.trace, self.held = [], [], []
        self.counts = collections.Counter()
        self.objs = {}
        self.clock = 0.0
        self.subject = None
        self.pending = self.fp = None
        self.is_dead = False
        self.in_init = True
        self.failure = None
        self.outcome = None

    def constant(self, v):
        for k, c in enumerate(self.dom.consts):
            if c is v:
                return k
        self.dom.consts.append(v)
        return len(self.dom.consts) - 1

    # ---- objects
    def new(self, kind, param, obj):
        n = self.counts[self.thread, kind]
        self.counts[self.thread, kind] += 1
        oid = f"{'' if self.thread == 'C' else self.thread}{kind}{n}"
        self.objs[oid] = obj
        key = (kind, param if kind == "Q" else None)
        if oid not in self.dom.objects:
            self.dom.objects[oid] = key
            self.dom.version += 1
        elif self.dom.objects[oid] != key:
            raise Inconclusive(f"object {oid} has different parameters on different paths")
        return oid

    def object(self, oid):
        if oid not in self.objs:
            kind, param = self.dom.objects[oid]
            self.objs[oid] = {"Q": lambda: SQueue(param, oid=oid), "E": lambda: SEvent(oid=oid), "L": lambda: SLock(oid=oid), "T": lambda: SThread(oid=oid)}[kind]()
        return self.objs[oid]

    def me(self): return self.object(self.thread) if self.thread != "C" else types.SimpleNamespace(name="MainThread", daemon=False, ident=1)

    # ---- values
    def shape(self, v):
        """(template, register of the item in it)"""
        regs = []

        def go(x):
            if isinstance(x, Item):
                regs.append(x.reg)
                return ("hole",)
            if isinstance(x, (tuple, list)):
                return (type(x).__name__,) + tuple(go(y) for y in x)
            return enc(x, self)
        s = go(v)
        if len(set(regs)) > 1:
            raise Inconclusive("several batches in one value")
        return (s, regs[0] if regs else None)

    def value(self, r):
        def go(s):
            if s == ("hole",):
                used = {i.reg for i in self.live}
                reg = next(k for k in range(99) if k not in used)
                it = Item(reg)
                self.live.add(it)
                self.trace[-1][2] = reg
                return it
            if not isinstance(s, tuple):
                return s
            if s[0] == "b":
                return s[1]
            if s[0] == "o":
                return self.object(s[1])
            if s[0] in ("tuple", "list"):
                x = [go(y) for y in s[1:]]
                return tuple(x) if s[0] == "tuple" else x
            if s[0] == "obj":
                return self.dom.consts[s[1]]
            if s[0] == "self":
                return self.subject
            if s[0] == "own":
                return object.__getattribute__(self.subject, "__dict__")[s[1]]
            if s[0] == "x":
                return self.dom.consts[s[1]]()
            raise Inconclusive(f"value {s} handed between threads")
        return go(r[1])

    def batch(self): return self.value(("val", ("hole",)))

    # ---- attributes of the prefetcher
    def attr_read(self, me, n, d):
        if self.subject is None or self.in_init or self.is_dead or me is not self.subject:
            return d[n]
        self.dom.log[n].add(("C" if self.thread == "C" else "W", "r"))
        sh = self.dom.shared.get(n)
        if sh == "all" or (sh == "cw" and self.thread != "C"):
            return self.value(self.op("read", n))
        return d[n]

    def attr_write(self, me, n, v, d):
        if self.in_init or self.is_dead:
            d[n] = v
            return
        self.dom.log[n].add(("C" if self.thread == "C" else "W", "w"))
        if n in self.dom.shared:
            s = self.shape(v)
            self.dom.add_attr(n, s[0])
            self.op("write", n, s)
        d[n] = v

    # ---- steps
    def now(self):
        if self.spec.expiry:
            if self.op("time")[1]:
                self.clock += 1000.0
        return TimeVal(self.clock)

    def elapsed(self, t):
        if t:
            self.clock += float(t)

    def dead(self): return self.is_dead

    def emit(self, kind, args):
        self.emits.append((kind,) + tuple(("item", a.reg) if isinstance(a, Item) else a for a in args))

    def op(self, *desc):
        if self.is_dead:
            raise Pending
        if self.in_init:
            raise Inconclusive(f"{desc[0]} during construction")
        self._settle_clock()
        if desc[0] in ("put", "append", "appendleft"):
            self.dom.add_shape(desc[-1][0])
        if self.k < len(self.script):
            r = self.script[self.k]
            self.k += 1
            self.trace.append([desc, r, None])
            self.emits = []
            return r
        if self.worker is not None:
            if desc[:2] != ("start", self.worker[0]):
                raise Inconclusive("extraction of a thread lost its way")
            self._run_worker()
            raise Pending
        self.pending = desc
        self.fp = self._fingerprint()
        self.is_dead = True
        raise Pending

    def hold(self, oid, on=True):
        if on:
            self.held.append(oid)
        elif oid in self.held:
            self.held.remove(oid)

    def call_key(self, call): return enc(call, self)

    def _settle_clock(self):
        """where nothing depends on a time read earlier, the clock may start anew"""
        if not self.clock:
            return
        f = sys._getframe(2)
        while f is not None and f.f_code is not _root.__code__:
            if f.f_code.co_filename != FILE and any(_timed(v) for v in f.f_locals.values()):
                return
            f = f.f_back
        if self.subject is not None and any(_timed(v) for v in object.__getattribute__(self.subject, "__dict__").values()):
            return
        self.clock = 0.0

    def _run_worker(self):
        oid, script = self.worker
        target, args, kw = self.objs[oid]._call
        self.worker = None
        self.thread, self.script, self.k, self.trace, self.emits, self.clock, self.held = oid, list(script), 0, [], [], 0.0, []
        self.live = weakref.WeakSet()
        try:
            _root(lambda: target(*args, **kw))
            self.outcome = "end"
        except Pending:
            pass
        except Inconclusive:
            raise
        except BaseException as e:
            self.outcome = "end"            # an exception ends the thread
            self.failure = repr(e)
        self.is_dead = True

    def _fingerprint(self):
        f = sys._getframe(1)
        out = []
        while f is not None:
            code = f.f_code
            if code is _root.__code__:
                break
            if code.co_filename != FILE:
                loc = tuple((k, enc(v, self)) for k, v in sorted(f.f_locals.items()) if not k.startswith("__"))
                out.append((code.co_qualname, code.co_firstlineno, f.f_lasti, loc))
            f = f.f_back
        d = object.__getattribute__(self.subject, "__dict__") if self.subject is not None else {}
        attrs = tuple((k, enc(v, self)) for k, v in sorted(d.items()) if not (k in self.dom.shared and (self.thread != "C" or self.dom.shared[k] == "all"))) if self.thread == "C" else ()
        return (tuple(out), attrs, self.clock, tuple(self.held), tuple(sorted(self.counts.items())) if self.thread == "C" else tuple(sorted((k, v) for k, v in self.counts.items() if k[0] == self.thread)))


def _root(f):
    return f()


class Spec:
    """what is checked: module, class, source, consumer program, limits"""

    def __init__(self, mod, cls, program, capacity, L=0, finite=True, expiry=False, worker_expiry=True, episode_end=None):
        self.mod, self.cls, self.program, self.capacity = mod, tracked(cls), program, capacity
        self.L, self.finite, self.expiry, self.worker_expiry = L, finite, expiry, worker_expiry
        self.EpisodeEnd = episode_end
        self.batch = 1

    def build(self, cx):
        p = self.cls.__new__(self.cls)
        cx.in_init = True
        p.__init__(EpisodicSource() if self.L else Source(), self.batch, self.capacity)
        cx.subject = p
        cx.in_init = False
        return p

    def answers(self, desc, dom, thread):
        k = desc[0]
        exp = self.expiry or (self.worker_expiry and thread != "C")
        if k == "put":
            return ["ok"] + (["full"] if desc[2] == "nb" or (desc[2] == "timed" and exp) else [])
        if k == "get":
            return [("val", s) for s in dom.shapes] + (["empty"] if desc[2] == "nb" or (desc[2] == "timed" and exp) else [])
        if k in ("popleft", "pop"):
            return [("val", s) for s in dom.shapes] + ["empty"]
        if k in ("qsize", "len"):
            return [("n", j) for j in range(self.capacity + 3)]
        if k in ("is_set", "alive"):
            return [("b", True), ("b", False)]
        if k == "ewait":
            return ["ok"] + (["timeout"] if desc[2] == "timed" and exp else [])
        if k == "join":
            return ["ok", "error"] + (["timeout"] if desc[2] == "timed" and exp else [])
        if k == "start":
            return ["ok", "error"]
        if k == "src.get":
            return ["item"] + (["ee"] if self.L else []) + (["stop"] if self.finite else [])
        if k == "src.steps":
            return [("n", j) for j in range(self.L + 1)]
        if k == "choose":
            return [("c", j) for j in range(desc[2])]
        if k == "time":
            return [("late", False), ("late", True)]
        if k == "read":
            return [("val", s) for s in dom.attrs.get(desc[1], [])]
        return ["ok"]


class Node:
    __slots__ = ("desc", "edges", "script", "i", "outcome", "held", "active", "begun")

    def __init__(self, desc, script, i):
        self.desc, self.script, self.i, self.edges, self.outcome = desc, script, i, [], None


class Graph:
    """control automaton of one thread; edges: (answer, register, emits, target)"""

    def __init__(self, thread):
        self.thread, self.nodes, self.start, self.start_emits, self.runs = thread, [], None, [], 0


def execute(spec, dom, script, worker=None):
    global CX
    cx = Ctx(spec, dom, script, worker)
    CX = cx
    try:
        with patched_module(spec.mod):
            try:
                p = spec.build(cx)
                if not dom.init:
                    d = object.__getattribute__(p, "__dict__")
                    dom.init = {n: enc(v, cx) for n, v in d.items()}
                h = Harness()
                _root(lambda: spec.program(h, p))
                if worker is None:
                    cx.outcome = "end"
            except Pending:
                pass
            except Inconclusive:
                raise
            except BaseException as e:
                if cx.is_dead:
                    pass
                elif worker is None:
                    cx.outcome, cx.failure = "crash", repr(e)
                else:
                    raise Inconclusive(f"extraction of a thread ended with {e!r}")
    finally:
        CX = None
    return cx


def extract(spec, dom, thread="C", prefix=(), limit=6000):
    """automaton of the consumer program, or of a thread started at the end of the prefix"""
    g = Graph(thread)
    run = (lambda s: execute(spec, dom, s)) if thread == "C" else (lambda s: execute(spec, dom, prefix, (thread, s)))
    index = {}
    todo = collections.deque()
    checks = []

    def node(cx, script):
        if cx.outcome:
            key = (cx.outcome, cx.failure)
        else:
            key = (cx.pending, cx.fp)
        n = index.get(key)
        if n is None:
            n = index[key] = Node(cx.pending, script, len(g.nodes))
            n.held = tuple(cx.held)
            n.outcome = (cx.outcome, cx.failure) if cx.outcome else None
            g.nodes.append(n)
            if len(g.nodes) > limit:
                raise Inconclusive(f"automaton of thread {thread} has more than {limit} nodes")
            if not cx.outcome:
                todo.append(n)
        elif not cx.outcome and n.script != script and len(checks) < 400:
            checks.append((n, script))
        return n
    cx = run(())
    g.runs += 1
    g.start = node(cx, ())
    g.start_emits = list(cx.emits)
    while todo:
        n = todo.popleft()
        for r in spec.answers(n.desc, dom, thread):
            s = n.script + (r,)
            cx = run(s)
            g.runs += 1
            t = node(cx, s)
            n.edges.append((r, cx.trace[-1][2], tuple(cx.emits), t))
    for n, script in checks:                # merged nodes behave alike for one more step
        for r, reg, em, t in n.edges:
            cx = run(script + (r,))
            g.runs += 1
            key = (cx.outcome, cx.failure) if cx.outcome else (cx.pending, cx.fp)
            if index.get(key) is not t or tuple(cx.emits) != em:
                raise Inconclusive("merged control states behave differently")
    return g


class System:
    """all automata of a specification"""

    def __init__(self, spec):
        self.spec = spec
        dom = self.dom = Domain()
        for round in range(12):
            v = dom.version
            dom.log.clear()
            self.graphs = {"C": extract(spec, dom)}
            seen = {}
            for g in list(self.graphs.values()):
                for n in g.nodes:
                    if n.desc and n.desc[0] == "start":
                        seen.setdefault(n.desc[1], n.script)
            for oid, prefix in sorted(seen.items()):
                self.graphs[oid] = extract(spec, dom, oid, prefix)
                if any(n.desc and n.desc[0] == "start" for n in self.graphs[oid].nodes):
                    raise Inconclusive("threads started by threads")
            shared = {}
            for n, l in dom.log.items():
                who = {t for t, _ in l}
                if ("W", "w") in l and (who == {"C", "W"} or len(seen) > 1):
                    shared[n] = "all"
                elif ("C", "w") in l and ("W", "r") in l:
                    shared[n] = "cw"
            if shared != dom.shared:
                dom.shared = {**shared, **{n: v for n, v in dom.shared.items() if v == "all"}}
                for n in dom.shared:
                    dom.add_attr(n, dom.init[n]) if n in dom.init else None
                continue
            if dom.version == v:
                break
        else:
            raise Inconclusive("extraction does not settle")
        self.runs = sum(g.runs for g in self.graphs.values())

    def sizes(self):
        return {t: len(g.nodes) for t, g in self.graphs.items()}


# ------------------------------------------------------------------------------------------------ bounded model
NONBLOCK = {"is_set", "set", "clear", "src.get", "src.reset", "src.next", "src.steps", "read", "write", "notify", "append", "appendleft", "popleft", "pop",
            "clearq", "len", "alive", "unlock", "start"}
RAW = {"append", "appendleft", "popleft", "pop", "clearq", "len", "notify"}


def target(desc):
    """the object a step works on"""
    k = desc[0]
    if k.startswith("src."):
        return "src"
    if k in ("choose", "time"):
        return None
    if k in ("read", "write"):
        return "." + desc[1]
    return desc[1]


class Action:
    __slots__ = ("ops", "i")

    def __init__(self, ops, i): self.ops, self.i = ops, i


class Model:
    """the transition relation over bit-vectors, unrolled"""

    def __init__(self, system, K, n_max, buffered=None, quiet=("C",), stuck=None, old_worker=False):
        self.sys, self.spec, self.dom, self.K = system, system.spec, system.dom, K
        self.n_max, self.buffered, self.old_worker = n_max, buffered, old_worker
        self.must = quiet                   # threads that have to be finished when nobody can move ("*": all started)
        self.threads = sorted(system.graphs, key=lambda t: (t != "C", len(t), t))
        self.tid = {t: i + 1 for i, t in enumerate(self.threads)}
        self._analyse()
        kinds = {n.desc[0] for g in system.graphs.values() for n in g.nodes if n.desc}
        self.slots = {}
        for o, (k, cap) in self.dom.objects.items():
            if k == "Q":
                self.slots[o] = max(cap + 1, 1) + (len(self.threads) if kinds & {"append", "appendleft"} else 0) + (0 if cap else n_max + 2)
        self.BE, self.BP, self.BS = 3, 3, 3
        self.IW = 9
        self.SW = max(1, (len(self.dom.shapes) - 1).bit_length())
        self.nsteps = z3.BitVec("n", 3)
        self._fuse()
        self._sleepers()

    # ---- which steps cannot be told from steps at another moment
    def _analyse(self):
        graphs, C = self.sys.graphs, self.sys.graphs["C"]
        workers = [t for t in graphs if t != "C"]
        for n in C.nodes:
            n.active = frozenset()

        def after(n, r):
            a = n.active
            if n.desc[0] == "start" and r == "ok":
                a = a | {n.desc[1]}
            if (n.desc[0] == "join" and r in ("ok", "error")) or (n.desc[0] == "alive" and r[1] is False):
                a = a - {n.desc[1]}
            return a
        todo = [C.start]
        seen = {C.start.i}
        while todo:
            n = todo.pop()
            if n.desc is None:
                continue
            for r, _, _, m in n.edges:
                a = after(n, r)
                if m.i not in seen or not a <= m.active:
                    m.active |= a
                    seen.add(m.i)
                    todo.append(m)
        # values an attribute only the consumer writes may have while a thread is active
        cw = [a for a, k in self.dom.shared.items() if k == "cw"]
        vals = {n.i: {a: set() for a in cw} for n in C.nodes}
        for a in cw:
            vals[C.start.i][a].add(self.dom.init[a])
        todo = [C.start]
        first = {C.start.i}
        while todo:
            n = todo.pop()
            if n.desc is None:
                continue
            for r, _, _, m in n.edges:
                new = m.i not in first
                first.add(m.i)
                for a in cw:
                    out = {n.desc[2][0]} if n.desc[0] == "write" and n.desc[1] == a else vals[n.i][a]
                    if not out <= vals[m.i][a]:
                        vals[m.i][a] |= out
                        new = True
                if new:
                    todo.append(m)
        states = []                         # (active threads, values) of every situation of the consumer
        for n in C.nodes:
            if n.desc is None:
                continue
            states.append((n.active, vals[n.i]))
            for r, _, _, m in n.edges:
                if m.desc is None:
                    states.append((after(n, r), {a: {n.desc[2][0]} if n.desc[0] == "write" and n.desc[1] == a else vals[n.i][a] for a in cw}))
        self.seen = {t: {a: set().union(*[v[a] for act, v in states if t in act]) for a in cw} for t in workers}
        for t in workers:                   # answers that cannot come
            g, todo, keep = graphs[t], [graphs[t].start], {graphs[t].start.i}
            while todo:
                n = todo.pop()
                if n.desc and n.desc[0] == "read" and n.desc[1] in self.seen[t]:
                    n.edges = [e for e in n.edges if e[0][1] in self.seen[t][n.desc[1]]]
                for e in n.edges:
                    if e[3].i not in keep:
                        keep.add(e[3].i)
                        todo.append(e[3])
            g.nodes = [n for n in g.nodes if n.i in keep]
        for n in C.nodes:
            n.begun = frozenset()
        todo, first = [C.start], {C.start.i}
        while todo:
            n = todo.pop()
            for r, _, _, m in n.edges:
                b = n.begun | ({n.desc[1]} if n.desc[0] == "start" and r == "ok" else set())
                if m.i not in first or not b <= m.begun:
                    first.add(m.i)
                    m.begun |= b
                    todo.append(m)
        for n in C.nodes:
            if n.desc and n.desc[0] == "start" and n.desc[1] not in n.begun:
                n.edges = [e for e in n.edges if e[0] == "ok"]
            if n.desc and n.desc[0] == "alive" and n.desc[1] not in n.active:
                n.edges = [e for e in n.edges if e[0][1] is False]
            if n.desc and n.desc[0] == "join" and n.desc[1] not in n.begun:
                n.edges = [e for e in n.edges if e[0] == "error"]
        both = {frozenset((t, u)) for act, _ in states for t in act for u in act if t != u}
        ops = {t: [n for n in g.nodes if n.desc] for t, g in graphs.items()}
        touch = {t: {target(n.desc) for n in ns} for t, ns in ops.items()}
        self.conflict = {}                  # thread -> objects another thread may use at the same time
        for t in graphs:
            c = set()
            for u in workers:
                if t == u:
                    continue
                if t == "C":
                    continue                # decided per node
                if frozenset((t, u)) in both:
                    c |= touch[u]
            if t != "C":
                c |= {target(n.desc) for n in ops["C"] if t in n.active}
            self.conflict[t] = c
        self.worker_touch = {u: touch[u] for u in workers}
        self.protected = {q for q in self.dom.objects if all(q in n.held for ns in ops.values() for n in ns if n.desc[0] in RAW and n.desc[1] == q)}
        self.clean_ends = all(not n.held for g in graphs.values() for n in g.nodes if n.desc is None)

    def _local(self, t, n):
        """the step may be taken together with the one before it"""
        d = n.desc
        k = d[0]
        if k in ("choose", "time"):
            return True
        if k == "unlock":
            return True                     # left mover
        alone = t == "C" and not n.active
        if k in RAW and d[1] in n.held and d[1] in self.protected:
            return True
        if alone and (k in NONBLOCK or (k == "qsize" and d[1] not in n.held) or k == "join" or (k in ("get", "put") and d[2] == "nb" and d[1] not in n.held) or
                      (k == "lock" and self.clean_ends and d[1] not in n.held)):
            return True
        if k in ("start", "alive", "qsize") or k not in NONBLOCK:
            return False
        o = target(d)
        if t == "C":
            return not any(o in self.worker_touch[u] for u in n.active)
        return o not in self.conflict[t]

    def _possible(self, t, p, desc, r):
        """the answer can be ruled out beforehand"""
        if desc[0] != "read":
            return True
        if t != "C" and desc[1] in self.seen[t] and r[1] not in self.seen[t][desc[1]]:
            return False
        for d, q, _, _ in reversed(p):
            if d[:2] == desc[:2]:
                return q == r
            if d[0] == "write" and d[1] == desc[1]:
                return d[2][0] == r[1]
        return True

    def _fuse(self):
        self.edges = {}                     # thread -> [(src node, action index, target node)]
        self.actions = []
        index = {}
        for t, g in self.sys.graphs.items():
            out, seen, todo = [], {g.start.i}, [g.start]
            while todo:
                n = todo.pop()
                if n.desc is None:
                    continue
                work = [(((n.desc, r, reg, em),), m, 1) for r, reg, em, m in n.edges if self._possible(t, (), n.desc, r)]
                while work:
                    p, m, width = work.pop()
                    if m.desc is not None and self._local(t, m) and len(p) < 24 and (len(m.edges) == 1 or width * len(m.edges) <= (4 if m.desc[0] in ("choose", "time", "is_set", "src.get", "read") else 1)):
                        work += [(p + ((m.desc, r, reg, em),), mm, width * len(m.edges)) for r, reg, em, mm in m.edges if self._possible(t, p, m.desc, r)]
                        continue
                    if (t, p) not in index:
                        index[t, p] = Action(p, len(self.actions))
                        self.actions.append((t, index[t, p]))
                    out.append((n, index[t, p], m))
                    if m.i not in seen:
                        seen.add(m.i)
                        todo.append(m)
            self.edges[t] = out
        self.nodes = {t: sorted({n.i for n, _, _ in es} | {m.i for _, _, m in es} | {self.sys.graphs[t].start.i}) for t, es in self.edges.items()}

    def _sleepers(self):
        """(thread, queue, put or get) that may sleep on although the queue has changed: changed without a wake-up while the thread may be there"""
        self.sleepy = set()
        waits = {(t, n.desc[1], n.desc[0]) for t in self.threads for n in self.sys.graphs[t].nodes if n.desc and n.desc[0] in ("put", "get")}
        for u, a in self.actions:
            for j, (d, r, _, _) in enumerate(a.ops):
                kind = "get" if d[0] in ("append", "appendleft") else "put" if d[0] in ("clearq", "popleft", "pop") else None
                if kind is None or any(e[0] == "notify" and e[1] == d[1] and e[2] == {"get": "ne", "put": "nf"}[kind] for e, _, _, _ in a.ops[j:]):
                    continue
                for w in waits:
                    t = w[0]
                    if w[1:] == (d[1], kind) and t != u and (d[1] in self.conflict[t] if t != "C" else True):
                        if t != "C" and u == "C" and not any(t in n.active and n.desc == d for n in self.sys.graphs["C"].nodes if n.desc):
                            continue
                        self.sleepy.add(w)

    # ---- state
    def variables(self):
        v = {}
        for o, m in self.slots.items():
            v["len", o] = ("bv", (m + 1).bit_length())
            for j in range(m):
                v["shape", o, j] = ("bv", self.SW)
                v["item", o, j] = ("bv", self.IW)
        for o, (k, _) in self.dom.objects.items():
            if k in ("Q", "L"):
                v["own", o] = ("bv", 4)
            if k == "E":
                v["ev", o] = ("b", 0)
        for n in self.dom.shared:
            v["attr", n] = ("bv", max(1, (len(self.dom.attrs[n]) - 1).bit_length()))
        for f, w in (("ep", self.BP), ("step", self.BS), ("epoch", self.BE)):
            v["src", f] = ("bv", w)
        for t in self.threads:
            regs = {e[2] for n in self.sys.graphs[t].nodes for e in [(x[0], x[2], x[1]) for x in n.edges] if e[2] is not None}
            for r in regs:
                v["reg", t, r] = ("bv", self.IW)
            if any(w[0] == t for w in self.sleepy):
                v["zz", t] = ("b", 0)
        v["bad"] = ("b", 0)
        v["over"] = ("b", 0)
        return v

    def initial(self, S):
        c = []
        for k, x in S.items():
            if k[0] == "attr":
                c.append(x == self.dom.attrs[k[1]].index(self.dom.init[k[1]]))
            elif z3.is_bool(x):
                c.append(z3.Not(x))
            else:
                c.append(x == 0)
        return c

    def pack(self, epoch, ep, step):
        f = lambda v, w: z3.BitVecVal(v, w) if isinstance(v, int) else v
        return z3.simplify(z3.Concat(f(epoch, 3), f(ep, 3), f(step, 3)))

    def bv(self, S, k, v): return z3.BitVecVal(v, S[k].size())

    # ---- one operation
    def step(self, t, desc, resp, reg, emits, S, fin):
        """(guard, new state); S is not changed"""
        k, U, g = desc[0], dict(S), []
        tid = self.tid[t]
        rt = resp[0] if isinstance(resp, tuple) else resp

        def pop(q, back=False):
            ln = S["len", q]
            sh = self.dom.shapes.index(resp[1])
            m = self.slots[q]
            if not back:
                g.append(S["shape", q, 0] == sh)
                it = S["item", q, 0]
                for j in range(m - 1):
                    U["shape", q, j], U["item", q, j] = S["shape", q, j + 1], S["item", q, j + 1]
            else:
                it = S["item", q, 0]
                cur = S["shape", q, 0]
                for j in range(1, m):
                    it = z3.If(ln == j + 1, S["item", q, j], it)
                    cur = z3.If(ln == j + 1, S["shape", q, j], cur)
                g.append(cur == sh)
            U["len", q] = ln - 1
            if reg is not None:
                U["reg", t, reg] = it

        def push(q, val, left=False):
            ln, m = S["len", q], self.slots[q]
            sh, r = val
            sh = self.dom.shapes.index(sh)
            it = S["reg", t, r] if r is not None else z3.BitVecVal(0, self.IW)
            if left:
                for j in range(1, m):
                    U["shape", q, j], U["item", q, j] = S["shape", q, j - 1], S["item", q, j - 1]
                U["shape", q, 0], U["item", q, 0] = self.bv(S, ("shape", q, 0), sh), it
            else:
                for j in range(m):
                    U["shape", q, j] = z3.If(ln == j, self.bv(S, ("shape", q, j), sh), S["shape", q, j])
                    U["item", q, j] = z3.If(ln == j, it, S["item", q, j])
            U["over"] = z3.Or(S["over"], ln == m)
            U["len", q] = z3.If(ln == m, ln, ln + 1)

        def wake(q, kind):
            for u in self.threads:
                if ("zz", u) in S:
                    U["zz", u] = z3.And(U["zz", u], z3.Not(self.at_wait(u, q, kind)))
        if k in ("put", "get"):
            q = desc[1]
            cap = self.dom.objects[q][1]
            g.append(S["own", q] == 0)
            full = (S["len", q] >= cap) if cap else z3.BoolVal(False)
            if k == "put":
                if resp == "ok":
                    g.append(z3.Not(full))
                    if (desc[2] == "wait" or (desc[2] == "timed" and not self.expires(t))) and ("zz", t) in S:
                        g.append(z3.Not(S["zz", t]))
                    push(q, desc[3])
                    wake(q, "get")
                else:
                    g.append(full)
            else:
                if rt == "val":
                    g.append(S["len", q] != 0)
                    if (desc[2] == "wait" or (desc[2] == "timed" and not self.expires(t))) and ("zz", t) in S:
                        g.append(z3.Not(S["zz", t]))
                    pop(q)
                    wake(q, "put")
                else:
                    g.append(S["len", q] == 0)
            if ("zz", t) in S:
                U["zz", t] = z3.BoolVal(False)
        elif k in ("append", "appendleft"):
            push(desc[1], desc[2], k == "appendleft")
        elif k in ("popleft", "pop"):
            q = desc[1]
            if rt == "val":
                g.append(S["len", q] != 0)
                pop(q, k == "pop")
            else:
                g.append(S["len", q] == 0)
        elif k == "clearq":
            U["len", desc[1]] = self.bv(S, ("len", desc[1]), 0)
        elif k in ("qsize", "len"):
            q = desc[1]
            if k == "qsize":
                g.append(S["own", q] == 0)
            if resp[1] > self.slots[q]:
                g.append(z3.BoolVal(False))
            else:
                g.append(S["len", q] == resp[1])
        elif k == "lock":
            g.append(S["own", desc[1]] == 0)
            U["own", desc[1]] = z3.BitVecVal(tid, 4)
        elif k == "unlock":
            U["bad"] = z3.Or(S["bad"], S["own", desc[1]] != tid)
            U["own", desc[1]] = z3.BitVecVal(0, 4)
        elif k == "notify":
            wake(desc[1], {"ne": "get", "nf": "put"}.get(desc[2], "-"))
        elif k in ("set", "clear"):
            U["ev", desc[1]] = z3.BoolVal(k == "set")
        elif k == "is_set":
            g.append(S["ev", desc[1]] == resp[1])
        elif k == "ewait":
            g.append(S["ev", desc[1]] if resp == "ok" else z3.Not(S["ev", desc[1]]))
        elif k == "start":
            ns = z3.Not(self.started(desc[1], fin))
            g.append(ns if resp == "ok" else z3.Not(ns))
        elif k == "alive":
            a = z3.And(self.started(desc[1], fin), z3.Not(self.finished(desc[1], fin)))
            g.append(a if resp[1] else z3.Not(a))
        elif k == "join":
            s, f = self.started(desc[1], fin), self.finished(desc[1], fin)
            g.append({"ok": f, "error": z3.Not(s), "timeout": z3.And(s, z3.Not(f))}[resp])
        elif k == "read":
            vals = self.dom.attrs[desc[1]]
            g.append(S["attr", desc[1]] == vals.index(resp[1]))
        elif k == "write":
            U["attr", desc[1]] = self.bv(S, ("attr", desc[1]), self.dom.attrs[desc[1]].index(desc[2][0]))
        elif k == "src.get":
            st = S["src", "step"]
            here = z3.ULT(st, self.spec.L) if self.spec.L else z3.BoolVal(True)
            count = z3.ZeroExt(3, S["src", "ep"]) * self.spec.L + z3.ZeroExt(3, st)
            left = z3.ULT(count, z3.ZeroExt(3, self.nsteps)) if self.spec.finite else z3.BoolVal(True)
            if resp == "item":
                g += [here, left]
                U["reg", t, reg] = z3.Concat(S["src", "epoch"], S["src", "ep"], st)
                U["src", "step"] = st + 1
            elif resp == "ee":
                g.append(z3.Not(here))
            else:
                g += [here, z3.Not(left)]
            if self.old_worker and t != "C":
                later = [self.started(u, fin) for u in self.threads if u != "C" and self.tid[u] > self.tid[t]]
                if later:
                    U["bad"] = z3.Or(U["bad"], *later)
        elif k == "src.reset":
            U["src", "epoch"] = S["src", "epoch"] + 1
            U["src", "ep"] = self.bv(S, ("src", "ep"), 0)
            U["src", "step"] = self.bv(S, ("src", "step"), 0)
        elif k == "src.next":
            U["src", "ep"] = S["src", "ep"] + 1
            U["src", "step"] = self.bv(S, ("src", "step"), 0)
        elif k == "src.steps":
            g.append(self.spec.L - S["src", "step"] == resp[1])
        elif k in ("choose", "time"):
            pass
        else:
            raise Inconclusive(f"no meaning for step {k}")
        if self.buffered is not None and k in ("put", "append", "appendleft"):
            q = desc[1]
            hole = [z3.And(z3.UGT(U["len", q], j), z3.Or(*[U["shape", q, j] == i for i, s in enumerate(self.dom.shapes) if "hole" in repr(s)])) for j in range(self.slots[q])]
            U["bad"] = z3.Or(U["bad"], z3.Not(z3.AtMost(*hole, self.buffered)))
        for e in emits:
            U["bad"] = z3.Or(U["bad"], self.judge(e, t, U))
        return g, U

    def judge(self, e, t, S):
        """condition under which an observation breaks the property"""
        if e[0] == "bad":
            return z3.BoolVal(True)
        if e[0] == "deliver":
            if not (isinstance(e[1], tuple) and e[1][0] == "item"):
                return z3.BoolVal(True)
            if any(x > 7 for x in e[2]):
                raise Inconclusive("bounds too small for the program")
            return S["reg", t, e[1][1]] != self.pack(*e[2])
        if e[0] == "end":
            return self.nsteps != e[1]
        raise Inconclusive(f"observation {e[0]}")

    def expires(self, t): return self.spec.expiry or (self.spec.worker_expiry and t != "C")

    def started(self, t, at): return z3.Not(at[t]["none"]) if t in at else z3.BoolVal(False)

    def finished(self, t, at):
        if t not in at:
            return z3.BoolVal(False)
        return z3.Or(*[at[t][n.i] for n in self.sys.graphs[t].nodes if n.i in at[t] and n.desc is None] or [z3.BoolVal(False)])

    def at_wait(self, u, q, kind):
        """thread u waits in a put/get of queue q"""
        return z3.Or(*[self.cur[u][n.i] for n in self.sys.graphs[u].nodes if n.i in self.cur[u] and n.desc and n.desc[0] == kind and n.desc[1] == q] or [z3.BoolVal(False)])

    def touched(self, t, a):
        """objects whose steps do not commute with the action"""
        out = set()
        for desc, r, reg, em in a.ops:
            o = target(desc)
            if o is not None:
                out.add(o)
            if desc[0] == "src.get" and self.old_worker and t != "C":
                out |= {u for u in self.threads if u != "C" and self.tid[u] > self.tid[t]}
        if t != "C":
            out.add(t)
        return out

    # ---- unrolling
    def build(self):
        s = self
        self.cons = []
        V = self.variables()

        def fresh(i):
            return {k: z3.BitVec(f"{k}@{i}", w) if ty == "bv" else z3.Bool(f"{k}@{i}") for k, (ty, w) in V.items()}

        def pcs(i):
            return {t: {n: z3.Bool(f"at {t} {n}@{i}") for n in (["none"] if t != "C" else []) + self.nodes[t]} for t in self.threads}
        s.add(z3.ULE(self.nsteps, self.n_max))
        for j in range(self.n_max + 1):
            s.add(z3.Bool(f"n is {j}") == (self.nsteps == j))
        S, at = fresh(0), pcs(0)
        s.add(*self.initial(S))
        for t in self.threads:
            first = self.sys.graphs["C"].start.i if t == "C" else "none"
            s.add(*[at[t][n] if n == first else z3.Not(at[t][n]) for n in at[t]])
        self.runs, self.used = [], []
        self.states, self.pcs, self.fires, self.dozes, self.idles, self.enabled = [S], [at], [], [], [], []
        bynode = {t: collections.defaultdict(list) for t in self.threads}
        into = {t: collections.defaultdict(list) for t in self.threads}
        for t in self.threads:
            for x, (n, a, m) in enumerate(self.edges[t]):
                bynode[t][n.i].append(x)
                into[t][m.i].append(x)
        for i in range(self.K):
            self.cur = at
            D = dict(S)
            doze = {}
            for t in self.threads:
                if ("zz", t) not in S:
                    continue
                cond = []
                for n in self.sys.graphs[t].nodes:
                    if n.i not in at[t] or not n.desc or n.desc[0] not in ("put", "get"):
                        continue
                    q, kind = n.desc[1], n.desc[0]
                    if n.desc[2] == "nb" or (n.desc[2] == "timed" and self.expires(t)):
                        continue
                    cap = self.dom.objects[q][1]
                    if kind == "put" and (t, q, kind) in self.sleepy and cap:
                        cond.append(z3.And(at[t][n.i], S["len", q] >= cap))
                    if kind == "get" and (t, q, kind) in self.sleepy:
                        cond.append(z3.And(at[t][n.i], S["len", q] == 0))
                if cond:
                    d = doze[t] = z3.Bool(f"doze {t}@{i}")
                    s.add(z3.Implies(d, z3.Or(*cond)))
                    D["zz", t] = z3.Or(S["zz", t], d)
            guards, results = {}, {}
            for t, a in self.actions:
                g, U = [], D
                for desc, r, reg, em in a.ops:
                    g1, U = self.step(t, desc, r, reg, em, U, at)
                    g += g1
                guards[a.i] = z3.And(*g) if g else z3.BoolVal(True)
                results[a.i] = {k: U[k] for k in U if not (U[k] is D[k])}
            idle = z3.Bool(f"idle@{i}")
            run = {t: z3.Bool(f"run {t}@{i}") for t in self.threads}
            fire = {t: [z3.Bool(f"fire {t} {x}@{i}") for x in range(len(self.edges[t]))] for t in self.threads}
            s.add(exactly_one([idle] + list(run.values())))
            if i:
                s.add(z3.Implies(self.idles[-1], idle))
            en = []
            act = collections.defaultdict(list)
            for t in self.threads:
                for n, xs in bynode[t].items():
                    fs = [fire[t][x] for x in xs]
                    s.add(z3.Implies(z3.And(run[t], at[t][n]), z3.Or(*fs)))
                    for y in range(len(fs)):
                        for z in range(y):
                            s.add(z3.Or(z3.Not(fs[y]), z3.Not(fs[z])))
                for n in at[t]:
                    if n not in bynode[t]:
                        s.add(z3.Not(z3.And(run[t], at[t][n])))
                gname = {}
                for x, (n, a, m) in enumerate(self.edges[t]):
                    s.add(z3.Implies(fire[t][x], z3.And(run[t], at[t][n.i])))
                    act[a.i].append(fire[t][x])
                    en.append((at[t][n.i], a.i))
            gv = {}
            av = {}
            for ai, fs in act.items():
                gv[ai] = z3.Bool(f"guard {ai}@{i}")
                s.add(gv[ai] == guards[ai])
                av[ai] = z3.Bool(f"act {ai}@{i}")
                s.add(av[ai] == z3.Or(*fs))
                s.add(z3.Implies(av[ai], gv[ai]))
            self.enabled.append(z3.Or(*[z3.And(p, gv[ai]) for p, ai in en]))
            S2, at2 = fresh(i + 1), pcs(i + 1)
            for k in S:
                e = D[k]
                for ai, U in results.items():
                    if k in U and ai in av:
                        e = z3.If(av[ai], U[k], e)
                s.add(S2[k] == e)
            starts = collections.defaultdict(list)
            for t, a in self.actions:
                for desc, r, reg, em in a.ops:
                    if desc[0] == "start" and r == "ok" and a.i in av:
                        starts[desc[1]].append(av[a.i])
            for t in self.threads:
                go = z3.Or(*starts[t]) if t != "C" else z3.BoolVal(False)
                for n in at[t]:
                    stay = z3.And(at[t][n], z3.Not(run[t]))
                    if n == "none":
                        e = z3.And(at[t][n], z3.Not(go))
                    else:
                        e = z3.Or(stay, *[fire[t][x] for x in into[t][n]])
                        if t != "C" and n == self.sys.graphs[t].start.i:
                            e = z3.Or(e, go)
                    s.add(at2[t][n] == e)
            uses = collections.defaultdict(list)
            for t, a in self.actions:
                if a.i in av:
                    for o in self.touched(t, a):
                        uses[o].append(av[a.i])
            uses = {o: z3.Or(*l) for o, l in uses.items()}
            if i:                           # independent steps in one order only
                for x, u in enumerate(self.threads):
                    for t in self.threads[:x]:
                        s.add(z3.Or(z3.Not(self.runs[-1][u]), z3.Not(run[t]), *[z3.And(self.used[-1][o], uses[o]) for o in uses if o in self.used[-1]]))
            self.runs.append(run)
            self.used.append(uses)
            self.fires.append(fire)
            self.dozes.append(doze)
            self.idles.append(idle)
            S, at = S2, at2
            self.states.append(S)
            self.pcs.append(at)
        return self

    def unfinished(self, i):
        """somebody who should have come to an end has not"""
        at, c = self.pcs[i], []
        for t in self.threads:
            if t == "C" or "*" in self.must:
                busy = z3.Not(self.finished(t, at))
                c.append(busy if t == "C" else z3.And(self.started(t, at), busy))
        return z3.Or(*c)

    def add(self, *c): self.cons.extend(c)

    def ask(self, queries, limit):
        """{name: conditions} -> {name: set of the Booleans that are true, or None}, seconds; all at the same time.

        z3 turns the problem into clauses; kissat decides them where it is installed, z3 otherwise."""
        d = tempfile.mkdtemp(prefix="bmc")
        t0 = real_time.time()
        procs, out, took = {}, {}, {}
        kissat = shutil.which("kissat")
        try:
            for name, conds in queries.items():
                g = z3.Goal()
                g.add(*self.cons, *conds)
                if kissat is None:
                    s = z3.Then("simplify", "card2bv", "propagate-values", "bit-blast", "sat").solver()
                    s.set("timeout", int(limit * 1000))
                    s.add(*self.cons, *conds)
                    r = s.check()
                    if r == z3.unknown:
                        raise Inconclusive(f"{name}: solver gave up")
                    m = s.model() if r == z3.sat else None
                    out[name] = None if m is None else {v.name() for v in m.decls() if z3.is_true(m[v])}
                    took[name] = real_time.time() - t0
                    continue
                r = z3.Then("simplify", "card2bv", "propagate-values", "bit-blast", "tseitin-cnf")(g)[0]
                f = os.path.join(d, f"{len(procs)}.cnf")
                text = r.dimacs()
                with open(f, "w") as h:
                    h.write(text)
                names = {}
                for line in text[text.rfind(" 0\n") + 1:].splitlines():
                    p = line.split(" ", 2)
                    if p[0] == "c" and p[1].isdigit():
                        names[int(p[1])] = p[2]
                p = subprocess.Popen([kissat, "-q", f"--time={int(limit)}", f], stdout=open(f + ".out", "w"), stderr=subprocess.STDOUT)
                procs[name] = (p, f + ".out", names)
            for name, (p, o, names) in procs.items():
                rc = p.wait()
                took[name] = real_time.time() - t0
                if rc == 20:
                    out[name] = None
                elif rc == 10:
                    lits = [int(x) for l in open(o) if l.startswith("v ") for x in l[2:].split()]
                    out[name] = {names[x] for x in lits if x > 0 and x in names}
                else:
                    raise Inconclusive(f"{name}: solver gave up after {took[name]:.0f} s")
        finally:
            for p, _, _ in procs.values():
                if p.poll() is None:
                    p.kill()
                    p.wait()
            shutil.rmtree(d, ignore_errors=True)
        return out, took

    def bad_step(self): return self.states[self.K]["bad"]

    def stuck(self): return z3.And(self.idles[-1], z3.Not(self.enabled[-1]), self.unfinished(self.K))
    def running(self): return z3.Not(self.idles[-1])
    def overflow(self): return self.states[self.K]["over"]

    def schedule(self, true):
        """[(thread, ((desc, answer), ...), threads that fell asleep before)], value of n"""
        out = []
        for i in range(self.K):
            doze = [t for t, d in self.dozes[i].items() if d.decl().name() in true]
            if self.idles[i].decl().name() in true:
                out.append((None, (), doze))
                break
            for t in self.threads:
                for x, f in enumerate(self.fires[i][t]):
                    if f.decl().name() in true:
                        out.append((t, tuple((d, r) for d, r, _, _ in self.edges[t][x][1].ops), doze))
        return out, next((j for j in range(self.n_max + 1) if f"n is {j}" in true), 0)


# ------------------------------------------------------------------------------------------------ replay
class Batch:
    """a batch of the concrete source"""

    def __init__(self, epoch, ep, step): self.where = (epoch, ep, step)
    def __repr__(self): return f"batch{self.where}"


class _Abort(BaseException):
    pass


class Replay:
    """real threads run the real methods; the schedule says whose turn it is.  Queues and events are real."""

    def __init__(self, spec, schedule, n, dom, buffered=None, old_worker=False, must=("C",)):
        self.spec, self.n, self.dom = spec, n, dom
        self.buffered, self.old_worker, self.must = buffered, old_worker, must
        self.L, self.EpisodeEnd = spec.L, spec.EpisodeEnd
        self.todo = [(t, d, r, z if j == 0 else []) for t, ops, z in schedule for j, (d, r) in enumerate(ops)]
        self.cond = real_threading.Condition()
        self.pos = 0
        self.failed, self.diverged = [], None
        self.local = real_threading.local()
        self.q, self.ev, self.own, self.src = {}, {}, {}, [0, 0, 0]
        self.state = {}                     # thread -> none | running | end
        self.waiting = {}                   # thread -> description of the step it wants to take
        self.asleep = set()
        self.counts = collections.Counter()
        self.objs, self.real, self.clock, self.item = {}, {}, {}, {}
        self.subject, self.in_init, self.stop = None, True, False
        self.log = []

    # interface of the stand-ins
    def new(self, kind, param, obj):
        t = self.me_id()
        n = self.counts[t, kind]
        self.counts[t, kind] += 1
        oid = f"{'' if t == 'C' else t}{kind}{n}"
        self.objs[oid] = obj
        if kind == "Q":
            self.q[oid] = real_queue.Queue(param)
        if kind == "E":
            self.ev[oid] = real_threading.Event()
        if kind == "T":
            self.state[oid] = "none"
        return oid

    def me_id(self): return getattr(self.local, "t", "C")
    def me(self): return self.objs.get(self.me_id()) or types.SimpleNamespace(name="MainThread", daemon=False, ident=1)
    def shape(self, v): return v
    def value(self, r): return r[1]
    def batch(self): return Batch(*self.item[self.me_id()])
    def call_key(self, c): return None
    def hold(self, *a): pass
    def dead(self): return self.stop
    def elapsed(self, t):
        if t:
            self.clock[self.me_id()] = self.clock.get(self.me_id(), 0.0) + float(t)

    def now(self):
        if self.spec.expiry and self.op("time")[1]:
            self.elapsed(1000.0)
        return TimeVal(self.clock.get(self.me_id(), 0.0))

    def attr_read(self, me, n, d):
        if self.subject is None or self.in_init or self.stop or me is not self.subject:
            return d[n]
        sh = self.dom.shared.get(n)
        if sh == "all" or (sh == "cw" and self.me_id() != "C"):
            self.op("read", n)
        return d[n]

    def attr_write(self, me, n, v, d):
        if not (self.in_init or self.stop) and n in self.dom.shared:
            self.op("write", n, v)
        d[n] = v

    def emit(self, kind, args):
        if kind == "bad":
            self.fail(args[0])
        if kind == "deliver" and not (builtins.isinstance(args[0], Batch) and args[0].where == tuple(args[1])):
            self.fail(f"delivered {args[0]!r} instead of batch{tuple(args[1])}")
        if kind == "end" and args[0] != self.n:
            self.fail(f"ended after {args[0]} of {self.n} batches")

    def fail(self, what):
        self.failed.append(what)

    # scheduling
    def op(self, *desc):
        t = self.me_id()
        with self.cond:
            self.waiting[t] = desc
            self.cond.notify_all()
            while True:
                if self.stop:
                    raise _Abort
                if self.pos < len(self.todo) and self.todo[self.pos][0] == t and all(x != "running" or u in self.waiting for u, x in self.state.items()):
                    break
                self.cond.wait(0.2)
            _, d, r, z = self.todo[self.pos]
            self.asleep |= set(z)
            if tuple(d[:2]) != tuple(desc[:2]) and not (d[0] == desc[0] and len(desc) == 1):
                self.diverge(f"{t} does {desc[:2]} where the model has {d[:2]}")
            got = self.perform(t, desc, r)
            self.log.append((t, desc[0], got if not builtins.isinstance(got, tuple) else got[1]))
            self.pos += 1
            self.waiting.pop(t, None)
            self.cond.notify_all()
            return got

    def diverge(self, why):
        self.diverged = self.diverged or why
        self.stop = True
        self.cond.notify_all()
        raise _Abort

    def expect(self, ok, why):
        if not ok:
            self.diverge(why)

    def wake(self, q, kind):
        for u in list(self.asleep):
            w = self.waiting.get(u)
            if w and w[0] == kind and w[1] == q:
                self.asleep.discard(u)

    def perform(self, t, desc, r):
        k = desc[0]
        rt = r[0] if builtins.isinstance(r, tuple) else r
        if k in ("put", "get"):
            q = self.q[desc[1]]
            self.expect(self.own.get(desc[1]) is None, "queue is locked")
            timed_out = desc[2] == "timed"
            self.expect(t not in self.asleep or timed_out, f"{t} sleeps")
            self.asleep.discard(t)
            try:
                if k == "put":
                    q.put_nowait(desc[3])
                    got = "ok"
                else:
                    got = ("val", q.get_nowait())
            except (real_queue.Full, real_queue.Empty) as e:
                got = "full" if k == "put" else "empty"
            self.expect((got if k == "put" else ("val" if builtins.isinstance(got, tuple) else got)) == rt, f"{k} gives {got}")
            if got != "full" and got != "empty":
                self.wake(desc[1], "get" if k == "put" else "put")
            self.full(q)
            return got
        if k in ("append", "appendleft"):
            getattr(self.q[desc[1]].queue, k)(desc[2])
            self.full(self.q[desc[1]])
            return "ok"
        if k in ("popleft", "pop"):
            d = self.q[desc[1]].queue
            return ("val", getattr(d, k)()) if d else "empty"
        if k == "clearq":
            self.q[desc[1]].queue.clear()
            return "ok"
        if k in ("qsize", "len"):
            return ("n", len(self.q[desc[1]].queue))
        if k == "lock":
            self.expect(self.own.get(desc[1]) is None, "lock is taken")
            self.own[desc[1]] = t
            return "ok"
        if k == "unlock":
            if self.own.get(desc[1]) != t:
                self.fail("released a lock it does not hold")
            self.own[desc[1]] = None
            return "ok"
        if k == "notify":
            self.wake(desc[1], {"ne": "get", "nf": "put"}.get(desc[2], "-"))
            return "ok"
        if k in ("set", "clear"):
            getattr(self.ev[desc[1]], k)()
            return "ok"
        if k == "is_set":
            return ("b", self.ev[desc[1]].is_set())
        if k == "ewait":
            got = "ok" if self.ev[desc[1]].is_set() else "timeout"
            self.expect(got == r, "event")
            return got
        if k == "start":
            if self.state[desc[1]] != "none":
                return "error"
            self.launch(desc[1])
            return "ok"
        if k == "alive":
            return ("b", self.state[desc[1]] == "running")
        if k == "join":
            s = self.state[desc[1]]
            got = {"none": "error", "end": "ok", "running": "timeout"}[s]
            self.expect(got == r, f"join gives {got}")
            return got
        if k == "src.get":
            if self.old_worker and t != "C" and any(s != "none" and len(u) == len(t) and u > t for u, s in self.state.items()):
                self.fail(f"the worker of an earlier run ({t}) takes data from the source although the next run has begun")
            if self.spec.L and self.src[2] >= self.L:
                return "ee"
            if self.spec.finite and self.src[1] * self.L + self.src[2] >= self.n:
                return "stop"
            self.item[t] = tuple(self.src)
            self.src[2] += 1
            return "item"
        if k == "src.reset":
            self.src = [self.src[0] + 1, 0, 0]
            return "ok"
        if k == "src.next":
            self.src = [self.src[0], self.src[1] + 1, 0]
            return "ok"
        if k == "src.steps":
            return ("n", self.L - self.src[2])
        return r                            # choose, time, read, write

    def full(self, q):
        if self.buffered is not None and sum(builtins.isinstance(x, Batch) or (builtins.isinstance(x, (tuple, list)) and any(builtins.isinstance(y, Batch) for y in x)) for x in q.queue) > self.buffered:
            self.fail(f"more than {self.buffered} batches are buffered")

    def launch(self, oid):
        target_, args, kw = self.objs[oid]._call
        self.state[oid] = "running"

        def body():
            self.local.t = oid
            try:
                target_(*args, **kw)
            except BaseException:
                pass
            with self.cond:
                if not self.stop:
                    self.state[oid] = "end"
                self.waiting.pop(oid, None)
                self.cond.notify_all()
        th = self.real[oid] = real_threading.Thread(target=body, daemon=True)
        th.start()

    def blocked(self, t):
        """the step thread t wants to take cannot be taken"""
        d = self.waiting.get(t)
        if d is None:
            return False
        if d[0] == "put":
            q = self.q[d[1]]
            return self.own.get(d[1]) is not None or ((t in self.asleep or 0 < q.maxsize <= len(q.queue)) and d[2] != "nb" and not (d[2] == "timed" and self.exp(t)))
        if d[0] == "get":
            q = self.q[d[1]]
            return self.own.get(d[1]) is not None or ((t in self.asleep or not q.queue) and d[2] != "nb" and not (d[2] == "timed" and self.exp(t)))
        if d[0] == "lock":
            return self.own.get(d[1]) is not None
        if d[0] == "join":
            return self.state[d[1]] == "running" and not (d[2] == "timed" and self.exp(t))
        if d[0] == "ewait":
            return not self.ev[d[1]].is_set() and not (d[2] == "timed" and self.exp(t))
        return False

    def exp(self, t): return self.spec.expiry or (self.spec.worker_expiry and t != "C")

    def run(self, final_sleepers=()):
        """what goes wrong: list of texts (empty: nothing)"""
        global CX
        CX = self
        self.state["C"] = "running"
        err = []
        try:
            with patched_module(self.spec.mod):
                p = self.spec.build(self)

                def body():
                    self.local.t = "C"
                    try:
                        self.spec.program(Harness(), p)
                    except _Abort:
                        pass
                    except BaseException as e:
                        err.append(f"unexpected {e!r}")
                    with self.cond:
                        if not self.stop:
                            self.state["C"] = "end"
                        self.waiting.pop("C", None)
                        self.cond.notify_all()
                th = self.real["C"] = real_threading.Thread(target=body, daemon=True)
                th.start()
                with self.cond:
                    end = real_time.time() + 60
                    while not self.stop:
                        quiet = all(s != "running" or t in self.waiting for t, s in self.state.items())
                        if quiet and self.pos >= len(self.todo):
                            break
                        if quiet and self.todo[self.pos][0] is not None and self.state.get(self.todo[self.pos][0]) in ("none", "end", None):
                            self.diverged = f"{self.todo[self.pos][0]} is not running"
                            break
                        if real_time.time() > end:
                            self.diverged = "replay hangs"
                            break
                        self.cond.wait(0.2)
                    self.asleep |= set(final_sleepers)
                    if not self.diverged:
                        alive = [t for t, s in self.state.items() if s == "running"]
                        if alive and all(self.blocked(t) for t in alive):
                            for t in alive:
                                if t == "C" or "*" in self.must:
                                    who = "the caller" if t == "C" else f"background thread {t}"
                                    self.fail(f"{who} waits for ever in {self.waiting[t][0]} of {self.waiting[t][1]}")
                        self.failed += err
                    self.stop = True
                    self.cond.notify_all()
                for th in list(self.real.values()):
                    th.join(5)
        finally:
            CX = None
        if self.diverged:
            raise Inconclusive(f"model and code disagree: {self.diverged}")
        return self.failed


# ------------------------------------------------------------------------------------------------ verdict
def mine(cases, offset=0):
    """the share of this process"""
    return [c for i, c in enumerate(cases, offset) if not SHARD or i % SHARD[1] == SHARD[0]]


def decide(ck, name, spec, n_max, depth=24, deepest=300, budget=None, buffered=None, must=("C",), old_worker=False):
    """every schedule of the program: nothing bad is observed and nobody is left waiting"""
    t0 = real_time.time()
    budget = budget or (450 if TIER == "quick" else 2400)
    system = System(spec)
    exhausted, done = False, None
    while True:
        t1 = real_time.time()
        m = Model(system, depth, n_max, buffered=buffered, quiet=must, old_worker=old_worker)
        m.build()

        queries = {"deeper schedules": [m.running()], "wrong observation": [m.bad_step()], "left waiting": [m.stuck()], "storage of the model": [m.overflow()]}
        ends = [m.idles[-1], m.finished("C", m.pcs[m.K]), m.nsteps == n_max]
        queries["a run with every thread"] = ends + [z3.Not(m.pcs[m.K][t]["none"]) for t in m.threads if t != "C"]
        try:
            res, took = m.ask(queries, max(budget - (real_time.time() - t0), 60 if done else 5))
        except Inconclusive:
            if done is None:
                raise
            depth, m, res = done            # the deepest round that was decided counts
            break
        for q, r in res.items():
            ck.note_query(f"{name}: {q}", took[q], "unsat" if r is None else "sat")
        for what in ("wrong observation", "left waiting"):
            ck.obl += 1
            r = res[what]
            if r is None:
                ck.discharged += 1
                continue
            sch, n = m.schedule(r)
            rep = Replay(spec, [x for x in sch if x[1]], n, system.dom, buffered, old_worker, must)
            failed = rep.run([t for x in sch if not x[1] for t in x[2]])
            ck.replays += 1
            if not failed:
                raise Inconclusive(f"{name}: a schedule of the model is harmless on the real code: {sch}")
            ck.violation(f"{name}/{what}", f"{failed[0]} (source of {n}, schedule of {len(rep.log)} steps)" if not spec.L else f"{failed[0]} (schedule of {len(rep.log)} steps)",
                         {"steps": [list(map(str, x)) for x in rep.log], "failures": failed})
            return
        if res["deeper schedules"] is None:
            exhausted = True
            break
        round_ = real_time.time() - t1
        if depth >= deepest or real_time.time() - t0 + 1.5 * round_ > budget:
            break
        done = depth, m, res
        depth = int(depth * 1.4)
    # a run that reaches the end with everything started, on the real code
    if res["a run with every thread"] is None:
        more, took = m.ask({"a run": [m.idles[-1], m.finished("C", m.pcs[m.K]), m.nsteps == n_max]}, 120)
        ck.note_query(f"{name}: a run", took["a run"], "unsat" if more["a run"] is None else "sat")
        res.update(more)
    if res["storage of the model"] is not None:
        raise Inconclusive(f"{name}: the model's storage is too small")
    r = res["a run with every thread"] or res.get("a run")
    if r is None:
        raise Inconclusive(f"{name}: no schedule reaches the end")
    sch, n = m.schedule(r)
    rep = Replay(spec, [x for x in sch if x[1]], n, system.dom, buffered, old_worker, must)
    failed = rep.run([t for x in sch if not x[1] for t in x[2]])
    if failed:
        raise Inconclusive(f"{name}: the real code fails where the model does not: {failed}")
    ck.witness += 1
    ck.replays += 1
    ck.sample({"program": name, "schedule": " ".join(f"{t}:{k}" for t, k, _ in rep.log)})
    info = ck.extra.setdefault("programs", {})
    info[name] = {"control states": system.sizes(), "real executions for extraction": system.runs, "steps": depth, "every schedule ends within the steps": exhausted,
                  "seconds": round(real_time.time() - t0, 1)}


def exactly_one(xs):
    return z3.And(z3.Or(*xs), *[z3.Or(z3.Not(a), z3.Not(b)) for i, a in enumerate(xs) for b in xs[:i]])
