"""Key hygiene of a generated batch."""
from vlib.common import main, fingerprint, TIER
from vlib.gen import *
import jax


class PairInterp(Interp):
    """The loop over pairs is executed twice with symbolic pair numbers i and j instead of 0..B-1."""
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.done = False
        self.marks = []

    def p_scan(self, e, i, p):
        if self.done or any(True for _ in self.marks):
            return super().p_scan(e, i, p)
        nc, nk = p["num_consts"], p["num_carry"]
        consts, carry, xs = i[:nc], list(i[nc:nc + nk]), i[nc + nk:]
        n = p["length"]
        isidx = [x.ndim == 1 and all(not is_z(v) and not isinstance(v, (KeyTerm, KeyWord, Fraction)) and v == q for q, v in enumerate(x)) for x in xs]
        if not any(isidx):
            return super().p_scan(e, i, p)
        self.done = True
        self.pre = (list(self.draws), list(self.key_uses))
        self.bodies = []
        outs = None
        for name in ("i", "j"):
            v = z3.Int("pair_" + name)
            args = [np.array(v, dtype=object) if s else (x[0] if isinstance(x[0], np.ndarray) else np.array(x[0], dtype=object)) for s, x in zip(isidx, xs)]
            nd, nu = len(self.draws), len(self.key_uses)
            out = self._call(p["jaxpr"], list(consts) + carry + args)
            self.bodies.append((self.draws[nd:], self.key_uses[nu:]))
            for c0, c1 in zip(carry, out[:nk]):
                a, b = np.asarray(c0, dtype=object), np.asarray(c1, dtype=object)
                if not all((x.eq(y) if is_z(x) and is_z(y) else (not is_z(x) and not is_z(y) and x == y)) for x, y in zip(a.reshape(-1), b.reshape(-1))):
                    raise Carry()
        raise Stop()


class Stop(Exception):
    pass


class Carry(Exception):
    pass


def parents(t):
    while t[0] == "child":
        t = t[1]
        yield t


def replay(ck, g, what):
    """two draws of a real batch coincide: look at the actual key words reaching the samplers"""
    uses = []

    class Run(ConcreteRun):
        def one(self, eqn, ins):
            n = eqn.primitive.name
            if n in ("jit", "pjit"):
                if eqn.params.get("name") in ("_uniform", "uniform", "_randint", "randint", "_normal", "_normal_real"):
                    k = ins[0]
                    kd = np.asarray(jax.random.key_data(k) if jnp.issubdtype(k.dtype, jax.dtypes.prng_key) else k).reshape(-1, 2)
                    for row in kd:
                        uses.append((tuple(int(x) for x in row), eqn.params["name"], tuple(eqn.outvars[0].aval.shape)))
                    f = jax.jit(lambda *a: self.ev(eqn.params["jaxpr"].jaxpr, eqn.params["jaxpr"].consts, a))
                    return self.ev(eqn.params["jaxpr"].jaxpr, eqn.params["jaxpr"].consts, ins)
                return self.ev(eqn.params["jaxpr"].jaxpr, eqn.params["jaxpr"].consts, ins)
            return super().one(eqn, ins)
    res = []
    for seed in (0, 1):
        uses = []
        r = Run()
        out = r.run(g.jp, [jax.random.PRNGKey(seed), np.zeros(g.sflow.shape, np.float32), np.ones(g.image, np.float32)] + [0.5 for _ in g.names])
        res.append((list(uses), [np.asarray(o) for o in out]))
    seen = {}
    for n, (k, kind, shape) in enumerate(res[0][0]):
        if k in seen:
            return ck.violation("key-reuse", f"draws {seen[k]} and {n} ({kind}{shape}) of one batch use the same key {k}: {what}", {})
        seen[k] = n
    for n, (a, b) in enumerate(zip(res[0][0], res[1][0])):
        if a[0] == b[0]:
            return ck.violation("key-ignored", f"draw {n} ({a[1]}{a[2]}) uses key {a[0]} whatever key the caller gives: {what}", {})
    return False


def body(ck):
    quick = TIER == "quick"
    confs = [dict(B=3)] if quick else [dict(B=3), dict(B=6, nflows=1), dict(B=4, nflows=4, mask=True)]
    ck.bounds = f"configurations {confs}; and, through the loop body with two symbolic pair numbers, any two pairs of a batch of any size."
    for conf in confs:
        g = Gen(**conf)
        zf = concrete_to_o(np.zeros(g.sflow.shape))
        it = g.run(ck, flows=zf, resolve=False)
        K = key_sort()

        def decide(name, draws, uses, hyp, symidx):
            roots = {}
            ks = [key_z3(d["key"], K, roots, symidx) for d in draws]
            par = {}
            for d in draws:
                for t in parents(d["key"].t):
                    par[repr(KeyTerm(t))] = KeyTerm(t)
            ck.reachable("vacuity", hyp + [ks[0] == ks[0]])
            for a in range(len(ks)):
                for b in range(a):
                    ck.prove(f"{name}-distinct", hyp, ks[a] != ks[b], lambda m: replay(ck, g, f"{draws[b]['kind']}{draws[b]['shape']} and {draws[a]['kind']}{draws[a]['shape']}"))
                for r, t in par.items():
                    ck.prove(f"{name}-not-a-parent", hyp, ks[a] != key_z3(t, K, roots, symidx), lambda m: replay(ck, g, f"key {r} is both consumed and split"))
            ck.prove(f"{name}-only-caller-key", [], set(roots) == {"key"} and not it.nondet_keys, lambda m: replay(ck, g, f"randomness from {sorted(set(roots) - {'key'})}"))
        if not it.draws:
            ck.prove("random-draws", [], False, lambda m: replay(ck, g, "no random draws"))
            return
        # 1. the whole batch
        decide("batch", it.draws, it.key_uses, [], it.sym_index)
        # 2. any two pairs i != j of a batch of any size (loop body executed with symbolic pair numbers)
        ip = PairInterp(ck, g.base)
        ip.resolve = False
        try:
            ip.run(g.jp, g.args(zf))
            ck.extra["any-batch-size"] = "pair loop not in scan form; only the concrete batch decided"
        except Stop:
            i, j = z3.Ints("pair_i pair_j")
            draws = ip.pre[0] + ip.bodies[0][0] + ip.bodies[1][0]
            decide("any-pairs", draws, None, [i >= 0, j >= 0, i != j], ip.sym_index)
            ck.extra["any-batch-size"] = "decided for any two pair numbers"
        except (Carry, Inconclusive) as ex:
            ck.extra["any-batch-size"] = f"loop carries state ({ex!r}); only the concrete batch decided"
        ck.sample(f"{conf}: {len(it.draws)} draws, e.g. {[(d['kind'], d['shape'], repr(d['key'])) for d in it.draws[:4]]}")


if __name__ == "__main__":
    main("G07", body, functions=fingerprint(GEN, repo.generate.add_noise_to_image),
         assumptions=["key derivation (split, fold_in) is collision free; split(k,n)[i] and fold_in(k,i) are the same key (JAX's partitionable threefry)",
                      "draws from different keys are independent"],
         outside="statistical quality of the generator.")
