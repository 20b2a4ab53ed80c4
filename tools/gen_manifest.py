"""Writes /verif/MANIFEST.json from the properties and the checks present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
JAX = ("SMT (z3) over the jaxpr of the real JAX functions",
       "Bounded: z3 decides every obligation for all real/integer inputs and all random outcomes of the stated shapes; the jaxpr is traced from /repo on every run. "
       "Trusts the jaxpr interpreter (vlib/jaxsmt.py), z3, and float32-as-exact-reals; counterexamples are replayed on the real function before being reported.")
PY = ("SMT (z3) symbolic execution of the real Python code, all paths within bounds",
      "Bounded: the real class is re-executed with symbolic values until every feasible path within the stated sizes is covered; each path's assertion is discharged by z3. "
      "Trusts the path explorer (vlib/symx.py), the stubs for files and logging listed in the evidence, and z3; counterexamples are replayed with concrete values.")
CONC = ("SMT bounded model checking of all thread interleavings extracted from the real code",
        "Bounded: thread programs are extracted from the real prefetcher by executing it against symbolic queue/event objects; z3 decides the property over all schedules of bounded length; "
        "counterexample schedules are replayed on the real code with controlled threads. Trusts the extraction (vlib/conc.py), queue.Queue/Event semantics, z3 (encoding, bit-blasting) and the SAT solver kissat it hands the clauses to (z3 alone where kissat is absent).")
KIND = {**{f"A0{i}": JAX for i in range(1, 7)}, **{f"G0{i}": JAX for i in range(1, 9)},
        **{f"S0{i}": PY for i in range(1, 6)}, **{f"D0{i}": PY for i in range(1, 9)},
        **{f"C0{i}": PY for i in (1, 2, 3, 4, 5, 7)}, **{f"P0{i}": CONC for i in range(1, 4)}}
NA = {
 "C06": "the guarantee lives in a line-oriented text rewrite (regular-expression substitution over YAML) plus the YAML grammar of ruamel/PyYAML, both of which would have to be encoded as string constraints over unbounded documents; a solver encoding of the YAML parser is out of reach, and sampling documents is not this technique.",
 "C08": "bit-level IEEE-754 float32 encodings of the rendering and interpolation kernels (exp, sums over hundreds of terms, XLA's fusion and reassociation choices) are beyond z3/cvc5 floating-point theories at any useful size, and XLA's evaluation order is not visible in the jaxpr.",
}
PENDING = "no check yet: the machinery for this property is still being built."
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
    elif os.path.exists(os.path.join(V, "checks", i + ".py")):
        t, n = KIND[i]
        checks.append(dict(property=i, quick_cmd=f"./run.sh {i} quick", thorough_cmd=f"./run.sh {i} thorough",
                           evidence_file=f"evidence/{i}.json", technique=t, level="other", level_note=n))
    else:
        na.append(dict(property=i, reason=PENDING))
m = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import vlib.repo'", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the checks import the real code from /repo/src and trace or execute it symbolically. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
