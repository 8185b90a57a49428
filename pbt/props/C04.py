"""Circuit equality verdicts against unitaries."""
import itertools
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, fail, cut
from .. import gens, oracle, tableau

RULE = ("Pairs of circuits: a circuit against a rewritten form of itself (inserted cancelling gates, commuted gates, basic-gate "
        "form, appended permutation), against itself with one gate mutated, and against unrelated circuits. Non-trivial: the "
        "first circuit has at least three gates including a multi-qubit gate.")
ASSUMPTIONS = ["Completeness is demanded only where promised: Clifford pairs and identical circuits."]

INV = {"S": "S*", "S*": "S", "T": "T*", "T*": "T", "HAD": "HAD", "NOT": "NOT", "Z": "Z", "CNOT": "CNOT", "CZ": "CZ", "SWAP": "SWAP",
       "Y": "Y", "SX": "SX*", "SX*": "SX", "CY": "CY", "XCX": "XCX", "CCZ": "CCZ", "TOF": "TOF", "CSWAP": "CSWAP", "CHAD": "CHAD"}

@st.composite
def pair(draw, names, phases, gmax=10, nmin=1, nmax=4):
    c = draw(gens.circuit(nmin, nmax, 0, gmax, names=names, phases=phases))
    n = c["n"]
    g2 = [list(g) for g in c["gates"]]
    kind = draw(st.sampled_from(["same", "insert", "mutate", "mutate", "drop", "extra", "perm", "swapadj", "other"]))
    ok = [x for x in names if x == "ParityPhase" or gens.arity(x) <= n]
    if kind == "insert":
        for _ in range(draw(st.integers(1, 3))):
            g = draw(gens.gate(n, [x for x in ok if x in INV], phases))
            p = draw(st.integers(0, len(g2)))
            g2[p:p] = [g, [INV[g[0]], g[1], []]]
    elif kind == "mutate" and g2:
        p = draw(st.integers(0, len(g2) - 1))
        g2[p] = draw(gens.gate(n, ok, phases))
    elif kind == "drop" and g2:
        g2.pop(draw(st.integers(0, len(g2) - 1)))
    elif kind == "extra":
        g2.insert(draw(st.integers(0, len(g2))), draw(gens.gate(n, ok, phases)))
    elif kind == "perm" and n > 1:
        for _ in range(draw(st.integers(1, 2))):
            a = draw(st.integers(0, n - 2))
            g2 = g2 + [["CNOT", [a, a + 1], []], ["CNOT", [a + 1, a], []], ["CNOT", [a, a + 1], []]]
    elif kind == "swapadj" and len(g2) > 1:
        p = draw(st.integers(0, len(g2) - 2))
        g2[p], g2[p + 1] = g2[p + 1], g2[p]
    elif kind == "other":
        g2 = draw(gens.circuit(n, n, 0, gmax, names=names, phases=phases))["gates"]
    return {"n": n, "a": c["gates"], "b": g2, "kind": kind, "swaps": draw(st.booleans())}

def equal_up_to_perm(A, B, n):
    for perm in itertools.permutations(range(n)):
        T = A.reshape([2] * n + [2 ** n]).transpose(list(perm) + [n]).reshape(2 ** n, 2 ** n)
        if oracle.same_up_to_phase(T, B): return True
    return False

def make_check(complete, ident=False):
    def check(spec, rec):
        n = spec["n"]
        a = gens.build_circuit({"n": n, "gates": spec["a"]}); b = gens.build_circuit({"n": n, "gates": spec["b"]})
        A = oracle.circuit_unitary(n, spec["a"]); B = oracle.circuit_unitary(n, spec["b"])
        sa, sb = [str(g) for g in a.gates], [str(g) for g in b.gates]
        with cut("verify_equality"):
            r = a.verify_equality(b, up_to_swaps=spec["swaps"])
        if [str(g) for g in a.gates] != sa or [str(g) for g in b.gates] != sb: fail("verify_equality changed a circuit")
        truth = oracle.same_up_to_phase(A, B)
        if r:
            rec.label("positive")
            if not truth and not (spec["swaps"] and equal_up_to_perm(A, B, n)):
                fail("reported equal (up_to_swaps=%s) but the unitaries differ", spec["swaps"])
        else:
            rec.label("negative-equal" if truth else "negative")
            if truth and (complete or (ident and spec["a"] == spec["b"])):
                fail("equal %s circuits not recognised", "Clifford" if complete else "identical")
            if complete and spec["swaps"] and equal_up_to_perm(A, B, n): fail("Clifford circuits equal up to a permutation not recognised")
        rec.nt(len(spec["a"]) >= 3 and any(len(g[1]) > 1 for g in spec["a"]))
    return check

def check_huge(spec, rec):
    """Clifford circuits on 6 to 24 qubits, judged by the images of the Paulis; the verdict must be exact."""
    import random
    c = tableau.circuit(spec["c"]); n = c["n"]; R = random.Random(spec["seed"])
    a, b, kind = c["gates"], [list(g) for g in c["gates"]], spec["kind"]
    if kind in ("insert", "near"):
        for _ in range(3):
            k = R.randrange(len(b) + 1); qs = R.sample(range(n), 2)
            g = R.choice([["CNOT", qs, []], ["CZ", qs, []], ["HAD", qs[:1], []], ["S", qs[:1], []]])
            b[k:k] = [g, [INV[g[0]], g[1], []]]
    if kind in ("near", "drop") and b: b.pop(R.randrange(len(b)))
    if kind == "extra": b.insert(R.randrange(len(b) + 1), R.choice([["Z", [R.randrange(n)], []], ["NOT", [R.randrange(n)], []], ["CZ", R.sample(range(n), 2), []]]))
    if kind == "perm": b += [["SWAP", R.sample(range(n), 2), []] for _ in range(3)]
    if kind == "rewired":
        p = list(range(n)); R.shuffle(p); b = [[x, [p[q] for q in qs], ph] for x, qs, ph in b]
    ca, cb = gens.build_circuit({"n": n, "gates": a}), gens.build_circuit({"n": n, "gates": b})
    if spec["lower"]: cb = cb.to_basic_gates()
    mode = "after" if spec["swaps"] else False
    truth = tableau.of(n, a, mode) == tableau.of(n, b, mode)
    with cut("verify_equality"): r = ca.verify_equality(cb, up_to_swaps=spec["swaps"])
    if bool(r) != truth: fail("verify_equality(up_to_swaps=%s) says %s of Clifford circuits on %d qubits that are %s", spec["swaps"], r, n, "equal" if truth else "different")
    rec.nt(len(a) > 2); rec.label("positive" if r else "negative")

SUBS = [
    Sub("huge", lambda: st.fixed_dictionaries({"c": tableau.spec(6, 24), "kind": st.sampled_from(["same", "insert", "insert", "near", "drop", "extra", "perm", "perm", "rewired"]),
                                               "seed": st.integers(0, 10 ** 6), "swaps": st.booleans(), "lower": st.booleans()}), check_huge, 200),
    Sub("general", lambda: pair(tuple(gens.CLIFFORD_T), gens.phase_red), make_check(False, True), 1600),
    Sub("allgates", lambda: pair(tuple(x for x in gens.ALL if x not in ("CCZ", "TOF", "CSWAP")), gens.phase_red, gmax=6), make_check(False), 1200),
    Sub("clifford", lambda: pair(tuple(gens.CLIFFORD), gens.phase_cliff, gmax=16), make_check(True), 1600),
]
