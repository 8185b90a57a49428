"""Circuit optimisers: same unitary, never worse, input untouched."""
from fractions import Fraction
from hypothesis import strategies as st
from ..core import Sub, fail, cut
from .. import gens, oracle, tableau

RULE = ("Circuits of 1-5 qubits (10-12 in part, judged on product states; Clifford ones up to 24, judged by the images of the Paulis) and up to 60 gates (accepted gate set in several mixtures: CNOT/CZ/HAD heavy, swap-prone CNOT "
        "chains, HAD-S-HAD patterns, arbitrary phases). Non-trivial: the optimiser returned a different gate list.")
ASSUMPTIONS = ["The gate-cancelling optimiser's documented input is a circuit of ZPhase, HAD, CNOT, CZ (and NOT) gates; the block-wise "
               "one's and full_optimize's a Clifford+T circuit.",
               "Undoing a reordering by swaps may cost up to 3(n-1) CNOTs."]

def two(c): return sum(1 for r in oracle.read_circuit(c) if len(r[1]) > 1)
def dump(c): return [(type(g).__name__, oracle.read_gate(g), getattr(g, "adjoint", None)) for g in c.gates]
def ncl(c):
    n = 0
    for r in oracle.read_circuit(c):
        if r[0] in ("ZPhase", "XPhase", "YPhase"): n += Fraction(r[2][0]).denominator > 2
        elif r[0] not in ("HAD", "CNOT", "CZ", "SWAP", "CY", "XCX"): fail("unexpected gate %s in an optimised circuit", r[0])
    return n

def judge(what, c, spec, U, rec, d0):
    if c.qubits != spec["n"]: fail("%s changed the number of qubits", what)
    if not oracle.same_up_to_phase(oracle.lib_circuit_unitary(c), U): fail("%s changed the unitary", what)

def check_basic(spec, rec):
    from pyzx import optimize
    U = gens.unitary(spec["c"]); c0 = gens.build_circuit(spec["c"]); d0 = dump(c0); n = spec["c"]["n"]
    with cut("basic_optimization"):
        c = optimize.basic_optimization(c0, do_swaps=spec["swaps"])
    judge("basic_optimization", c, spec["c"], U, rec, d0)
    if dump(c0) != d0 or c0.qubits != n: fail("basic_optimization changed its input")
    if ncl(c) > ncl(c0): fail("basic_optimization raised the number of non-Clifford gates from %d to %d", ncl(c0), ncl(c))
    lim = two(c0) + (3 * (n - 1) if spec["swaps"] else 0)
    if two(c) > lim: fail("basic_optimization raised the number of two-qubit gates from %d to %d", two(c0), two(c))
    if not spec["swaps"]:
        # connectivity is documented to be preserved without swaps
        con = {frozenset(r[1]) for r in oracle.read_circuit(c0) if len(r[1]) == 2}
        for r in oracle.read_circuit(c):
            if len(r[1]) == 2 and frozenset(r[1]) not in con: fail("a two-qubit gate on new qubits %s although swaps were disabled", r[1])
    rec.nt(dump(c) != d0); rec.label("fewer_two" if two(c) < two(c0) else "same_two")
    with cut("basic_optimization again"):
        c2 = optimize.basic_optimization(c, do_swaps=spec["swaps"])
    judge("optimising twice", c2, spec["c"], U, rec, d0)

def check_corr(spec, rec):
    from pyzx import optimize
    import pyzx as zx
    U = gens.unitary(spec["c"]); c0 = gens.build_circuit(spec["c"]); n = spec["c"]["n"]
    with cut("parse_circuit"):
        c, corr = optimize.Optimizer(c0).parse_circuit(separate_correction=True, do_swaps=spec["swaps"])
    for g in corr:
        if type(g).__name__ not in ("NOT", "SWAP"): fail("correction contains a %s gate", g)
    if not spec["swaps"] and any(type(g).__name__ == "SWAP" for g in corr): fail("swaps were returned although disabled")
    full = zx.Circuit(n); full.gates = list(c.gates) + list(corr)
    judge("parse_circuit with separate correction", full, spec["c"], U, rec, None)
    rec.nt(bool(corr))

def check_full(spec, rec):
    from pyzx import optimize
    U = gens.unitary(spec["c"]); c0 = gens.build_circuit(spec["c"]); d0 = dump(c0)
    t0 = ncl(c0.to_basic_gates())
    with cut("full_optimize"):
        c = optimize.full_optimize(c0)
    judge("full_optimize", c, spec["c"], U, rec, d0)
    if dump(c0) != d0: fail("full_optimize changed its input")
    if ncl(c) > t0: fail("full_optimize raised the number of non-Clifford gates from %d to %d", t0, ncl(c))
    rec.nt(t0 > 0); rec.label("fewer_T" if ncl(c) < t0 else "same_T")

def check_huge(spec, rec):
    """Clifford circuits on 12 to 24 qubits, judged by the images of the Paulis."""
    from pyzx import optimize
    s = tableau.circuit(spec["c"]); s = noswap(s); n = s["n"]
    c0 = gens.build_circuit(s); d0 = dump(c0)
    with cut(spec["f"]):
        c = optimize.basic_optimization(c0, do_swaps=spec["swaps"]) if spec["f"] == "basic_optimization" else getattr(optimize, spec["f"])(c0)
    if c.qubits != n: fail("%s changed the number of qubits", spec["f"])
    if dump(c0) != d0: fail("%s changed its input", spec["f"])
    if ncl(c): fail("%s made non-Clifford gates out of a Clifford circuit", spec["f"])
    if tableau.of(n, oracle.read_circuit(c)) != tableau.of(n, s["gates"]): fail("%s changed a Clifford circuit on %d qubits", spec["f"], n)
    lim = two(c0) + (3 * (n - 1) if spec["swaps"] else 0)
    if spec["f"] == "basic_optimization" and two(c) > lim: fail("basic_optimization raised the number of two-qubit gates from %d to %d", two(c0), two(c))
    rec.nt(dump(c) != d0); rec.label(spec["f"])

def check_reject(spec, rec):
    """Circuits outside the accepted set are refused, not silently mistreated."""
    from pyzx import optimize
    U = gens.unitary(spec["c"]); c0 = gens.build_circuit(spec["c"]); d0 = dump(c0)
    f = getattr(optimize, spec["f"])
    try:
        c = f(c0)
    except Exception:      # any refusal will do for gates outside the documented set
        if dump(c0) != d0: fail("%s changed its input", spec["f"])
        rec.label("refused"); rec.nt()
        return
    judge(spec["f"], c, spec["c"], U, rec, d0)
    if dump(c0) != d0: fail("%s changed its input", spec["f"])

@st.composite
def patterns(draw, names1, phases, nmax=5, nmin=2):
    """Concatenation of small motifs that trigger the commutation rules."""
    n = draw(st.integers(nmin, nmax)); gs = []
    for _ in range(draw(st.integers(1, 12))):
        a = draw(st.integers(0, n - 1)); b = draw(st.integers(0, n - 2)); b += b >= a
        k = draw(st.sampled_from(["cxcx", "cz", "cx", "hsh", "hh", "x", "z", "p", "czcx", "hcxh", "cxh", "g"]))
        if k == "cxcx": gs += [["CNOT", [a, b], []], ["CNOT", [b, a], []]]
        elif k == "cz": gs.append(["CZ", [a, b], []])
        elif k == "cx": gs.append(["CNOT", [a, b], []])
        elif k == "hsh": gs += [["HAD", [a], []], [draw(st.sampled_from(["S", "S*"])), [a], []], ["HAD", [a], []]]
        elif k == "hh": gs += [["HAD", [a], []], ["HAD", [b], []]]
        elif k == "x": gs.append(["NOT", [a], []])
        elif k == "z": gs.append(["Z", [a], []])
        elif k == "p": gs.append(["ZPhase", [a], [draw(phases)]])
        elif k == "czcx": gs += [["CNOT", [a, b], []], ["CZ", [a, b], []]]
        elif k == "hcxh": gs += [["HAD", [a], []], ["CNOT", [a, b], []], ["HAD", [a], []]]
        elif k == "cxh": gs += [["CNOT", [a, b], []], ["HAD", [b], []]]
        else: gs.append(draw(gens.gate(n, names1, phases)))
    return {"n": n, "gates": gs}

ACC = ("ZPhase", "Z", "S", "S*", "T", "T*", "NOT", "HAD", "HAD", "CNOT", "CNOT", "CZ", "CZ")
TACC = ("Z", "S", "S*", "T", "T*", "NOT", "HAD", "CNOT", "CNOT", "CZ")
def basics():
    return st.one_of(patterns(ACC, gens.phase_any), patterns(ACC, gens.phase_any), gens.circuit(1, 5, 0, 60, names=ACC, phases=gens.phase_any),
                     gens.circuit(2, 4, 15, 60, names=("CNOT", "CZ", "HAD", "S", "T", "NOT"), phases=gens.phase_t),
                     gens.circuit(3, 5, 10, 40, names=("CNOT", "CNOT", "SWAP", "HAD", "ZPhase"), phases=gens.phase_t).map(noswap))
def noswap(c):
    gs = []
    for g in c["gates"]:
        if g[0] == "SWAP":
            a, b = g[1]
            gs += [["CNOT", [a, b], []], ["CNOT", [b, a], []], ["CNOT", [a, b], []]]
        else: gs.append(g)
    return {"n": c["n"], "gates": gs}
def cliffts():
    return st.one_of(patterns(TACC, gens.phase_t), gens.circuit(1, 4, 0, 40, names=TACC, phases=gens.phase_t),
                     gens.circuit(2, 4, 0, 12, names=("CCZ", "TOF", "CZ", "SWAP", "HAD", "T", "S", "NOT", "CNOT", "CY", "XCX", "ZPhase"), phases=gens.phase_t))

B = st.booleans()
SUBS = [
    Sub("basic", lambda: st.fixed_dictionaries({"c": basics(), "swaps": B}), check_basic, 4000),
    Sub("wide", lambda: st.fixed_dictionaries({"c": st.one_of(patterns(ACC, gens.phase_any, nmax=12, nmin=10), gens.circuit(10, 12, 10, 60, names=ACC, phases=gens.phase_any)), "swaps": B}), check_basic, 300),
    Sub("wide_full", lambda: st.fixed_dictionaries({"c": st.one_of(patterns(TACC, gens.phase_t, nmax=11, nmin=10), gens.circuit(10, 11, 10, 50, names=TACC, phases=gens.phase_t))}), check_full, 80),
    Sub("huge", lambda: st.fixed_dictionaries({"c": tableau.spec(12, 24, "clzphwmmm", 4), "swaps": B, "f": st.sampled_from(["basic_optimization"] * 3 + ["full_optimize", "phase_block_optimize"])}), check_huge, 80),
    Sub("corrections", lambda: st.fixed_dictionaries({"c": basics(), "swaps": B}), check_corr, 1200),
    Sub("full", lambda: st.fixed_dictionaries({"c": cliffts()}), check_full, 900),
    Sub("other_gates", lambda: st.fixed_dictionaries({"c": gens.circuit(1, 4, 1, 8), "f": st.sampled_from(["basic_optimization", "phase_block_optimize", "full_optimize"])}), check_reject, 500),
]
