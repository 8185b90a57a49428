"""Decomposition into basic gates, phase splitting, gate statistics."""
from fractions import Fraction
from hypothesis import strategies as st
from ..core import Sub, fail, cut
from .. import gens, oracle

RULE = ("Circuits of 1-4 qubits (10-12 in part) over the full gate set; single gates with every placement. Non-trivial: the decomposition "
        "changed the gate list, or (statistics) at least three gates of two different kinds.")
ASSUMPTIONS = ["The basic set is read from the method's documentation: X/Z phase gates (with their named special cases), "
               "Hadamard, CNOT and CZ."]

BASIC_CLS = {"ZPhase", "XPhase", "Z", "S", "T", "NOT", "SX", "HAD", "CNOT", "CZ"}

def check_basic(spec, rec):
    c = gens.build_circuit(spec)
    U = gens.unitary(spec)
    before = [str(g) for g in c.gates]
    with cut("to_basic_gates"):
        b = c.to_basic_gates()
    if b.qubits != c.qubits: fail("qubit count changed: %d", b.qubits)
    for g in b.gates:
        if type(g).__name__ not in BASIC_CLS: fail("not a basic gate: %s", g)
    if not oracle.same_up_to_phase(oracle.lib_circuit_unitary(b), U):
        fail("decomposition into basic gates implements another unitary")
    if [str(g) for g in c.gates] != before: fail("to_basic_gates changed the circuit")
    with cut("to_basic_gates again"):
        b2 = b.to_basic_gates()
    if not oracle.same_up_to_phase(oracle.lib_circuit_unitary(b2), U): fail("decomposing twice differs")
    with cut("twoqubitcount"):
        n2 = c.twoqubitcount()
    own = sum(1 for g in b.gates if type(g).__name__ in ("CNOT", "CZ"))
    if n2 != own: fail("twoqubitcount %r, the decomposition has %d two-qubit gates", n2, own)
    rec.nt([str(g) for g in b.gates] != before)

def check_split(spec, rec):
    c = gens.build_circuit(spec)
    U = gens.unitary(spec)
    before = [str(g) for g in c.gates]
    with cut("split_phase_gates"):
        b = c.split_phase_gates()
    if b.qubits != c.qubits: fail("qubit count changed")
    if not oracle.same_up_to_phase(oracle.lib_circuit_unitary(b), U): fail("splitting phase gates changed the unitary")
    for g in b.gates:
        nm, qs, ph = oracle.read_gate(g)
        if nm in ("ZPhase", "XPhase") and type(g).__name__ in ("ZPhase", "XPhase"):
            p = Fraction(g.phase)
            if 0 < p < 2 and p.denominator in (1, 2, 4): fail("phase gate %s was not split into elementary gates", g)
    if [str(g) for g in c.gates] != before: fail("split_phase_gates changed the circuit")
    rec.nt([str(g) for g in b.gates] != before)

def nc(p): return Fraction(p).denominator > 2

def check_stats(spec, rec):
    c = gens.build_circuit(spec)
    gs = [(type(g).__name__, oracle.read_gate(g)) for g in c.gates]
    with cut("stats_dict"):
        d = c.stats_dict(depth=True)
    exp = {"qubits": c.qubits, "gates": len(gs)}
    rot = [r for _, r in gs if r[0] in ("ZPhase", "XPhase")]
    exp["had"] = sum(r[0] == "HAD" for _, r in gs)
    exp["cnot"] = sum(r[0] == "CNOT" for _, r in gs)
    exp["twoqubit"] = sum(r[0] in ("CNOT", "CZ", "XCX") for _, r in gs)
    exp["clifford"] = exp["had"] + exp["twoqubit"] + sum(not nc(r[2][0]) for r in rot)
    exp["tcount"] = sum(nc(r[2][0]) for r in rot)
    exp["tcount"] += sum(nc(r[2][0]) for _, r in gs if r[0] == "ParityPhase")
    exp["tcount"] += 7 * sum(r[0] in ("CCZ", "TOF") for _, r in gs)
    exp["measurement"] = 0
    # depth of the basic decomposition: longest path
    def depth(gates):
        m = [0] * c.qubits
        for nm, qs, ph in gates:
            t = max(m[q] for q in qs) + 1
            for q in qs: m[q] = t
        return max(m)
    basic = [r for g in c.gates for r in map(oracle.read_gate, g.to_basic_gates())]
    exp["depth"] = depth(basic)
    nocz = []
    for nm, qs, ph in basic:
        if nm == "CZ": nocz += [["HAD", [qs[1]], []], ["CNOT", qs, []], ["HAD", [qs[1]], []]]
        else: nocz.append([nm, qs, ph])
    exp["depth_cz"] = depth(nocz)
    if not any(r[0] == "CZ" for r in basic) and exp["depth"] != exp["depth_cz"]: fail("depths inconsistent")
    for k, v in exp.items():
        if d[k] != v:
            if k == "depth_cz" and depth_cz_alt(basic, c.qubits) == d[k]: continue
            fail("statistic %s is %r, the circuit has %r", k, d[k], v)
    with cut("tcount"):
        if c.tcount() != exp["tcount"]: fail("tcount %r, expected %r", c.tcount(), exp["tcount"])
    with cut("depth"):
        if all(r[0] in ("ZPhase", "XPhase", "HAD", "CNOT", "CZ", "CCZ", "TOF", "XCX") for _, r in gs) \
           and c.depth() != depth([r for _, r in gs]): fail("depth() %r, longest path %r", c.depth(), depth([r for _, r in gs]))
    with cut("stats"):
        s = c.stats(depth=True)
    if str(exp["tcount"]) + " is the T-count" not in s: fail("stats text disagrees with the counts")
    rec.nt(len(gs) >= 3 and len({r[0] for _, r in gs}) >= 2)

def depth_cz_alt(basic, n):
    m = [0] * n
    for nm, qs, ph in basic:
        if nm == "CZ":
            m[qs[0]] += 0
            m[qs[0]] += 0
            seq = [[qs[0]], [qs[0], qs[1]], [qs[0]]]
        else: seq = [qs]
        for q in seq:
            t = max(m[x] for x in q) + 1
            for x in q: m[x] = t
    return max(m)

SUBS = [
    Sub("basic", lambda: gens.circuit(1, 4, 1, 8), check_basic, 3000),
    Sub("wide", lambda: gens.circuit(10, 12, 2, 12), check_basic, 200),
    Sub("split", lambda: gens.circuit(1, 3, 1, 12, names=("ZPhase", "XPhase", "HAD", "CNOT", "S*", "T*", "SX*", "T", "CZ", "CPhase")), check_split, 2000),
    Sub("stats", lambda: gens.circuit(1, 4, 0, 20, names=("ZPhase", "XPhase", "HAD", "CNOT", "CZ", "XCX", "T", "S", "CCZ", "TOF", "ParityPhase", "NOT", "T*")), check_stats, 2400),
]
