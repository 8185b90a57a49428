"""OpenQASM output round-trips."""
from fractions import Fraction
from hypothesis import strategies as st
from ..core import Sub, fail, cut
from .. import gens, oracle, qasm

RULE = ("Circuits of 1-4 qubits (10-12 in part, judged on product states) over every unitary gate kind with phases that are multiples of pi/8, thirds, fifths, 1/1024 and beyond one turn, "
        "written as OpenQASM 2 and 3, read back by the library and by an independent reader. Non-trivial: at least one gate with a parameter and one "
        "on two or more qubits.")
ASSUMPTIONS = ["Printed phases are decimal; equality of unitaries is up to global phase with tolerance 1e-6.",
               "Measurements have no QASM form in the writer; writing them is refused, as it is on the pinned tree."]

def dump(c): return [(type(g).__name__, oracle.read_gate(g), getattr(g, "adjoint", None)) for g in c.gates]

def check(spec, rec):
    import pyzx as zx
    U = gens.unitary(spec["c"]); c = gens.build_circuit(spec["c"]); n = spec["c"]["n"]; d0 = dump(c)
    with cut("to_qasm"):
        text = c.to_qasm(spec["v"])
    if dump(c) != d0: fail("to_qasm changed the circuit")
    r = qasm.read_flat(text, spec["v"])
    if isinstance(r, str): fail("to_qasm wrote invalid text: %s", r)
    if r[0] != n: fail("to_qasm declares %d qubits, the circuit has %d", r[0], n)
    if not oracle.same_up_to_phase(r[1], U, 1e-6): fail("the written program means another unitary")
    with cut("from_qasm"):
        c2 = zx.Circuit.from_qasm(text)
    if c2.qubits != n: fail("reading back gave %d qubits instead of %d", c2.qubits, n)
    if not oracle.same_up_to_phase(oracle.lib_circuit_unitary(c2), U, 1e-6): fail("reading back the written program gave another unitary")
    # stable: the second text equals the first
    with cut("to_qasm again"):
        text2 = c2.to_qasm(spec["v"])
    if norm(text2, spec["v"]) != norm(text, spec["v"]): fail("writing the circuit read back gives another program")
    rec.nt(any(g[2] for g in spec["c"]["gates"]) and any(len(g[1]) > 1 for g in spec["c"]["gates"]))

def norm(text, v):
    r = qasm.read_flat(text, v)
    if isinstance(r, str): fail("the second text is invalid: %s", r)
    return r[0], [(nm, [round(p, 6) % 4 for p in ps], qs) for nm, ps, qs in r[2]]

NAMED = {"ZPhase": "rz", "XPhase": "rx", "YPhase": "ry", "Z": "z", "S": "s", "S*": "sdg", "T": "t", "T*": "tdg", "NOT": "x", "Y": "y", "HAD": "h",
         "SX": "sx", "SX*": "sxdg", "U2": "u2", "U3": "u3", "CNOT": "cx", "CZ": "cz", "CY": "cy", "SWAP": "swap", "CHAD": "ch", "CSX": "csx",
         "CRX": "crx", "CRY": "cry", "CRZ": "crz", "CPhase": "cp", "RXX": "rxx", "RZZ": "rzz", "CU3": "cu3", "CU": "cu", "CCZ": "ccz", "TOF": "ccx", "CSWAP": "cswap"}

def check_gates(spec, rec):
    """Gates with a QASM name keep kind, order, qubits and phases."""
    import pyzx as zx
    c = gens.build_circuit(spec["c"])
    with cut("to_qasm"):
        text = c.to_qasm(spec["v"])
    with cut("from_qasm"):
        c2 = zx.Circuit.from_qasm(text)
    a = [canon(r) for r in oracle.read_circuit(c)]
    b = [canon(r) for r in oracle.read_circuit(c2)]
    if len(a) != len(b): fail("round trip has %d gates, the circuit %d", len(b), len(a))
    for x, y in zip(a, b):
        if x[0] != y[0] or x[1] != y[1]: fail("round trip turned %s%s into %s%s", x[0], x[1], y[0], y[1])
        if any(abs(float((p - q) % 4)) > 1e-7 and abs(float((p - q) % 4) - 4) > 1e-7 and not (x[0] in PER2 and close2(p - q)) for p, q in zip(x[2], y[2])):
            fail("round trip changed the phases of %s from %s to %s", x[0], x[2], y[2])
    rec.nt(len(a) >= 3)

PER2 = {"ZPhase", "XPhase", "YPhase", "CPhase", "RZZ", "RXX", "ParityPhase"}   # a full turn is a global phase (or nothing)
def close2(d): d = float(d % 2); return min(d, 2 - d) < 1e-7
def canon(r): return (r[0], list(r[1]), [Fraction(p) for p in r[2]])

V = st.sampled_from([2, 3])
PH = st.one_of(gens.phase_any, gens.phase_any, st.sampled_from(["1/512", "3/7", "22/23", "1/100000", "-5/3", "7/2", "3"]))
HASNAME = tuple(k for k in NAMED if k != "RZZ")
SUBS = [
    Sub("roundtrip", lambda: st.fixed_dictionaries({"c": gens.circuit(1, 4, 0, 14, names=tuple(gens.ALL), phases=PH), "v": V}), check, 4000),
    Sub("wide", lambda: st.fixed_dictionaries({"c": gens.circuit(10, 12, 6, 20, names=tuple(gens.ALL), phases=PH), "v": V}), check, 250),
    Sub("single_gate", lambda: st.fixed_dictionaries({"c": gens.circuit(1, 4, 1, 2, names=tuple(gens.ALL) + ("CSX*",), phases=PH), "v": V}), check, 1500),
    Sub("gate_list", lambda: st.fixed_dictionaries({"c": gens.circuit(1, 5, 0, 15, names=HASNAME, phases=PH), "v": V}), check_gates, 1500),
]
