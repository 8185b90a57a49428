"""Circuit -> diagram / matrix against textbook unitaries."""
from hypothesis import strategies as st
from ..core import Sub, fail, cut
from .. import gens, oracle
import numpy as np

RULE = ("Circuits: 1-4 qubits (10-12 in part, judged on product states), 0-16 gates drawn over the whole gate set with random placement and phases. "
        "Non-trivial: at least two gates (or one multi-qubit gate).")
ASSUMPTIONS = ["Gates that the library defines only through a decomposition (rotations about Y, controlled rotations, "
               "U2/U3, CHAD, CSX, RXX, RZZ, FSim) are compared up to a global phase of modulus one; their norm is exact."]

def compare(M, spec, what):
    U = gens.unitary(spec)
    if M.shape != U.shape: fail("%s: shape %s, expected %s", what, M.shape, U.shape)
    if gens.is_exact(spec["gates"]):
        if not oracle.close(M, U): fail("%s: matrix differs from the product of the gate unitaries", what)
    elif not oracle.same_up_to_phase(M, U):
        fail("%s: matrix differs from the product of the gate unitaries (up to phase)", what)

def check_graph(spec, rec):
    c = gens.build_circuit(spec["c"])
    kw = {"zh": spec["zh"], "compress_rows": spec["compress"]}
    if spec["backend"]: kw["backend"] = spec["backend"]
    before = repr([oracle.read_gate(x) for x in c.gates])
    with cut("to_graph"):
        g = c.to_graph(**kw)
    if len(g.inputs()) != c.qubits or len(g.outputs()) != c.qubits: fail("wrong number of inputs/outputs")
    compare(oracle.graph_matrix(g), spec["c"], "diagram")
    if repr([oracle.read_gate(x) for x in c.gates]) != before: fail("conversion changed the circuit")
    if [g.qubit(v) for v in g.inputs()] != list(range(c.qubits)): fail("inputs are not in qubit order")
    if [g.qubit(v) for v in g.outputs()] != list(range(c.qubits)): fail("outputs are not in qubit order")
    rec.nt(len(c.gates) >= 2 or any(len(x[1]) > 1 for x in spec["c"]["gates"]))
    for x in spec["c"]["gates"]: rec.label(x[0])

def check_matrix(spec, rec):
    c = gens.build_circuit(spec)
    with cut("to_matrix"):
        M = c.to_matrix()
    compare(np.asarray(M), spec, "to_matrix")
    with cut("to_tensor"):
        t = np.asarray(c.to_tensor())
    n = spec["n"]
    if t.shape != (2,) * (2 * n): fail("to_tensor: shape %s", t.shape)
    compare(t.reshape(2 ** n, 2 ** n), spec, "to_tensor")
    with cut("to_matrix(preserve_scalar=False)"):
        M2 = np.asarray(c.to_matrix(preserve_scalar=False))
    if not oracle.proportional(M2, gens.unitary(spec)): fail("to_matrix without scalar is not proportional")
    rec.nt(len(c.gates) >= 2 or any(len(x[1]) > 1 for x in spec["gates"]))

# names accepted by add_gate
NAMES = {"ZPhase": "ZPhase", "XPhase": "XPhase", "YPhase": "YPhase", "Z": "Z", "S": "S", "T": "T", "NOT": "NOT",
         "Y": "Y", "HAD": "HAD", "SX": "SX", "CNOT": "CNOT", "CZ": "CZ", "CY": "CY", "XCX": "XCX", "SWAP": "SWAP",
         "CHAD": "CHAD", "CSX": "CSX", "CRX": "CRX", "CRY": "CRY", "CRZ": "CRZ", "CPhase": "CPhase", "RXX": "RXX",
         "RZZ": "RZZ", "CCZ": "CCZ", "TOF": "TOF", "CSWAP": "CSWAP", "U2": "U2", "U3": "U3", "CU3": "CU3", "CU": "CU"}

def check_byname(spec, rec):
    """Building by gate name gives the same circuit as building by gate object."""
    import pyzx as zx
    c = zx.Circuit(spec["n"])
    for name, qs, ph in spec["gates"]:
        nm, kw = (name[:-1], {"adjoint": True}) if name.endswith("*") else (name, {})
        alias = {"HAD": "H", "CPhase": "CP", "U3": "U"}.get(nm, nm) if len(qs) + len(spec["gates"]) & 1 else nm
        with cut("add_gate(%s)" % alias):
            c.add_gate(alias, *qs, *[gens.P(p) for p in ph], **kw)
    if not oracle.same_up_to_phase(oracle.lib_circuit_unitary(c), gens.unitary(spec)):
        fail("gates added by name implement another unitary")
    with cut("to_graph"):
        g = c.to_graph()
    compare(oracle.graph_matrix(g), spec, "diagram of circuit built by name")
    rec.nt(len(spec["gates"]) >= 1)

SUBS = [
    Sub("graph", lambda: st.fixed_dictionaries({
        "c": gens.circuit(1, 4, 0, 14), "zh": st.booleans(), "compress": st.booleans(),
        "backend": st.sampled_from(["", "", "simple", "multigraph"])}), check_graph, 2400),
    Sub("wide", lambda: st.fixed_dictionaries({
        "c": gens.circuit(10, 12, 4, 20), "zh": st.booleans(), "compress": st.booleans(),
        "backend": st.sampled_from(["", "", "simple", "multigraph"])}), check_graph, 240),
    Sub("matrix", lambda: gens.circuit(1, 4, 0, 10), check_matrix, 1600),
    Sub("fsim", lambda: gens.circuit(2, 3, 1, 5, names=("FSim", "FSim", "HAD", "ZPhase", "CNOT")), check_matrix, 300),
    Sub("byname", lambda: gens.circuit(1, 4, 1, 8, names=tuple(NAMES) + ("S*", "T*", "SX*")), check_byname, 800),
]
