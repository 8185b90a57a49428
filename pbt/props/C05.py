"""Diagram evaluation against an independent contraction; tensor comparison helpers."""
from fractions import Fraction
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, fail, cut
from .. import gens, oracle

RULE = ("Random open diagrams (0-7 internal vertices of all kinds, 0-2 inputs and outputs, direct wires, random positions, vertex "
        "creation orders and scalars), evaluated by variable elimination from the spec. Single vertices with 0-7 legs. Non-trivial: at least two internal "
        "vertices and one edge between internal vertices.")
ASSUMPTIONS = ["Standard interpretation of spiders, unnormalised H-boxes, W nodes and Z-boxes as documented; no phase on W nodes and Z-boxes."]

def check_eval(spec, rec):
    g = gens.build_diagram(spec, spec.get("backend") or None)
    T = gens.spec_tensor(spec)
    no, ni = len(spec["out"]), len(spec["in"])
    with cut("to_tensor"):
        t = np.asarray(g.to_tensor())
    if t.shape != (2,) * (no + ni): fail("to_tensor: shape %s for %d outputs and %d inputs", t.shape, no, ni)
    if not oracle.close(t, T): fail("to_tensor differs from the standard interpretation")
    with cut("to_matrix"):
        m = np.asarray(g.to_matrix())
    if m.shape != (2 ** no, 2 ** ni): fail("to_matrix: shape %s", m.shape)
    if not oracle.close(m, T.reshape(2 ** no, 2 ** ni)): fail("to_matrix differs from the standard interpretation")
    with cut("to_tensor(False)"):
        t2 = np.asarray(g.to_tensor(preserve_scalar=False))
    sc = gens.scalar_value(spec.get("scalar", []))
    base = T / sc
    if np.abs(base).max() > 1e-9 and not oracle.proportional(t2, base): fail("to_tensor without scalar is not proportional to the interpretation")
    inner = sum(1 for a, b, _ in spec["edges"] if a < len(spec["verts"]) and b < len(spec["verts"]))
    rec.nt(len(spec["verts"]) >= 2 and inner >= 1)
    for k in {v[0] for v in spec["verts"]}: rec.label(k)
    if any(a >= len(spec["verts"]) and b >= len(spec["verts"]) for a, b, _ in spec["edges"]): rec.label("bare-wire")

def check_single(spec, rec):
    check_eval(spec, rec)
    rec.nt(len(spec["edges"]) >= 1 or len(spec["verts"]) > 1)

# ---- comparison of tensors
cplx = st.tuples(st.integers(-2, 2), st.integers(-2, 2)).map(list)

@st.composite
def tensor_pair(draw):
    k = draw(st.integers(0, 3))
    a = draw(st.lists(cplx, min_size=2 ** k, max_size=2 ** k))
    if all(x == [0, 0] for x in a): a[draw(st.integers(0, 2 ** k - 1))] = [1, 0]
    mode = draw(st.sampled_from(["scaled", "scaled", "perturbed", "zero", "other", "same", "mask"]))
    b = [list(x) for x in a]
    if mode == "perturbed": b[draw(st.integers(0, 2 ** k - 1))] = draw(cplx)
    elif mode == "zero": b = [[0, 0] for _ in a]
    elif mode == "other": b = draw(st.lists(cplx, min_size=2 ** k, max_size=2 ** k))
    elif mode == "mask": b[draw(st.integers(0, 2 ** k - 1))] = [0, 0]
    c = draw(st.sampled_from([[1, 0], [0, 1], [-1, 0], [2, 0], [1, 1], [0, -3], [7, 5]])) if mode != "same" else [1, 0]
    return {"k": k, "a": a, "b": b, "c": c, "noise": draw(st.booleans()),
            "size": draw(st.sampled_from([0, 0, 0, 2, 4, -2, -4, -8, -9, -10]))}

def check_compare(spec, rec):
    from pyzx.tensor import compare_tensors, find_scalar_correction
    k = spec["k"]
    a = np.array([complex(*x) for x in spec["a"]]).reshape([2] * k)
    b = (np.array([complex(*x) for x in spec["b"]]) * complex(*spec["c"])).reshape([2] * k)
    a, b = np.asarray(a), np.asarray(b)
    prop, same = oracle.proportional(a, b), oracle.close(a, b)
    if spec["noise"]:
        b = b * (1 + 1e-13)
        # rounding also leaves something where the exact result is zero
        a, b = (np.where(x == 0, 1e-16 * (1 + np.abs(x).max() * (np.arange(x.size).reshape(x.shape) % 7)), x) if np.abs(x).max() else x for x in (a, b))
    size = 10.0 ** spec.get("size", 0) # diagrams of a hundred spiders have entries this small
    a, b = np.asarray(a * size), np.asarray(b * size)
    with cut("compare_tensors"):
        r = compare_tensors(a, b)
        rs = compare_tensors(a, b, preserve_scalar=True)
    if bool(r) != prop: fail("compare_tensors is %s for tensors that are %sproportional", r, "" if prop else "not ")
    if bool(rs) != same: fail("compare_tensors(preserve_scalar) is %s for tensors that are %sequal", rs, "" if same else "not ")
    if prop:
        with cut("find_scalar_correction"): z = complex(find_scalar_correction(a, b))
        if not oracle.close(a / size, z * b / size): fail("find_scalar_correction returned %s", z)
    rec.nt(k >= 1 and not same); rec.label("prop" if prop else "different")

def check_maps(spec, rec):
    """compose_tensors, adjoint, is_unitary, comparison of diagrams and circuits."""
    from pyzx import tensor as zt
    n = spec["a"]["n"]
    A, B = gens.unitary(spec["a"]), gens.unitary(spec["b"])
    ca, cb = gens.build_circuit(spec["a"]), gens.build_circuit(spec["b"])
    with cut("compose_tensors"):
        t = zt.compose_tensors(A.reshape([2] * 2 * n), B.reshape([2] * 2 * n)).reshape(2 ** n, 2 ** n)
    if not oracle.close(t, B @ A): fail("compose_tensors is not the product")
    with cut("adjoint"):
        t = zt.adjoint(A.reshape([2] * 2 * n)).reshape(2 ** n, 2 ** n)
    if not oracle.close(t, A.conj().T): fail("adjoint is not the conjugate transpose")
    with cut("compare_tensors on circuits"):
        r = zt.compare_tensors(ca, cb.to_graph())
    if bool(r) != oracle.proportional(A, B): fail("compare_tensors of circuit and diagram is %s", r)
    ga, gb = ca.to_graph(), cb.to_graph()
    ga.scalar.add_phase(gens.P(spec.get("ph", "0"))); ga.scalar.add_power(spec.get("pow", 0))
    TA, TB = oracle.graph_matrix(ga), oracle.graph_matrix(gb)
    with cut("compare_tensors on diagrams"): r, r2 = zt.compare_tensors(ga, gb, preserve_scalar=True), zt.compare_tensors(gb, TA.reshape([2] * 2 * n))
    if bool(r) != oracle.close(TA, TB): fail("compare_tensors of diagrams with their scalars is %s", r)
    if bool(r2) != oracle.proportional(TA, TB): fail("compare_tensors of a diagram and a tensor is %s", r2)
    if oracle.proportional(TA, TB):
        with cut("find_scalar_correction of diagrams"): z, z2 = complex(zt.find_scalar_correction(ga, gb)), complex(zt.find_scalar_correction(gb, TA.reshape([2] * 2 * n)))
        if not oracle.close(TA, z * TB) or not oracle.close(TB, z2 * TA): fail("find_scalar_correction of diagrams returned %s, %s", z, z2)
    with cut("is_unitary"):
        u = zt.is_unitary(ca.to_graph())
    if not u: fail("is_unitary denies the diagram of a circuit")
    rec.nt(len(spec["a"]["gates"]) >= 2)

def check_unitary(spec, rec):
    from pyzx import tensor as zt
    g = gens.build_diagram(spec)
    M = gens.spec_tensor(spec).reshape(2 ** len(spec["out"]), 2 ** len(spec["in"]))
    if np.abs(M).max() < 1e-9: rec.label("zero"); return
    Q = M @ M.conj().T
    truth = oracle.proportional(Q, np.eye(Q.shape[0]))
    with cut("is_unitary"): u = zt.is_unitary(g)
    if bool(u) != truth: fail("is_unitary is %s", u)
    rec.nt(len(spec["verts"]) >= 1); rec.label("unitary" if truth else "not")

@st.composite
def circ_pair(draw):
    a = draw(gens.circuit(1, 3, 0, 8, names=gens.CLIFFORD_T, phases=gens.phase_t))
    if draw(st.booleans()): b = {"n": a["n"], "gates": [list(x) for x in a["gates"]] + ([["HAD", [0], []]] if draw(st.booleans()) else [])}
    else: b = draw(gens.circuit(a["n"], a["n"], 0, 8, names=gens.CLIFFORD_T, phases=gens.phase_t))
    return {"a": a, "b": b, "ph": draw(st.sampled_from(["0", "0", "1", "1/4", "1/3"])), "pow": draw(st.sampled_from([0, 0, 1, -3]))}

@st.composite
def single(draw):
    """One vertex with 0 to 7 legs (some in, some out, some with a Hadamard), any phase or label; now and then a second vertex without legs."""
    kind = draw(st.sampled_from(["Z", "X", "X", "H", "ZB"]))
    ph = lambda k: draw(st.sampled_from(["0", "1", "2", "-1", "1/2", "1j", "-0.5+0.5j"]) if k == "ZB" else st.one_of(st.integers(0, 31).map(lambda x: str(Fraction(x, 16))), gens.phase_any))
    verts = [[kind, ph(kind)]]
    if draw(st.integers(0, 3)) == 0:
        k2 = draw(st.sampled_from(["Z", "X", "H"])); verts.append([k2, ph(k2)])
    i, o = draw(st.integers(0, 4)), draw(st.integers(0, 3))
    if draw(st.integers(0, 3)) == 0: i = o = 0
    n = len(verts)
    edges = [[0, n + j, draw(st.sampled_from("sh"))] for j in range(i + o)]
    return {"verts": verts, "edges": edges, "in": list(range(n, n + i)), "out": list(range(n + i, n + i + o)), "scalar": []}

ALLK = ("Z", "Z", "X", "H", "ZB", "W")
SUBS = [
    Sub("single", single, check_single, 1200),
    Sub("zx", lambda: gens.diagram(layout="wild", phases=gens.phase_any, vmax=7, emax=12), check_eval, 2400),
    Sub("allkinds", lambda: gens.diagram(kinds=ALLK, layout="wild", vmax=6, emax=10), check_eval, 2400),
    Sub("compare", tensor_pair, check_compare, 3000),
    Sub("maps", circ_pair, check_maps, 600),
    Sub("unitary", lambda: gens.diagram(vmax=3, emax=3, imax=1, omax=1, iomin=1), check_unitary, 800),
]
