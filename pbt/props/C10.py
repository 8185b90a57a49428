"""Phase teleportation moves phases only and keeps the map."""
from fractions import Fraction
from hypothesis import strategies as st
from ..core import Sub, fail, cut
from .. import gens, oracle, graphs
from .C11 import gadgety

RULE = ("Circuit diagrams (1-5 qubits, in part 10-12 judged on product states, up to 60 gates over Clifford+T, arbitrary-phase, CNOT/H/phase, gadget-heavy and all-gate families), optionally changed by an earlier simplification, "
        "and arbitrary or pattern-built diagrams. Non-trivial: at least one phase moved.")
ASSUMPTIONS = ["Teleportation does not track the global phase, so maps are compared up to a phase of modulus one.",
               "For circuit diagrams as many non-Clifford phases remain as full reduction of the diagram leaves (the documented meaning of teleportation)."]

PH = ("ZPhase", "XPhase", "Z", "S", "S*", "T", "T*", "NOT", "SX", "SX*")
def is_phase(r): return r[0] in PH

def check(spec, rec):
    from pyzx import simplify as s
    import pyzx as zx
    g = gens.build_source(spec["g"])
    if spec["pre"] != "none":
        with cut(spec["pre"]):
            {"spider": s.spider_simp, "id": s.id_simp, "interior": s.interior_clifford_simp, "clifford": s.clifford_simp, "gh": lambda g, quiet: s.to_gh(g)}[spec["pre"]](g, quiet=True)
    circ = spec["g"]["src"] == "circuit"
    U = None
    if circ: U = gens.unitary(spec["g"]["c"])
    else: T = oracle.graph_tensor(g)
    before = graphs.snapshot(g)
    t0 = oracle.nonclifford_count(g)
    with cut("teleport_reduce"): h = s.teleport_reduce(g)
    if graphs.diff(before, graphs.snapshot(g)): fail("teleport_reduce changed its argument: %s", graphs.diff(before, graphs.snapshot(g)))
    judge(g, h, t0, rec)
    if circ: 
        if not oracle.same_up_to_phase(oracle.graph_matrix(h), U): fail("teleported diagram is not equivalent to the original")
    elif not oracle.same_up_to_phase(oracle.graph_tensor(h), T): fail("teleported diagram is not equivalent to the original")
    if circ and spec["pre"] == "none":
        with cut("full_reduce"):
            f = g.copy(); s.full_reduce(f, quiet=True)
        t1 = oracle.nonclifford_count(h)
        if oracle.nonclifford_count(f) != t1: fail("teleportation leaves %d non-Clifford phases, full reduction %d", t1, oracle.nonclifford_count(f))
        try: c0 = zx.Circuit.from_graph(g)
        except (ValueError, TypeError): c0 = None; rec.label("unreadable")
        if c0 is not None:
            with cut("from_graph of the teleported diagram"): c1 = zx.Circuit.from_graph(h)
            a = [r[:2] for r in oracle.read_circuit(c0) if not is_phase(r)]; b = [r[:2] for r in oracle.read_circuit(c1) if not is_phase(r)]
            if a != b: fail("gates changed: %s became %s", a, b)
            if not oracle.same_up_to_phase(oracle.lib_circuit_unitary(c1), U): fail("circuit read from the teleported diagram is not equivalent")
            if c1.tcount() != t1: fail("circuit has T-count %d, diagram %d", c1.tcount(), t1)
    # once more: nothing left to combine; then on to a normal simplification
    if spec["again"]:
        with cut("teleport_reduce again"): h2 = s.teleport_reduce(h)
        d = graphs.diff(skel(align(h, h2)), skel(graphs.snapshot(h2)))
        if d: fail("second teleportation changed the shape: %s", d)
        if oracle.nonclifford_count(h2) > oracle.nonclifford_count(h): fail("second teleportation raised the T-count")
        with cut("full_reduce after teleporting"): s.full_reduce(h2, quiet=True)
        with cut("full_reduce of the teleported diagram"): s.full_reduce(h, quiet=True)
        A = oracle.graph_tensor(h2)
        if not oracle.same_up_to_phase(oracle.graph_tensor(h), A): fail("simplifying the teleported diagram changed the map")
        B = oracle.graph_tensor(g)
        if not oracle.same_up_to_phase(A, B): fail("simplifying the teleported diagram changed the map")

def skel(s):
    """Everything except phases and the scalar."""
    return {"v": {v: (r[0], r[2], r[3], r[4]) for v, r in s["v"].items()}, "e": s["e"], "in": s["in"], "out": s["out"], "gr": s["gr"], "sc": (1, False)}

def align(g, h):
    """Snapshot of g with the numbers of its copy h (a copy keeps the order)."""
    m = dict(zip(g.vertices(), h.vertices()))
    if g.num_vertices() != h.num_vertices(): fail("teleported diagram has %d vertices, the original %d", h.num_vertices(), g.num_vertices())
    return graphs.rename(graphs.snapshot(g), m)

def judge(g, h, t0, rec):
    a, b = align(g, h), graphs.snapshot(h)
    d = graphs.diff(skel(a), skel(b))
    if d: fail("teleportation changed the shape: %s", d)
    t1 = oracle.nonclifford_count(h)
    if t1 > t0: fail("teleportation raised the number of non-Clifford phases from %d to %d", t0, t1)
    rec.nt(t1 < t0 or any(x != y for x, y in zip(phases(a), phases(b))))
    if t1 < t0: rec.label("fewer")
def phases(s): return [s["v"][v][1] for v in sorted(s["v"])]

def check_big(spec, rec):
    """Larger circuits, compared gate by gate."""
    from pyzx import simplify as s
    import pyzx as zx
    g = gens.build_circuit(spec["c"]).to_graph()
    with cut("from_graph"): c0 = zx.Circuit.from_graph(g)
    with cut("teleport_reduce"): h = s.teleport_reduce(g)
    judge(g, h, oracle.nonclifford_count(g), rec)
    with cut("from_graph of the teleported diagram"): c1 = zx.Circuit.from_graph(h)
    if not oracle.same_up_to_phase(oracle.lib_circuit_unitary(c1), gens.unitary(spec["c"])): fail("circuit read from the teleported diagram is not equivalent")
    if [r[:2] for r in oracle.read_circuit(c0) if not is_phase(r)] != [r[:2] for r in oracle.read_circuit(c1) if not is_phase(r)]: fail("gates changed")
    s.full_reduce(g, quiet=True)
    if oracle.nonclifford_count(g) != c1.tcount(): fail("teleportation leaves %d non-Clifford phases, full reduction %d", c1.tcount(), oracle.nonclifford_count(g))

@st.composite
def repeated(draw):
    """The same few parities phased again and again between CNOT blocks."""
    n = draw(st.integers(2, 4))
    tg = draw(st.lists(st.lists(st.integers(0, n - 1), min_size=2, max_size=n, unique=True), min_size=1, max_size=2))
    gs = []
    for _ in range(draw(st.integers(2, 7))):
        k = draw(st.sampled_from(["pp", "pp", "pp", "x", "cz", "had", "cnot"]))
        if k == "pp": gs.append(["ParityPhase", draw(st.sampled_from(tg)), [draw(st.sampled_from(gens.T_ONLY + ["1/3", "1/2"]))]])
        elif k == "x": gs.append(["NOT", [draw(st.integers(0, n - 1))], []])
        elif k == "had": gs.append(["HAD", [draw(st.integers(0, n - 1))], []])
        else:
            a = draw(st.integers(0, n - 1)); gs.append([k.upper(), [a, (a + 1) % n], []])
    return {"n": n, "gates": gs}

C = lambda *a, **k: gens.circuit(*a, **k).map(lambda c: {"src": "circuit", "c": c})
fam = {"phases": lambda: C(1, 4, 8, 30, names=tuple(gens.BASIC), phases=gens.phase_red),
       "cliffordt": lambda: C(1, 4, 10, 40, names=tuple(gens.CLIFFORD_T), phases=gens.phase_t),
       "cnotht": lambda: C(2, 4, 10, 60, names=("CNOT", "CNOT", "HAD", "T", "T*", "S", "CZ", "NOT"), phases=gens.phase_t),
       "gadgety": lambda: st.one_of(gadgety(2, 4), repeated(), repeated()).map(lambda c: {"src": "circuit", "c": c}),
       "all": lambda: C(1, 4, 0, 8),
       "diagram": lambda: gens.zx_source(which=("diagram", "gl", "gl", "gadget", "twin"))}
def S(g, pres): return lambda: st.fixed_dictionaries({"g": fam[g](), "pre": st.sampled_from(pres), "again": st.sampled_from([False, False, True])})
def wide(): return st.one_of(C(10, 12, 10, 60, names=tuple(gens.CLIFFORD_T), phases=gens.phase_t), gadgety(10, 12).map(lambda c: {"src": "circuit", "c": c}))
SUBS = [Sub("wide", lambda: st.fixed_dictionaries({"g": wide(), "pre": st.sampled_from(["none", "none", "spider", "gh"]), "again": st.just(False)}), check, 80)] + [
    Sub(n, S(n, ["none"] * 3 + ["spider", "gh", "id", "interior", "clifford"]), check, q) for n, q in
        (("phases", 1200), ("cliffordt", 900), ("cnotht", 900), ("gadgety", 900), ("all", 1800), ("diagram", 2500))] + [
    Sub("big", lambda: st.fixed_dictionaries({"c": gens.circuit(4, 6, 40, 110, names=("CNOT", "CNOT", "HAD", "T", "T*", "S", "CZ", "NOT", "ZPhase", "XPhase"), phases=gens.phase_t)}), check_big, 160)]
