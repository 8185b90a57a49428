"""Export to quimb tensor networks."""
from fractions import Fraction
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, fail, cut, Reject
from .. import gens, oracle, graphs

RULE = ("Random Z/X diagrams (isolated and one-legged spiders, direct wires, parallel edges on the multigraph backend), circuits and rewritten diagrams with scalars of every form including zero; names with gaps. "
        "Oracle: independent contraction of the diagram against quimb's contraction of the network over the boundary indices, and the network's open indices. Non-trivial: at least two spiders or wires.")
ASSUMPTIONS = ["Indices of the network are named by position in the list of vertices, as documented ('copying a graph guarantees consecutive indices').",
               "Other vertex kinds than Z and X may be refused."]

def spec_():
    return st.fixed_dictionaries({
        "d": st.one_of(gens.diagram(layout=False), gens.gl_diagram(bmax=4, gmax=2), gens.diagram(vmax=3, imax=3, omax=3, layout=False)),
        "backend": st.sampled_from(["simple", "simple", "multigraph"]), "zero": st.integers(0, 9).map(lambda x: x == 0), "gap": st.booleans(),
        "pre": st.sampled_from([None, None, None, "full_reduce", "clifford_simp", "to_rg"]),
        "sc": st.lists(st.one_of(st.tuples(st.just("pow"), st.integers(-30, 30)), st.tuples(st.just("phase"), st.sampled_from(["1/4", "1/3", "1"])), st.tuples(st.just("node"), st.sampled_from(["1/4", "1/2", "0"])),
                                 st.tuples(st.just("float"), st.sampled_from([0.25, -3.0]))).map(list), max_size=3)})

def judge(g, what):
    from pyzx.quimb import to_quimb_tensor
    order = {v: str(i) for i, v in enumerate(g.vertices())}
    before = graphs.snapshot(g)
    T = oracle.graph_tensor(g)
    with cut("to_quimb_tensor"): tn = to_quimb_tensor(g)
    df = graphs.diff(before, graphs.snapshot(g))
    if df: fail("to_quimb_tensor changed the diagram: %s", df)
    io = [order[v] for v in list(g.outputs()) + list(g.inputs())]
    if set(tn.outer_inds()) != set(io): fail("%s: open indices %s, boundaries %s", what, sorted(tn.outer_inds()), sorted(io))
    with cut("contract"): r = tn.contract(output_inds=io)
    if io: t = np.asarray(r.transpose(*io).data if hasattr(r, "transpose") and hasattr(r, "inds") else r)
    else: t = np.asarray(r.data if hasattr(r, "inds") else r)
    if t.shape != T.shape: fail("%s: the network contracts to shape %s", what, t.shape)
    k = max(1.0, abs(complex(g.scalar.to_number())))     # rounding errors grow with the scalar
    if not oracle.close(t / k, T / k): fail("%s: the network contracts to another tensor (ratio %s)", what, ratio(t, T))

def ratio(a, b):
    k = np.argmax(abs(b)) if b.size else 0
    return complex(a.flatten()[k] / b.flatten()[k]) if b.size and abs(b.flatten()[k]) > 1e-12 else "to zero"

def check(s, rec):
    import pyzx as zx
    d = dict(s["d"]); d.pop("pos", None)
    g = gens.build_diagram(d, s["backend"])
    if s["gap"]:
        x = g.add_vertex(graphs.vt("Z")); y = g.add_vertex(graphs.vt("Z"), phase=Fraction(1, 4)); g.remove_vertex(x); g.add_edge((y, y if False else list(g.vertices())[0]), graphs.et("h")) if d["verts"] and g.type(list(g.vertices())[0]) != 0 else None
    if s["pre"] and s["backend"] == "simple":
        with cut(s["pre"]):
            if s["pre"] == "to_rg": zx.simplify.to_rg(g)
            else: getattr(zx.simplify, s["pre"])(g, quiet=True)
    gens.apply_scalar(g.scalar, s["sc"])
    if s["zero"]: g.scalar.is_zero = True
    judge(g, "diagram")
    rec.nt(len(d["verts"]) + len(d["in"]) + len(d["out"]) >= 2); rec.label(s["backend"])

def par_spec():
    return gens.diagram(kinds=("Z", "Z", "X"), layout=False, parallel=True, vmax=4)
def check_par(d, rec):
    """Parallel edges kept as they are."""
    from . import C18
    g = C18.gens_multi(d); gens.apply_scalar(g.scalar, d.get("scalar", []))
    judge(g, "multigraph with parallel edges")
    e = [tuple(sorted(x[:2])) for x in d["edges"]]
    rec.nt(len(set(e)) < len(e))

def check_other(d, rec):
    """Vertex kinds the export does not know are refused, not misread."""
    from pyzx.quimb import to_quimb_tensor
    g = gens.build_diagram(d)
    T = oracle.graph_tensor(g)
    order = {v: str(i) for i, v in enumerate(g.vertices())}
    io = [order[v] for v in list(g.outputs()) + list(g.inputs())]
    try: tn = to_quimb_tensor(g)
    except Exception: rec.label("refused"); return
    r = tn.contract(output_inds=io)
    t = np.asarray(r.transpose(*io).data if io else (r.data if hasattr(r, "inds") else r))
    if not oracle.close(t, T): fail("the network contracts to another tensor")
    rec.label("converted")

def circ_spec(): return gens.circuit(nmax=5, gmax=14)
def check_circ(c, rec):
    U = gens.unitary(c)
    with cut("to_graph"): g = gens.build_circuit(c).to_graph()
    from pyzx.quimb import to_quimb_tensor
    if c["n"] == 0: raise Reject()
    order = {v: str(i) for i, v in enumerate(g.vertices())}
    with cut("to_quimb_tensor"): tn = to_quimb_tensor(g)
    io = [order[v] for v in list(g.outputs()) + list(g.inputs())]
    with cut("contract"): r = tn.contract(output_inds=io)
    t = np.asarray(r.transpose(*io).data).reshape(2 ** c["n"], 2 ** c["n"])
    if not oracle.same_up_to_phase(t, U): fail("the network of a circuit is not its unitary")
    rec.nt(len(c["gates"]) > 1)

SUBS = [
    Sub("diagram", spec_, check, 2500),
    Sub("parallel", par_spec, check_par, 800),
    Sub("other", lambda: st.one_of(gens.diagram(kinds=("Z", "H", "ZB"), layout=False), gens.w_diagram()), check_other, 200),
    Sub("circuit", circ_spec, check_circ, 600),
]
