"""Applying the difference of two diagrams to the first gives the second."""
from fractions import Fraction as F
from hypothesis import strategies as st
import pyzx as zx
from pyzx.graph.diff import GraphDiff
from pyzx.symbolic import new_var
from ..core import Sub, fail, cut
from .. import gens, graphs

RULE = ("Pairs of diagrams: a history of storage operations applied to a copy of a random history (edits, including removal, re-addition of indices, "
        "retyping, edge type changes, Z-box labels, symbolic and fine phases), or two unrelated histories. Applying the difference directly and after "
        "a JSON round trip must give the second diagram. Non-trivial: the two diagrams differ in vertices or edges and share some.")
ASSUMPTIONS = ["Inputs, outputs, ground flags and scalars are not part of a difference (documented fields).", "Simple and multigraph storage, the latter with and without automatic simplification.",
               "Vertex data is compared too (labels of Z-boxes are part of the meaning)."]

def run(g, ops, m):
    for op in ops: graphs.apply_op(g, m, op, g.backend == "multigraph")

def empty(spec):
    if not spec.get("multi"): return zx.Graph()
    g = zx.Graph("multigraph"); g.set_auto_simplify(False)  # parallel edges are stored as they are
    return g

def view(g):
    s = graphs.snapshot(g)
    return {"v": {v: (x[0], x[1], x[3], x[4]) for v, x in s["v"].items()}, "e": s["e"], "in": (), "out": (), "gr": [], "sc": (1, False)}

def decorate(g, marks):
    vs = sorted(g.vertices())
    for i, k, x in marks:
        if not vs: return
        v = vs[i % len(vs)]
        if k == "phase": g.set_phase(v, F(x))
        elif k == "poly": g.set_phase(v, new_var(x[0], g_types(g, x[0])) * F(x[1]) + F(x[2]))
        elif k == "label": g.set_vdata(v, "label", F(x) if "/" in x else complex(x) if "j" in x else float(x))
        elif k == "note": g.set_vdata(v, "note", x)
        elif k == "clear": g.clear_vdata(v) if hasattr(g, "clear_vdata") else None

def g_types(g, n):
    g.variable_types.setdefault(n, n.startswith("b"))
    return g.variable_types

def check(spec, rec):
    g = empty(spec); m = graphs.Model()
    run(g, spec["a"], m); decorate(g, spec["ma"])
    if spec["same"]:
        h = g.clone(); mh = graphs.from_graph(h)
        mh.ins, mh.outs = m.ins, m.outs
    else:
        h = empty(spec); mh = graphs.Model()
    run(h, spec["b"], mh); decorate(h, spec["mb"])
    Sg, Sh = graphs.snapshot(g), graphs.snapshot(h)
    with cut("GraphDiff"):
        d = GraphDiff(g, h)
        k = d.apply_diff(g)
    if graphs.diff(graphs.snapshot(g), Sg) or graphs.diff(graphs.snapshot(h), Sh): fail("computing or applying a difference changed a diagram")
    x = graphs.diff(view(k), view(h))
    if x: fail("applying the difference does not give the second diagram: %s", x)
    with cut("GraphDiff json"):
        d2 = GraphDiff.from_json(d.to_json())
        k2 = d2.apply_diff(g)
    x = graphs.diff(view(k2), view(h))
    if x: fail("after JSON, applying the difference does not give the second diagram: %s", x)
    for v in k2.vertices():
        p, q = k2.phase(v), h.phase(v)
        if hasattr(q, "free_vars") and {w.name: w.is_bool for w in p.free_vars()} != {w.name: w.is_bool for w in q.free_vars()}: fail("after JSON, variables changed type: %s", p)
    # the result shares nothing with the difference or with the second diagram
    for v in list(k.vertices()): k.set_vdata(v, "zz", 1)
    for v in list(k2.vertices()): k2.set_vdata(v, "zz", 1)
    if graphs.diff(graphs.snapshot(h), Sh) or graphs.diff(graphs.snapshot(g), Sg): fail("the result shares vertex data with an argument")
    x = graphs.diff(view(d.apply_diff(g)), view(h))
    if x: fail("applying the difference a second time gives something else: %s", x)
    if spec["same"]:
        with cut("difference of equal diagrams"):
            z = GraphDiff(h, h.clone())
        if z.removed_verts or z.new_verts or z.removed_edges or z.new_edges or z.changed_phases or z.changed_vertex_types or z.changed_edge_types or z.changed_pos or z.changed_vdata:
            fail("the difference of a diagram with itself is not empty")
    rec.label("edit" if spec["same"] else "unrelated")
    if any(view(h)["e"].count(e) > view(g)["e"].count(e) + 1 for e in view(h)["e"]): rec.label("several new parallel edges")
    rec.nt((view(g)["v"] != view(h)["v"] or view(g)["e"] != view(h)["e"]) and bool(set(view(g)["v"]) & set(view(h)["v"])))

def check_auto(spec, rec):
    """Diagrams on the multigraph backend with automatic simplification on: the target is reached whatever the order of the changes."""
    def build(d):
        g = zx.Graph("multigraph"); vs = [g.add_vertex(graphs.vt(t), i, i) for i, t in enumerate(d["t"])]
        for a, b, t in d["e"]:
            if a % len(vs) != b % len(vs): g.add_edge((vs[a % len(vs)], vs[b % len(vs)]), graphs.et(t))
        return g
    g, h = build(spec["g"]), build(spec["h"])
    with cut("GraphDiff"):
        d = GraphDiff(g, h); k = d.apply_diff(g)
    x = graphs.diff(view(k), view(h))
    if x: fail("applying the difference does not give the second diagram: %s", x)
    with cut("GraphDiff json"):
        k = GraphDiff.from_json(d.to_json()).apply_diff(g)
    x = graphs.diff(view(k), view(h))
    if x: fail("after JSON, applying the difference does not give the second diagram: %s", x)
    rec.nt(spec["g"]["t"] != spec["h"]["t"] and bool(spec["h"]["e"]))

def check_wide(spec, rec):
    """A diagram and what simplification makes of it; names of two and three digits, fresh and removed ones."""
    g = gens.build_circuit(spec["c"]).to_graph()
    h = g.clone()
    getattr(zx.simplify, spec["pre"])(h, quiet=True)
    if spec["swap"]: g, h = h, g
    with cut("GraphDiff"):
        d = GraphDiff(g, h); k = d.apply_diff(g)
    x = graphs.diff(view(k), view(h))
    if x: fail("applying the difference does not give the second diagram: %s", x)
    with cut("GraphDiff json"):
        k = GraphDiff.from_json(d.to_json()).apply_diff(g)
    x = graphs.diff(view(k), view(h))
    if x: fail("after JSON, applying the difference does not give the second diagram: %s", x)
    rec.nt(view(g) != view(h)); rec.label(spec["pre"])

mdiag = st.fixed_dictionaries({"t": st.lists(st.sampled_from(["Z", "X", "H", "B"]), min_size=2, max_size=4), "e": st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3), st.sampled_from(["s", "h"])).map(list), max_size=8)})

mark = st.tuples(st.integers(0, 9), st.sampled_from(["phase", "poly", "label", "note", "clear"])).flatmap(lambda t: st.tuples(st.just(t[0]), st.just(t[1]), {
    "phase": st.sampled_from(["1/512", "3/4", "1023/1000", "0", "1"]), "poly": st.tuples(st.sampled_from(["b", "x", "bj", "j"]), st.sampled_from(["1", "1/2", "3", "-1/4"]), st.sampled_from(["0", "1/2", "1"])).map(list),
    "label": st.sampled_from(["1/2", "1j", "2", "-0.5", "(1+2j)", "3/1"]), "note": st.sampled_from(["1", "j", "text", "1e3", ""]), "clear": st.just("")}[t[1]])).map(list)
D = st.fixed_dictionaries
SUBS = [Sub("edit", lambda: D({"a": graphs.history(15), "b": graphs.history(10), "ma": st.lists(mark, max_size=3), "mb": st.lists(mark, max_size=3), "same": st.just(True)}), check, 3500),
        Sub("unrelated", lambda: D({"a": graphs.history(15), "b": graphs.history(15), "ma": st.lists(mark, max_size=3), "mb": st.lists(mark, max_size=3), "same": st.just(False)}), check, 2000),
        Sub("simplified", lambda: D({"c": st.one_of(gens.circuit(2, 5, 5, 30, names=tuple(gens.CLIFFORD_T), phases=gens.phase_t), gens.circuit(8, 14, 10, 50, names=tuple(gens.CLIFFORD_T) + ("CCZ",), phases=gens.phase_t)),
                                      "pre": st.sampled_from(["spider_simp", "id_simp", "to_gh", "interior_clifford_simp", "clifford_simp", "full_reduce", "pivot_gadget_simp"]), "swap": st.booleans()}), check_wide, 300),
        Sub("multigraph", lambda: D({"a": graphs.history(12), "b": graphs.history(12), "ma": st.lists(mark, max_size=2), "mb": st.lists(mark, max_size=2), "same": st.booleans(), "multi": st.just(True)}), check, 1500),
        Sub("multigraph_auto", lambda: D({"g": mdiag, "h": mdiag}), check_auto, 800)]
