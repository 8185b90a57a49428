"""Copies of diagrams are faithful and isolated."""
import pyzx as zx
from fractions import Fraction
from hypothesis import strategies as st
from ..core import Sub, fail, cut
from .. import gens, oracle, graphs

RULE = ("A graph built by a random history (any vertex kinds, grounds, annotations, scalar, removed vertices so that names are not "
        "consecutive) is copied by copy/clone/copy to the other backend/adjoint twice, compared, and then either side is modified by a "
        "second random history while the other is watched. Non-trivial: at least 2 vertices and an edge, and the second history did something.")
ASSUMPTIONS = ["copy() renumbers vertices consecutively in iteration order; clone() keeps names (both documented)."]

def build(spec):
    multi = spec["backend"] == "multigraph"
    g = zx.Graph(spec["backend"])
    if multi: g.set_auto_simplify(spec["auto"])
    m = graphs.Model()
    for op in spec["ops"]:
        if multi and spec["auto"] and op[0] in ("adde", "addes"):
            # automatic simplification: no parallel edges in this history
            graphs.apply_op(g, m, op if op[0] == "adde" and (m.pick(op[1]) is None or graphs.free(m, m.pick(op[1]), m.pick(op[2]), op[3], False)) else ["q", 0, 0], True)
        else:
            graphs.apply_op(g, m, op, multi)
    for v in list(g.vertices())[:spec.get("notes", 0)]:
        for k in ("one", "two"):
            g.set_vdata(v, k, v); m.v[v]["vd"][k] = v
    g.variable_types.update({k: True for k in spec["vars"]})
    return g, m

def check(spec, rec):
    multi = spec["backend"] == "multigraph"
    g, m = build(spec)
    S = graphs.snapshot(g); vars0 = dict(g.variable_types)
    how = spec["how"]
    with cut(how):
        if how == "copy": h = g.copy()
        elif how == "clone": h = g.clone()
        elif how == "adjoint2": h = g.copy(adjoint=True).copy(adjoint=True)
        elif how == "stdcopy":
            import copy; h = copy.deepcopy(g)
        else: h = g.copy(backend=how)
    if how == "stdcopy": how = "clone"
    rec.label(how)
    if graphs.diff(graphs.snapshot(g), S): fail("%s changed its argument: %s", how, graphs.diff(graphs.snapshot(g), S))
    want_backend = how if how in ("simple", "multigraph") else spec["backend"]
    if type(h).backend != want_backend: fail("%s gave backend %s", how, type(h).backend)
    vs = list(g.vertices())
    mp = {v: v for v in vs} if how == "clone" else {v: i for i, v in enumerate(vs)}
    want = graphs.rename(S, mp)
    got = graphs.snapshot(h)
    if how == "adjoint2":
        # labels of Z-boxes aside, positions may shift by a constant: compare without layout
        for d in (want, got):
            d["v"] = {v: x[:3] + (dict({"label": 1}, **x[3]) if x[0] == int(graphs.vt("ZB")) else x[3], None) for v, x in d["v"].items()}
    if graphs.diff(want, got): fail("%s is not faithful: %s", how, graphs.diff(want, got))
    if how != "adjoint2" and dict(h.variable_types) != vars0: fail("%s lost variable types", how)
    if h.vindex() <= max(h.vertices(), default=-1): fail("%s: next vertex name %s is in use", how, h.vindex())
    # later modifications are invisible on the other side
    side, other = (g, h) if spec["side"] else (h, g)
    smulti = type(side).backend == "multigraph"
    if smulti: side.set_auto_simplify(False)
    m2 = graphs.from_graph(side)
    before = graphs.snapshot(other)
    did = 0
    for v in list(side.vertices())[:1 if spec.get("notes") else 0]:
        side.set_vdata(v, "two", "changed"); m2.v[v]["vd"]["two"] = "changed"
    for op in spec["ops2"]:
        did += bool(graphs.apply_op(side, m2, op, smulti))
        graphs.check_model(side, m2, smulti, None)
        side.variable_types["zz"] = False
    d = graphs.diff(graphs.snapshot(other), before)
    if d: fail("modifying the %s after %s changed the other side: %s", "original" if spec["side"] else "copy", how, d)
    if "zz" in other.variable_types and did: fail("variable types are shared after %s", how)
    # and the watched side still behaves
    m3 = graphs.from_graph(other)
    graphs.check_model(other, m3, type(other).backend == "multigraph", None)
    rec.nt(len(vs) >= 2 and bool(S["e"]) and did > 0)

def check_auto(spec, rec):
    """The simplification mode of a multigraph survives copying."""
    g, _ = build(spec)
    if spec["auto"]: g.set_auto_simplify(True)
    a = g.clone() if spec["how"] == "clone" else g.copy()
    for h in (g, a):
        u, v = h.add_vertex(1), h.add_vertex(1)
        h.add_edge((u, v), graphs.et("h")); h.add_edge((u, v), graphs.et("h"))
    n = [len(list(h.edges())) for h in (g, a)]
    if n[0] != n[1]: fail("a %s of a multigraph resolves parallel edges differently", spec["how"])
    rec.nt()

def spec(backends, hows):
    return lambda: st.sampled_from(backends).flatmap(lambda b: st.fixed_dictionaries({
        "backend": st.just(b), "auto": st.booleans(), "ops": graphs.history(14),
        "notes": st.sampled_from([0, 0, 2, 20]), "vars": st.lists(st.sampled_from("abc"), max_size=2, unique=True),
        "how": st.sampled_from([h for h in hows if not (b == "multigraph" and h == "simple")]), "side": st.booleans(), "ops2": graphs.history(8)}))

SUBS = [Sub("simple", spec(["simple"], ["copy", "clone", "adjoint2", "multigraph", "simple", "stdcopy"]), check, 4000),
        Sub("multigraph", spec(["multigraph"], ["copy", "clone", "multigraph", "stdcopy"]), check, 3000),
        Sub("mode", spec(["multigraph"], ["copy", "clone"]), check_auto, 300)]
