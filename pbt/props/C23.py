"""Graph storage behaves like a labelled graph."""
import pyzx as zx
from hypothesis import strategies as st
from ..core import Sub, fail, cut
from .. import graphs

RULE = ("Histories of up to 40 storage operations (vertex/edge additions and removals, bulk forms, indexed insertion, attribute changes, "
        "inputs/outputs) on each backend; after every operation all queries are compared with a plain model. Non-trivial: at least one "
        "removal took effect and the final graph is not empty.")
ASSUMPTIONS = ["The simple backend has no self-loops; parallel edges there are resolved on insertion and are judged by C24. "
               "The multigraph backend is driven with automatic simplification off.",
               "The degree of a vertex with a self-loop is not judged (not documented)."]

def new(backend):
    g = zx.Graph(backend)
    if backend == "multigraph": g.set_auto_simplify(False)
    return g

def refused(g, m, op, multi):
    """An edge change the graph cannot hold (an edge that is not there, a W-IO edge next to other edges) leaves it as it was."""
    _, kind, i, j, t = op
    a, b = m.pick(i), m.pick(j)
    if a is None or a == b: return
    par = [e[2] for e in m.e if e[:2] == (min(a, b), max(a, b))]
    e = (min(a, b), max(a, b), graphs.et(t)) if multi else (min(a, b), max(a, b))
    try:
        if kind == "rm":
            if not par or (multi and t not in par): g.remove_edge(e)
        elif not multi: return
        elif kind == "add":
            if t == "w" and par or "w" in par: g.add_edge((a, b), graphs.et(t))
        elif t not in par and par or (t in par and len(par) > 1):
            # set_edge_type from an absent type, or to a W-IO edge next to others
            if t in par: g.set_edge_type(e, graphs.et("w"))
            else: g.set_edge_type(e, graphs.et("s" if t != "s" else "h"))
    except (ValueError, KeyError):
        pass

def check(spec, rec):
    multi = spec["backend"] == "multigraph"
    g = new(spec["backend"]); m = graphs.Model()
    removed = False
    for i, op in enumerate(spec["ops"]):
        try:
            if op[0] == "bad": refused(g, m, op, multi)
            elif graphs.apply_op(g, m, op, multi) and op[0] in ("rmv", "rme"): removed = True
            graphs.check_model(g, m, multi, op[1:3] if op[0] in ("q", "adde") else (i, 2 * i + 1))
        except Exception as e:
            if type(e).__name__ == "Violation": raise type(e)("after operation %d %s: %s" % (i, op, e)) from None
            raise
    rec.nt(removed and bool(m.v))

bad = st.tuples(st.just("bad"), st.sampled_from(["rm", "add", "set"]), st.integers(0, 9), st.integers(0, 9), st.sampled_from("shw")).map(list)

def weave(x):
    """The history with refused changes between its operations."""
    ops, bads = list(x[0]), x[1]
    for k, (i, b) in enumerate(bads): ops.insert(i % (len(ops) + 1), b)
    return ops

def sub(backend, size, n):
    return Sub("%s_%d" % (backend, size), lambda: st.fixed_dictionaries({"backend": st.just(backend), "ops": st.tuples(graphs.history(size), st.lists(st.tuples(st.integers(0, 60), bad), max_size=4)).map(weave)}), check, n)

SUBS = [sub("simple", 10, 1500), sub("simple", 40, 2500), sub("multigraph", 10, 1500), sub("multigraph", 40, 2500)]
