"""Resolving parallel edges and self-loops preserves the linear map."""
import pyzx as zx
from fractions import Fraction
from hypothesis import strategies as st
from ..core import Sub, fail, cut
from .. import gens, oracle

RULE = ("2-4 vertices (Z, X, Z-box, H-box, boundaries attached), up to 9 edges between them with repetitions of both types in random order and "
        "insertion method (add_edge, add_edges, add_edge_table, mixtures on top of existing edges), on each backend. The reference is the "
        "contraction of the spec with every edge present. Non-trivial: some pair gets at least two edges (or a self-loop).")
ASSUMPTIONS = ["The simple backend accepts no self-loops; non-spider vertices accept no parallel edges (the library raises), except repeated plain edges between a Z spider and an H-box and Hadamard edges between an X spider and an H-box."]

VT = {"Z": 1, "X": 2, "ZB": 6}

@st.composite
def case(draw, loops, kinds=("Z", "Z", "X", "ZB")):
    n = draw(st.integers(1 if loops else 2, 4))
    verts = [[k, draw(st.sampled_from(["1", "2", "-1", "0.5", "1j"])) if k == "ZB" else draw(gens.phase_red)]
             for k in draw(st.lists(st.sampled_from(kinds), min_size=n, max_size=n))]
    hot = draw(st.integers(0, 2)) == 0   # all edges on one pair
    m = draw(st.integers(4, 14) if hot else st.integers(1, 9))
    edges = []
    for _ in range(m):
        a, b = (0, n - 1) if hot else (draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1)))
        if a == b and not loops: b = (a + 1) % n
        edges.append([a, b, draw(st.sampled_from("sh"))])
    nb = draw(st.integers(0, 2))
    bedges = [[n + i, draw(st.integers(0, n - 1)), draw(st.sampled_from("ssh"))] for i in range(nb)]
    k = draw(st.integers(0, nb))
    return {"verts": verts, "edges": edges, "bedges": bedges, "in": list(range(n, n + k)), "out": list(range(n + k, n + nb)),
            "how": draw(st.sampled_from(["add_edge", "add_edges", "table", "mixed", "mixed2"])), "split": draw(st.integers(0, m))}

@st.composite
def boxes(draw):
    """Spiders and H-boxes, as the rules for hypergraph diagrams leave them: connections to an H-box may be repeated."""
    c = draw(case(False, ("Z", "Z", "X", "H", "H")))
    kind, first, edges = [k for k, _ in c["verts"]], {}, []
    for a, b, t in c["edges"]:
        key = frozenset((a, b)); ks = sorted((kind[a], kind[b]))
        if "H" in ks:
            if ks == ["H", "H"] and key in first: continue
            if ks != ["H", "H"]:
                t0 = {"Z": "s", "X": "h"}[ks[1]]
                if key in first and first[key] != t0: continue # anything else may be refused
                if draw(st.integers(0, 3)): t = t0
                if key in first and t != t0: continue
        first.setdefault(key, t)
        edges.append([a, b, t])
    c["edges"] = edges
    return {**c, "how": draw(st.sampled_from(["add_edge", "table"])), "split": 0, "backend": "simple"}

def build(spec, backend, auto=True, toggle=False):
    from pyzx.utils import EdgeType, VertexType
    g = zx.Graph(backend)
    if backend == "multigraph": g.set_auto_simplify(auto)
    ids = []
    for k, p in spec["verts"]:
        v = g.add_vertex(gens_vt(k), phase=None if k == "ZB" else Fraction(p))
        if k == "ZB": g.set_vdata(v, "label", gens.parse_label(p))
        ids.append(v)
    for _ in spec["in"] + spec["out"]: ids.append(g.add_vertex(VertexType.BOUNDARY))
    E = {"s": EdgeType.SIMPLE, "h": EdgeType.HADAMARD}
    for a, b, t in spec["bedges"]: g.add_edge((ids[a], ids[b]), E[t])
    how, k = spec["how"], spec["split"]
    edges = [(ids[a], ids[b], t) for a, b, t in spec["edges"]]
    def table(l):
        tab = {}
        for a, b, t in l:
            key = (min(a, b), max(a, b))
            tab.setdefault(key, [0, 0])[0 if t == "s" else 1] += 1
        g.add_edge_table(tab)
    def bulk(l):
        for t in "sh": g.add_edges([(a, b) for a, b, u in l if u == t], E[t])
    def single(l):
        for a, b, t in l: g.add_edge((a, b), E[t])
    if toggle: # resolution is switched on half-way
        g.set_auto_simplify(False); single(edges[:k]); g.set_auto_simplify(True); edges = edges[k:]; k = len(edges) // 2
    if how == "add_edge": single(edges)
    elif how == "add_edges": bulk(edges)
    elif how == "table": table(edges)
    elif how == "mixed": single(edges[:k]); table(edges[k:])
    else: table(edges[:k]); bulk(edges[k:])
    g.set_inputs(tuple(ids[i] for i in spec["in"])); g.set_outputs(tuple(ids[i] for i in spec["out"]))
    return g

def gens_vt(k):
    from pyzx.utils import VertexType as V
    return {"Z": V.Z, "X": V.X, "ZB": V.Z_BOX, "H": V.H_BOX}[k]

def check(spec, rec):
    vs = {i: (k, complex(gens.parse_label(p)) if k == "ZB" else Fraction(p)) for i, (k, p) in enumerate(spec["verts"])}
    n = len(vs)
    for i in range(len(spec["in"] + spec["out"])): vs[n + i] = ("B", 0)
    T = oracle.contract(vs, spec["edges"] + spec["bedges"], spec["in"], spec["out"], 1.0)
    with cut("building on %s" % spec["backend"]):
        g = build(spec, spec["backend"], spec.get("auto", True), spec.get("toggle", False))
    T2 = oracle.graph_tensor(g)
    if not oracle.close(T2, T):
        fail("edges added by %s on %s represent another map%s", spec["how"], spec["backend"], " (scalar)" if oracle.proportional(T2, T) else "")
    if g.num_edges() != len(list(g.edges())): fail("num_edges() is %s but edges() lists %d", g.num_edges(), len(list(g.edges())))
    pairs = [tuple(sorted(e[:2])) for e in spec["edges"]]
    if spec["backend"] == "simple" or (spec.get("auto", True) and not spec.get("toggle")):
        # resolved: no two equal edges and no plain self-loop left
        left = [tuple(sorted(g.edge_st(e))) + (int(g.edge_type(e)),) for e in g.edges()]
        if len(set(left)) != len(left): fail("equal parallel edges were left between spiders: %s", left)
        if any(a == b for a, b, t in left): fail("a self-loop was left: %s", left)
    if spec.get("to"):
        with cut("copy to %s" % spec["to"]):
            h = g.copy(backend=spec["to"])
        if not oracle.close(oracle.graph_tensor(h), T): fail("copying a %s with parallel edges to %s changed the map", spec["backend"], spec["to"])
        if not oracle.close(oracle.graph_tensor(g), T): fail("copying changed the original")
    rec.nt(len(set(pairs)) < len(pairs) or any(a == b for a, b in pairs))

def sub(name, n, loops, **kw):
    kinds = kw.pop("kinds", ("Z", "Z", "X", "ZB"))
    return Sub(name, lambda: case(loops, kinds).flatmap(lambda c: st.fixed_dictionaries({k: st.just(v) for k, v in {**c, **kw}.items()})), check, n)

SUBS = [sub("simple", 4000, False, backend="simple"),
        sub("simple_ZX", 3000, False, backend="simple", kinds=("Z", "X")),
        Sub("boxes", boxes, check, 3000),
        sub("multigraph_auto", 4000, True, backend="multigraph"),
        sub("multigraph_raw", 1500, True, backend="multigraph", auto=False),
        sub("multigraph_toggle", 2500, True, backend="multigraph", toggle=True),
        sub("multi_to_simple", 2000, False, backend="multigraph", auto=False, to="simple"),
        sub("simple_to_multi", 1000, False, backend="simple", to="multigraph")]
