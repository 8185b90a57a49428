"""JSON serialisation of diagrams and scalars is lossless."""
import json
from fractions import Fraction as F
from hypothesis import strategies as st
import pyzx as zx
from pyzx.graph.jsonparser import json_to_graph, graph_to_json
from pyzx.symbolic import new_var
from ..core import Sub, fail, cut, Reject
from .. import gens, graphs, oracle
from . import C20, C06

RULE = ("Random histories of storage operations (all vertex and edge kinds, grounds, annotations, inputs, outputs) and random ZX/ZH/W/Z-box diagrams "
        "with fine and symbolic phases, labels, string annotations that look like numbers, names from earlier loads, compositions of loaded diagrams, files in the style of Quantomatic (own names, runs of Hadamard nodes, boundaries marked with booleans); "
        "saved and loaded on both backends, compared structurally (up to renumbering) and, for the diagrams, by contraction. Non-trivial: at least "
        "three vertices and two edges.")
ASSUMPTIONS = ["Positions are compared with the three decimals the format stores.",
               "The keys name, label (on non-Z-box vertices free), boundary, coord, input, output of annotations are reserved by the format.",
               "The loader resolves parallel edges and self-loops as the storage does; for such diagrams only the linear map is compared."]

RES = ("name", "boundary", "coord", "input", "output")
def view(g):
    s = graphs.snapshot(g)
    zb = {v for v, x in s["v"].items() if x[0] == int(graphs.vt("ZB"))}
    def vd(v, d):
        d = {k: x for k, x in d.items() if k not in RES}
        if v in zb: d.setdefault("label", 1)
        return d
    return {"v": {v: (x[0], x[1] if x[0] != 0 else None, x[2] and x[0] != 0, vd(v, x[3]), (round(x[4][0], 3), round(x[4][1], 3))) for v, x in s["v"].items()}, "e": s["e"],
            "in": s["in"], "out": s["out"], "gr": [v for v in s["gr"] if s["v"][v][0] != 0], "sc": s["sc"]}

def order(g):
    """The loader numbers vertices: first the nodes, then the boundaries, each in iteration order."""
    vs = list(g.vertices())
    return [v for v in vs if g.type(v) != 0] + [v for v in vs if g.type(v) == 0]

def match(g, h):
    """A vertex correspondence, found from the data only (names in the saved text are not trusted)."""
    a, b = order(g), order(h)
    return dict(zip(a, b)) if len(a) == len(b) else None

def roundtrip(g, backend):
    S = graphs.snapshot(g)
    with cut("to_json"): js = g.to_json()
    if graphs.diff(graphs.snapshot(g), S): fail("to_json changed the diagram")
    with cut("from_json"):
        h = json_to_graph(js, backend)
    return js, h

def compare(g, h):
    if g.num_vertices() != h.num_vertices(): fail("loaded diagram has %s vertices instead of %s", h.num_vertices(), g.num_vertices())
    m = match(g, h)
    return graphs.diff(graphs.rename(view(g), m), view(h))

def check_hist(spec, rec):
    multi = spec["backend"] == "multigraph"
    g = zx.Graph(spec["backend"])
    if multi: g.set_auto_simplify(False)
    m = graphs.Model()
    for op in spec["ops"]: graphs.apply_op(g, m, op, multi)
    for i, (k, x) in enumerate(spec["notes"]):
        vs = list(g.vertices())
        if vs: g.set_vdata(vs[i % len(vs)], k, x)
    # an input that is also an output, or not a boundary, is not representable
    if set(g.inputs()) & set(g.outputs()) or any(g.type(v) != 0 for v in g.inputs() + g.outputs()): g.set_inputs(()); g.set_outputs(())
    pairs = {}
    par = any(pairs.setdefault(e[:2], e) is not e or e[0] == e[1] for e in graphs.edges_of(g))
    if par:
        g2 = [e for e in graphs.edges_of(g)]
    if par and not multi: raise Reject()
    if par: raise Reject()
    for lb in ("label",):
        for v in g.vertices():
            if g.type(v) == graphs.vt("ZB") and not isinstance(g.vdata(v, "label", 1), (int, float, complex, F)): g.set_vdata(v, "label", 2)
    for be in ("simple", "multigraph"):
        js, h = roundtrip(g, be)
        d = compare(g, h)
        if d: fail("loading on %s gives a different diagram: %s", be, d)
        with cut("second save"):
            js2 = h.to_json(); k = json_to_graph(js2, be)
        d = compare(h, k)
        if d: fail("saving and loading again changes the diagram: %s", d)
        if norm(js2) != norm(k.to_json()): fail("serialising is not stable")
    with cut("to_json without scalar"):
        h = json_to_graph(g.to_json(include_scalar=False), None)
    if h.scalar.to_number() != 1 or h.num_edges() != g.num_edges(): fail("to_json(include_scalar=False) is wrong")
    rec.nt(g.num_vertices() >= 3 and g.num_edges() >= 2)

def norm(js):
    d = json.loads(js)
    d["undir_edges"] = sorted(json.dumps(e, sort_keys=True) for e in d["undir_edges"].values())
    return json.dumps(d, sort_keys=True)

def check_map(spec, rec):
    g = gens.build_diagram(spec["d"], spec["backend"])
    g.scalar, _ = C20.make(spec["s"])
    for i, p in enumerate(spec["fine"]):
        vs = [v for v in g.vertices() if g.type(v) in (1, 2)]
        if vs: g.set_phase(vs[i % len(vs)], F(p))
    vs = list(g.vertices())
    for i, (q, r) in enumerate(spec["pos"]):
        if vs: g.set_position(vs[i % len(vs)], q, r)
    T = oracle.graph_tensor(g)
    js, h = roundtrip(g, spec["to"])
    d = compare(g, h)
    if d: fail("loaded diagram differs: %s", d)
    T2 = oracle.graph_tensor(h)
    if T.shape != T2.shape or not oracle.close(T, T2, 1e-8): fail("loaded diagram represents a different map")
    # a diagram assembled from loaded ones survives again
    with cut("combine"):
        k = h @ h if spec["comb"] == "tensor" else C06.safe(lambda: h.adjoint() + h) if spec["comb"] == "compose" else h.copy()
        js3 = k.to_json(); l = json_to_graph(js3, spec["to"])
    d = compare(k, l)
    if d: fail("a %s of loaded diagrams does not survive: %s", spec["comb"], d)
    rec.label(spec["comb"]); rec.nt(g.num_vertices() >= 3 and g.num_edges() >= 2)

def check_wide(spec, rec):
    """Diagrams with many wires and vertices: numbering beyond one digit."""
    g = gens.build_circuit(spec["c"]).to_graph(backend=spec["backend"])
    if spec["pre"] and spec["backend"] != "multigraph": getattr(zx.simplify, spec["pre"])(g, quiet=True)
    for be in ("simple", "multigraph"):
        js, h = roundtrip(g, be)
        d = compare(g, h)
        if d: fail("loading on %s gives a different diagram: %s", be, d)
    if not oracle.close(oracle.graph_matrix(h), oracle.graph_matrix(g), 1e-8): fail("loaded diagram represents a different map")
    js, k = roundtrip(h, spec["backend"])
    d = compare(h, k)
    if d: fail("saving and loading again changes the diagram: %s", d)
    rec.nt(g.num_vertices() > 20)

def check_sym(spec, rec):
    g = gens.build_diagram(spec["d"])
    vs = [v for v in g.vertices() if g.type(v) in (1, 2)]
    for i, (n, c, k) in enumerate(spec["polys"]):
        g.variable_types[n] = n.startswith("b")
        p = new_var(n, g.variable_types) * F(c) + F(k)
        if vs: g.set_phase(vs[i % len(vs)], p)
        elif i == 0: g.scalar.add_phase(p)
        if spec["inscalar"] and i == 0: g.scalar.add_phase(p)
        if spec["inscalar"] and i == 1: g.scalar.add_node(p)
    with cut("json"):
        h = json_to_graph(g.to_json(), None)
    if h.variable_types != g.variable_types: fail("variable types %s became %s", g.variable_types, h.variable_types)
    m = match(g, h)
    for v in vs:
        if h.phase(m[v]) != g.phase(v): fail("phase %s became %s", g.phase(v), h.phase(m[v]))
        fv = lambda p: {x.name: x.is_bool for x in p.free_vars()} if hasattr(p, "free_vars") else {}
        if fv(g.phase(v)) != fv(h.phase(m[v])): fail("variables changed type")
    if h.scalar.phase != g.scalar.phase or h.scalar.phasenodes != g.scalar.phasenodes or h.scalar.power2 != g.scalar.power2: fail("scalar %s %s became %s %s", g.scalar.phase, g.scalar.phasenodes, h.scalar.phase, h.scalar.phasenodes)
    rec.nt(len(vs) >= 2 and bool(spec["polys"]))

def check_class(spec, rec):
    """from_json on the graph class, from text and from a parsed object."""
    g = gens.build_diagram(spec["d"])
    js = g.to_json()
    with cut("from_json"):
        a = zx.Graph.from_json(js) if hasattr(zx.Graph, "from_json") else json_to_graph(js)
        b = type(g).from_json(js)
    for x in (a, b):
        d = compare(g, x)
        if d: fail("from_json gives a different diagram: %s", d)
    rec.nt(g.num_vertices() >= 3)

VALS = {"0": ["", None, "0", "0 \\pi", "2\\pi"], "1": ["\\pi", "pi", "\u03c0", "1\\pi", "-\\pi", "3 \\pi", "1"]}
def spell(p, r):
    """A phase the way Quantomatic files write it."""
    p = F(p) % 2; k = str(p)
    if k in VALS: return VALS[k][r % len(VALS[k])]
    n, d = p.numerator, p.denominator
    m = "" if n == 1 else str(n)
    k = n - 2 * d; km = "-" if k == -1 else str(k)
    L = ["%s\\pi/%d" % (m, d), "%d\\pi/%d" % (k, d), "%d/%d" % (n, d), "%s \u03c0 / %d" % (m, d), "%s\\pi/%d" % (km, d), "%spi/%d" % (km, d)]
    if d & (d - 1) == 0: L += ["%s" % (n / d), "%s\\pi" % (k / d)]
    return L[r % len(L)]

def check_foreign(spec, rec):
    """A file written by hand in the style of Quantomatic: own names, runs of Hadamard nodes, booleans for the boundaries."""
    d = spec["d"]; nv = len(d["verts"]); r = list(spec["r"]); names = {}
    def nxt():
        r.append(r.pop(0)); return r[-1]
    pool = ["v%d" % i for i in spec["ids"]]; nodes, wires, edges = {}, {}, {}
    for i, (k, p) in enumerate(d["verts"]):
        nm = names[i] = pool.pop(0); x = {"annotation": {"coord": [float(i), -1.5]}}
        plain = k == "H" and F(p) % 2 == 1 and nxt() % 2       # the Hadamard node of Quantomatic
        v = spell(p, nxt())
        if k == "H" and not plain and v is None: v = ""
        if k == "Z" and v is None and nxt() % 2: pass
        else:
            x["data"] = {"type": "hadamard" if k == "H" else k}
            if v is not None and not plain: x["data"]["value"] = v
            if k == "H" and not plain: x["data"]["is_edge"] = "false"
        nodes[nm] = x
    for j in range(len(d["in"]) + len(d["out"])):
        i = nv + j; nm = names[i] = "b%d" % (j * 3) if spec["bn"] else pool.pop(0)
        a = {"boundary": True, "coord": [j, 2]}
        if spec["bool"]: a["input"], a["output"] = i in d["in"], i in d["out"]
        elif i in d["in"]: a["input"] = d["in"].index(i) * 2
        else: a["output"] = d["out"].index(i) + 5
        wires[nm] = a = {"annotation": a}
    if spec["bool"]: wires = {names[i]: wires[names[i]] for i in d["in"] + d["out"]}    # the order in the file counts
    long = 0
    for a, b, t in d["edges"]:
        n = (1 if t == "h" else 0) + 2 * (nxt() % 3 == 0) + 2 * (nxt() % 9 == 0) if spec["runs"] else int(t == "h")
        run = [pool.pop(0) for _ in range(n)]; long += n > 1
        for h in run: nodes[h] = {"annotation": {"coord": [0, 0]}, "data": {"type": "hadamard", "is_edge": "true"}}
        ch = [names[a]] + run + [names[b]]
        for u, w in zip(ch, ch[1:]):
            if nxt() % 2: u, w = w, u
            edges["e%d" % len(edges)] = {"src": u, "tgt": w}
    order = lambda m: m if spec["keep"] else dict(sorted(m.items(), key=lambda kv: hash_(kv[0], spec["ids"][0])))
    doc = {"wire_vertices": wires if spec["bool"] else order(wires), "node_vertices": order(nodes), "undir_edges": order(edges)}
    with cut("json_to_graph"): g = json_to_graph(json.dumps(doc), spec["to"])
    if len(g.inputs()) != len(d["in"]) or len(g.outputs()) != len(d["out"]): fail("%d inputs and %d outputs were read as %d and %d", len(d["in"]), len(d["out"]), len(g.inputs()), len(g.outputs()))
    T = gens.spec_tensor({**d, "scalar": []}); T2 = oracle.graph_tensor(g)
    if T.shape != T2.shape or not oracle.proportional(T, T2): fail("the file was read as another map: %s", json.dumps(doc))
    if not long and spec["to"] == "multigraph" and not oracle.close(T, T2, 1e-8): fail("the file was read as another map (by a scalar)")
    rec.label("runs" if long else "plain"); rec.nt(len(nodes) > 2 and len(edges) > 2)

def hash_(s, k):
    import zlib
    return zlib.crc32(("%d %s" % (k, s)).encode())

def check_graphml(spec, rec):
    """The GraphML export lists every vertex and edge with kind, phase and position."""
    import xml.etree.ElementTree as ET
    g = gens.build_diagram(spec["d"], spec["backend"])
    vs = list(g.vertices())
    for i, (q, r) in enumerate(spec["pos"]):
        if vs: g.set_position(vs[i % len(vs)], q, r)
    S = graphs.snapshot(g)
    with cut("to_graphml"): x = g.to_graphml()
    if graphs.diff(graphs.snapshot(g), S): fail("to_graphml changed the diagram")
    try: root = ET.fromstring(x.encode())
    except ET.ParseError as e: fail("to_graphml is not XML: %s", e)
    ns = root.tag[:root.tag.index("}") + 1]
    nodes, edges = {}, []
    for n in root.iter(ns + "node"):
        if n.get("id") in nodes: fail("node %s is listed twice", n.get("id"))
        nodes[n.get("id")] = {d.get("key"): d.text for d in n.iter(ns + "data")}
    for n in root.iter(ns + "edge"):
        edges.append((n.get("source"), n.get("target"), [d.text for d in n.iter(ns + "data") if d.get("key") == "etype"]))
    if set(nodes) != {str(v) for v in g.vertices()}: fail("nodes %s for vertices %s", sorted(nodes), vs)
    for v in vs:
        d = nodes[str(v)]
        if int(d["type"]) != int(g.type(v)) or F(d["phase"]) != g.phase(v) or abs(float(d["x"]) - 100 * g.row(v)) > 1e-6 or abs(float(d["y"]) - 100 * g.qubit(v)) > 1e-6:
            fail("vertex %s of type %s, phase %s at %s,%s is written as %s", v, g.type(v), g.phase(v), g.qubit(v), g.row(v), d)
    got = sorted((*sorted((int(a), int(b))), int(t[0])) for a, b, t in edges)
    if got != graphs.edges_of(g): fail("edges %s are written as %s", graphs.edges_of(g), got)
    rec.nt(g.num_vertices() >= 3 and g.num_edges() >= 2)

D = st.fixed_dictionaries
D_ZX = dict(kinds=("Z", "X", "Z", "X", "H", "ZB", "W"), vmax=6, emax=8, scalar=False)
note = st.tuples(st.sampled_from(["a", "note", "b c", "name", "j"]), st.sampled_from(["1", "j", "v0", "b1", "1.5", "text", 3, [1, 2], "1e5", True, "nan"])).map(lambda t: [t[0], t[1] if t[0] != "name" or isinstance(t[1], str) else "v1"])
fine = st.lists(st.sampled_from(["1/512", "1023/1000", "355/1130", "1/3", "511/513", "3602879701896397/36028797018963968"]), max_size=3)
pos = st.lists(st.tuples(st.sampled_from([0, 1, -3, 0.5, 2.125, 1 / 3]), st.sampled_from([0, 4, -1, 2.5, 0.001])).map(list), max_size=5)
SUBS = [
    Sub("history", lambda: D({"ops": graphs.history(20), "notes": st.lists(note, max_size=3), "backend": st.sampled_from(["simple", "multigraph"])}), check_hist, 3000),
    Sub("map", lambda: D({"d": gens.diagram(**D_ZX), "s": C20.ops(3), "fine": fine, "pos": pos, "comb": st.sampled_from(["tensor", "compose", "copy"]),
                          "backend": st.sampled_from([None, "multigraph"]), "to": st.sampled_from([None, "simple", "multigraph"])}), check_map, 3000),
    Sub("wide", lambda: D({"c": gens.circuit(10, 12, 5, 30, names=tuple(gens.CLIFFORD_T) + ("CCZ",), phases=gens.phase_red), "backend": st.sampled_from([None, None, "multigraph"]),
                           "pre": st.sampled_from(["", "spider_simp", "full_reduce"])}), check_wide, 120),
    Sub("symbolic", lambda: D({"d": gens.diagram(vmin=1), "polys": st.lists(st.tuples(st.sampled_from(["b", "x", "alpha", "bj", "j", "e"]), st.sampled_from(["1", "1/2", "-1/4", "3", "2"]), st.sampled_from(["0", "1/2", "1"])).map(list), min_size=1, max_size=4),
                               "inscalar": st.booleans()}), check_sym, 1500),
    Sub("class", lambda: D({"d": gens.diagram(**D_ZX)}), check_class, 500),
    Sub("foreign", lambda: D({"d": gens.diagram(kinds=("Z", "X", "H"), vmax=5, emax=7, scalar=False, parallel=False), "ids": st.permutations(list(range(60))), "r": st.lists(st.integers(0, 20), min_size=1, max_size=12),
                              "bn": st.booleans(), "bool": st.booleans(), "keep": st.booleans(), "runs": st.booleans(), "to": st.sampled_from([None, "simple", "multigraph"])}), check_foreign, 2000),
    Sub("graphml", lambda: D({"d": gens.diagram(**D_ZX), "pos": pos, "backend": st.sampled_from([None, "multigraph"])}), check_graphml, 500),
    Sub("scalar", C20.ops, lambda spec, rec: scalar(spec, rec), 2000),
]

def scalar(spec, rec):
    from pyzx.graph.scalar import Scalar
    s, z = C20.make(spec)
    S = C20.state(s)
    with cut("scalar json"):
        js = s.to_json(); t = Scalar.from_json(js)
    if C20.state(s) != S: fail("to_json changed the scalar")
    if abs(t.to_number() - z) > 1e-7 * abs(z) + 1e-9: fail("scalar %s became %s", z, t.to_number())
    A, B = C20.state(s), C20.state(t)
    if A != B: fail("parts of the scalar changed: %s, %s", A, B)
    if t.to_json() != js: fail("not stable")
    rec.nt(len(spec) >= 3)
