"""TikZ export and import."""
import cmath, math, re, warnings
from fractions import Fraction
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, fail, cut, Reject
from .. import gens, oracle, graphs

RULE = ("Random diagrams (Z, X, H-boxes, Z-boxes, W nodes, Hadamard edges everywhere including to boundaries, phases as Fraction or int, parallel edges on the multigraph backend) with random layouts "
        "(distinct, overlapping, negative, fractional positions); sequences of up to four; pictures written by hand with every style synonym, label form, edge option and id numbering; broken pictures. "
        "Oracle: an independent reader of the TikZ text plus contraction; structure by position. Non-trivial: at least two nodes and one edge.")
ASSUMPTIONS = ["TikZ text carries no inputs and outputs: the harness recognises boundaries by position, which it keeps distinct.",
               "Positions survive with two decimals.", "Parallel edges are only used where they can be resolved (Z/X spiders on the simple backend).",
               "Grounds, annotations and symbolic phases have no TikZ form."]

# ---------------------------------------------------------------- reference reader
def kind_of(style):
    from pyzx.utils import settings
    t = {"none": "B", "Z dot": "Z", "Z phase dot": "Z", "X dot": "X", "X phase dot": "X", "hadamard": "H", "Z box": "ZB", "W triangle": "W", "W input": "W"}
    if style not in t: fail("the picture uses the unknown node style %r", style)
    return t[style]

NODE = re.compile(r"^\\node\s*\[style=([^\]]*)\]\s*\((\d+)\)\s*at\s*\(\s*(-?[\d.]+)\s*,\s*(-?[\d.]+)\s*\)\s*\{(.*)\};$")
EDGE = re.compile(r"^\\draw\s*(?:\[style=([^\]]*)\])?\s*\((\d+)\)\s*to\s*\((\d+)\);$")

def label_value(kind, lab):
    s = lab.replace("$", "").strip()
    if kind == "ZB": return complex(Fraction(s)) if re.fullmatch(r"-?\d+/\d+", s) else complex(1) if s == "" else complex(s.replace(" ", ""))
    if s == "": return Fraction(1 if kind == "H" else 0)
    m = re.fullmatch(r"\\frac\{(-?\d*)\\pi\}\{(\d+)\}", s)
    if m: return Fraction({"": 1, "-": -1}.get(m.group(1), m.group(1) or 1) if not m.group(1).lstrip("-").isdigit() else int(m.group(1)), int(m.group(2)))
    m = re.fullmatch(r"(-?\d*)\\pi", s)
    if m: return Fraction({"": 1, "-": -1}[m.group(1)] if m.group(1) in ("", "-") else int(m.group(1)))
    m = re.fullmatch(r"(-?\d*)\\pi/(\d+)", s)
    if m: return Fraction({"": 1, "-": -1}[m.group(1)] if m.group(1) in ("", "-") else int(m.group(1)), int(m.group(2)))
    if s == "0": return Fraction(0)
    fail("the picture has the label %r", lab)

def read(text):
    """(list of (id, kind, value, x, y), list of (src, tgt, type))"""
    nodes, edges = [], []
    lines = [l.strip() for l in text.strip().splitlines() if l.strip()]
    if not lines or lines[0] != r"\begin{tikzpicture}" or lines[-1] != r"\end{tikzpicture}": fail("not a tikzpicture: %r", text[:80])
    for l in lines:
        if l.startswith("\\node"):
            m = NODE.match(l)
            if not m: fail("node line %r", l)
            k = kind_of(m.group(1))
            nodes.append((int(m.group(2)), k, m.group(5) if k == "B" else label_value(k, m.group(5)), float(m.group(3)), float(m.group(4))))
        elif l.startswith("\\draw"):
            m = EDGE.match(l)
            if not m: fail("edge line %r", l)
            t = {None: "s", "": "s", "simple": "s", "hadamard edge": "h", "W io edge": "w"}.get(m.group(1))
            if t is None: fail("the picture uses the unknown edge style %r", m.group(1))
            edges.append((int(m.group(2)), int(m.group(3)), t))
    ids = [x[0] for x in nodes]
    if len(set(ids)) != len(ids): fail("two nodes of the picture have the same name: %s", sorted(i for i in ids if ids.count(i) > 1))
    for a, b, _ in edges:
        if a not in ids or b not in ids: fail("an edge of the picture ends at a missing node")
    return nodes, edges

def tensor_of(nodes, edges, ins, outs):
    vs = {i: (k, val if k != "B" else 0) for i, k, val, x, y in nodes}
    return oracle.contract(vs, [(a, b, "s" if t == "w" else t) for a, b, t in edges], ins, outs, 1.0)

# ---------------------------------------------------------------- diagrams with layouts
BPOS = [(-3.5, 20.0), (11.25, -8.0), (0.33, 30.0), (40.0, -0.5), (-17.0, 0.01), (2.0, -55.5)]
coord = st.sampled_from([0, 1, 2, 3, 0.5, -1, 2.25, 0.125, -4.75, 100, 0.001])

def spec_diagram(parallel=False):
    return st.one_of(
        gens.diagram(kinds=("Z", "Z", "X", "H", "ZB"), layout=False, parallel=parallel),
        gens.diagram(kinds=("Z", "X"), layout=False, parallel=parallel, imax=3, omax=3),
        gens.diagram(kinds=("Z", "X"), layout=False, vmax=3, imax=3, omax=3, phases=st.sampled_from(["0", "1", "1/2", "1/3", "5/7", "7/4"])),
        gens.w_diagram())

@st.composite
def layout_spec(draw, multi=True):
    backend = draw(st.sampled_from(["simple", "simple", "multigraph"])) if multi else "simple"
    par = backend == "multigraph" and draw(st.booleans())
    d = draw(spec_diagram(par))
    n = len(d["verts"])
    mode = draw(st.sampled_from(["distinct", "distinct", "any"]))
    if mode == "distinct":
        k = draw(st.sampled_from([1, 0.5, 0.02, -3, 12.25])); pos = [[(i % 3) * k, (i // 3) * k] for i in draw(st.permutations(list(range(n))))]
    else: pos = [[draw(coord), draw(coord)] for _ in range(n)]
    return {"d": d, "pos": pos, "mode": mode, "backend": backend, "int": draw(st.booleans()), "par": par, "order": draw(st.sampled_from([0, 0, 1, 2, 3]))}

def build(s):
    d = dict(s["d"]); d.pop("pos", None)
    if s["par"]:
        import pyzx as zx
        g = gens_multi(d)
    else: g = gens.build_diagram(d, s["backend"])
    vs = list(g.vertices())
    bs = list(g.inputs()) + list(g.outputs())
    inner = [v for v in sorted(vs) if v not in bs]
    # vertices were added in the order of the spec
    for v, (q, r) in zip(inner, s["pos"]): g.set_position(v, q, r)
    for i, v in enumerate(bs): g.set_position(v, *BPOS[i])
    if s["int"]:
        for v in inner:
            p = g.phase(v)
            if isinstance(p, Fraction) and p.denominator == 1: g.set_phase(v, int(p))
    o = s.get("order")
    if o == 3: g = graphs.spread(g, len(vs) + len(list(g.edges())))
    return graphs.reorder(g, o) if o else g

def gens_multi(d):
    import pyzx as zx
    from pyzx.utils import EdgeType, VertexType
    g = zx.Graph("multigraph"); g.set_auto_simplify(False)
    simple = dict(d); simple["edges"] = []
    h = gens.build_diagram(simple, "multigraph")
    h.set_auto_simplify(False)
    vs = list(h.vertices())      # in the order they were made
    for a, b, t in d["edges"]: h.add_edge((vs[a], vs[b]), graphs.et(t))
    return h

def at(nodes, v, g):
    x, y = round(float(g.row(v)), 2), round(-float(g.qubit(v)), 2)
    m = [n[0] for n in nodes if abs(n[3] - x) < 0.006 and abs(n[4] - y) < 0.006 and n[1] == "B"]
    if len(m) != 1: fail("boundary %s at row %s, line %s is drawn %d times", v, g.row(v), g.qubit(v), len(m))
    return m[0]

def default_backend(s): return s["backend"]

def check_export(s, rec):
    g = build(s); before = graphs.snapshot(g)
    with cut("to_tikz"): text = g.to_tikz()
    df = graphs.diff(before, graphs.snapshot(g))
    if df: fail("to_tikz changed the diagram: %s", df)
    nodes, edges = read(text)
    want = sorted((round(float(g.row(v)), 2), round(-float(g.qubit(v)), 2)) for v in g.vertices())
    bs = set(g.inputs()) | set(g.outputs())
    have = [(n[3], n[4]) for n in nodes]
    for x, y in want:
        m = [h for h in have if abs(h[0] - x) < 0.006 and abs(h[1] - y) < 0.006]
        if not m: fail("no node at (%s, %s)", x, y)
        have.remove(m[0])
    T = oracle.graph_tensor(g, False)
    T2 = tensor_of(nodes, edges, [at(nodes, v, g) for v in g.inputs()], [at(nodes, v, g) for v in g.outputs()])
    if not oracle.proportional(T2, T): fail("the picture is another map than the diagram:\n%s", text)
    # with the scalar drawn as well
    with cut("to_tikz"): text2 = g.to_tikz(draw_scalar=True)
    core = lambda t: sorted(re.sub(r"\(\d+\)", "", l.strip()) for l in t.splitlines())
    if len(re.findall(r"\\node", text2)) != len(nodes) + 1 or len(re.findall(r"\\draw", text2)) != len(edges): fail("drawing the scalar changes the picture")
    ids = re.findall(r"\\node \[[^\]]*\] \((\d+)\)", text2)
    if len(set(ids)) != len(ids): fail("drawing the scalar gives two nodes the same name")
    rec.nt(len(nodes) > 1 and len(edges) > 0)

def check_wide(s, rec):
    """Many wires: numbering beyond one digit."""
    from pyzx.tikz import tikz_to_graph
    import pyzx as zx
    g = gens.build_circuit(s["c"]).to_graph(backend=s["backend"])
    if s["pre"] and s["backend"] != "multigraph": getattr(zx.simplify, s["pre"])(g, quiet=True)
    with cut("to_tikz"): text = g.to_tikz()
    with cut("from_tikz"): h = tikz_to_graph(text, backend=s["backend"], warn_overlap=False, fuse_overlap=False)
    if len([v for v in h.vertices() if h.type(v) == graphs.vt("B")]) != len(g.inputs()) + len(g.outputs()): fail("boundaries were lost or made up")
    at = {(h.row(v), h.qubit(v)): v for v in h.vertices() if h.type(v) == graphs.vt("B")}
    def find(v):
        k = (round(float(g.row(v)), 2), round(float(g.qubit(v)), 2))
        if k not in at: fail("no boundary was read at %s", k)
        return at[k]
    h.set_inputs(tuple(find(v) for v in g.inputs())); h.set_outputs(tuple(find(v) for v in g.outputs()))
    if not oracle.proportional(oracle.graph_matrix(h), oracle.graph_matrix(g, False)): fail("the diagram read back is another map")
    rec.nt(g.num_vertices() > 20)

def check_roundtrip(s, rec):
    from pyzx.tikz import tikz_to_graph
    import pyzx as zx
    g = build(s)
    with cut("to_tikz"): text = g.to_tikz()
    poss = [("%.2f" % g.row(v), "%.2f" % -g.qubit(v)) for v in g.vertices()]
    overlap = len({(float(a), float(b)) for a, b in poss}) < len(poss)
    hb = any(g.edge_type(e) == graphs.et("h") and any(g.type(x) == 0 for x in g.edge_st(e)) for e in g.edges())
    if overlap:
        try:
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                tikz_to_graph(text)
            if not w: fail("vertices at the same position were read without a warning")
        except Warning: pass
        rec.label("overlap")
    kw = dict(warn_overlap=False, fuse_overlap=False)
    with cut("from_tikz"):
        if s["backend"] == "multigraph": h = tikz_to_graph(text, backend="multigraph", **kw)
        else:
            h = zx.Graph.from_tikz(text, **kw) if len(text) % 2 else tikz_to_graph(text, **kw)
    if s["backend"] == "multigraph" and type(h).__name__ != "Multigraph": fail("from_tikz: wrong backend")
    if not overlap:
        with cut("from_tikz"): tikz_to_graph(text, backend=s["backend"])   # no warning about positions
    B = graphs.vt("B")
    def find(v):
        m = [x for x in h.vertices() if h.type(x) == B and abs(h.row(x) - round(float(g.row(v)), 2)) < 0.006 and abs(h.qubit(x) - round(float(g.qubit(v)), 2)) < 0.006]
        if len(m) != 1: fail("boundary %s was read %d times", v, len(m))
        return m[0]
    h.set_inputs(tuple(find(v) for v in g.inputs())); h.set_outputs(tuple(find(v) for v in g.outputs()))
    if not oracle.proportional(oracle.graph_tensor(h), oracle.graph_tensor(g, False)): fail("the diagram read back is another map:\n%s", text)
    if not overlap and not hb and not s["par"]:
        def view(g):
            key = {v: (round(float(g.row(v)), 2) + 0.0, round(float(g.qubit(v)), 2) + 0.0) for v in g.vertices()}
            ty = {v: int(g.type(v)) for v in g.vertices()}
            val = {v: complex(g.vdata(v, "label", 1)) if g.type(v) == graphs.vt("ZB") else Fraction(g.phase(v)) if g.type(v) not in (0, graphs.vt("WI"), graphs.vt("WO")) else 0 for v in g.vertices()}
            return sorted((key[v], ty[v], str(val[v])) for v in g.vertices()), sorted((sorted([key[a], key[b]]), t) for a, b, t in graphs.edges_of(g))
        a, b = view(g), view(h)
        for x, y, what in ((a[0], b[0], "vertices"), (a[1], b[1], "edges")):
            if x != y: fail("%s read back differ: %s / %s", what, [i for i in x if i not in y][:3], [i for i in y if i not in x][:3])
        rec.label("exact")
    # reading again what was written from the read diagram changes nothing
    with cut("to_tikz"): t2 = h.to_tikz()
    n1, e1 = read(text); n2, e2 = read(t2)
    if not s["par"] and (sorted(x[1:] for x in map(norm, n1)) != sorted(x[1:] for x in map(norm, n2)) or len(e1) != len(e2)): fail("writing the read diagram again gives another picture:\n%s\n%s", text, t2)
    rec.nt(len(n1) > 1 and len(e1) > 0)

def norm(n):
    return (n[0], n[1], str(n[2]), n[3] + 0.0, n[4] + 0.0)

def check_sequence(s, rec):
    from pyzx.tikz import to_tikz_sequence
    gs = [build(x) for x in s["l"]]
    with cut("to_tikz_sequence"): text = to_tikz_sequence(gs, draw_scalar=False, maxwidth=s["w"])
    nodes, edges = read(text)
    where, i = {}, 0
    E = list(edges)
    for k, g in enumerate(gs):
        hb = sum(1 for e in g.edges() if g.edge_type(e) == graphs.et("h") and any(g.type(x) == 0 for x in g.edge_st(e)))
        block = nodes[i:i + g.num_vertices() + hb]; i += len(block)
        if len(block) != g.num_vertices() + hb: fail("diagram %d of the sequence has %d nodes in the picture", k, len(block))
        ids = {b[0] for b in block}
        mine = [e for e in E if e[0] in ids or e[1] in ids]
        if any(e[0] not in ids or e[1] not in ids for e in mine): fail("an edge joins two diagrams of the sequence")
        E = [e for e in E if e not in mine]
        if not block: continue
        # the block is the diagram moved by some offset
        vs = list(g.vertices())
        xs = sorted(b[3] for b in block); 
        ok = False
        for b in block:
            dx, dy = b[3] - float(g.row(vs[0])), b[4] + float(g.qubit(vs[0]))
            left = [(c[3], c[4], c[0], c[1]) for c in block]; m = {}
            for v in vs:
                c = [c for c in left if abs(c[0] - dx - float(g.row(v))) < 0.02 and abs(c[1] - dy + float(g.qubit(v))) < 0.02 and (c[3] == "B") == (g.type(v) == 0)]
                if not c: break
                left.remove(c[0]); m[v] = c[0][2]
            else: ok = True; break
        if not ok: fail("diagram %d of the sequence is not drawn at one place", k)
        T = tensor_of(block, mine, [m[v] for v in g.inputs()], [m[v] for v in g.outputs()])
        if not oracle.proportional(T, oracle.graph_tensor(g, False)): fail("diagram %d of the sequence is drawn as another map:\n%s", k, text)
    if i != len(nodes) or E: fail("the picture has extra nodes or edges")
    # with scalars: one more node each, names still distinct
    with cut("to_tikz_sequence"): text2 = to_tikz_sequence(gs, draw_scalar=True, maxwidth=s["w"])
    ids = re.findall(r"\\node \[[^\]]*\] \((\d+)\)", text2)
    if len(ids) != len(nodes) + len(gs): fail("drawing the scalars gives %d nodes instead of %d", len(ids), len(nodes) + len(gs))
    if len(set(ids)) != len(ids): fail("two nodes of the sequence have the same name")
    rec.nt(len(gs) > 1 and len(edges) > 0)

def check_many(s, rec):
    """Sequences of diagrams with many wires: every node and edge of every diagram appears once, under its own name."""
    import pyzx as zx
    from pyzx.tikz import to_tikz_sequence
    gs, want = [], []
    for ws in s["l"]:
        g = zx.Graph(); ins, outs, w = [], [], 0
        for k, (mid, h1, h2) in enumerate(ws):
            a = g.add_vertex(0, k, 0); b = g.add_vertex(0, k, 2); ins.append(a); outs.append(b)
            if mid:
                v = g.add_vertex(1, k, 1); g.add_edge((a, v), graphs.et("h" if h1 else "s")); g.add_edge((v, b), graphs.et("h" if h2 else "s")); w += h1 + h2
            else: g.add_edge((a, b), graphs.et("h" if h1 else "s")); w += h1
        g.set_inputs(tuple(ins)); g.set_outputs(tuple(outs)); gs.append(g); want.append(w)
    with cut("to_tikz_sequence"): text = to_tikz_sequence(gs, draw_scalar=s["sc"], maxwidth=s["w"])
    ids = re.findall(r"\\node \[[^\]]*\] \((\d+)\)", text)
    n = sum(g.num_vertices() for g in gs) + sum(want) + (len(gs) if s["sc"] else 0)
    if len(ids) != n: fail("%d nodes in the picture, %d expected", len(ids), n)
    if len(set(ids)) != n: fail("two nodes of the sequence have the same name")
    ends = [tuple(e) for e in re.findall(r"\((\d+)(?:\.center)?\) to \((\d+)(?:\.center)?\)", text)]
    deg = {}
    for a, b in ends:
        for x in (a, b): deg[x] = deg.get(x, 0) + 1
    if len(ends) != sum(g.num_edges() for g in gs) + sum(want): fail("%d edges in the picture, %d expected", len(ends), sum(g.num_edges() for g in gs) + sum(want))
    if sorted(deg.values()) != sorted([1] * sum(2 * g.num_inputs() for g in gs) + [2] * (sum(g.num_vertices() - 2 * g.num_inputs() for g in gs) + sum(want))): fail("the wires of the picture are joined differently")
    rec.nt(sum(want) > 5 and len(gs) > 1)

# ---------------------------------------------------------------- hand-written pictures
SYN = {"B": ["none", "empty", "boundary", "None"],
       "Z": ["Z dot", "z spider", "Z", "Z phase dot", "white spider", "white phase spider", "white dot", "white phase dot", "green dot", "green node", "green phase node"],
       "X": ["X dot", "x spider", "X", "X phase dot", "grey spider", "grey phase spider", "grey dot", "grey phase dot", "gray spider", "gray phase spider", "gray dot", "gray phase dot", "red dot", "red node", "red phase node"],
       "H": ["hadamard", "H", "small hadamard", "Hadamard"], "WI": ["W input"], "WO": ["W output", "W", "W triangle"],
       "ZB": ["Z box", "zbox", "zbox phase", "green box", "green box phase", "green phase box", "white box", "white box phase", "white phase box"]}
ESYN = {"s": [None, "simple", "none", "empty"], "h": ["hadamard edge", "Hadamard edge"], "w": ["W edge", "W io edge"]}
OPT = ["", "bend left=30", "in=180, out=0, looseness=1.25", "bend right"]

def labels(p, kind):
    """All ways of writing the phase p."""
    p = Fraction(p)
    n, d = p.numerator, p.denominator
    if kind == "H": base = ["", "\\pi", "$\\pi$", "\\neg"] if p == 1 else ["0"] if p == 0 else []
    else: base = ["", "$0$", "0"] if p == 0 else ["$\\pi$", "\\pi", "$\\neg$", "$-\\pi$", "$3\\pi$", "~$\\pi$"] if p == 1 else []
    if p == 0: base.append("$0\\pi$"); base.append("$2\\pi$")
    if d > 1:
        ns = [""] if n == 1 else [str(n)]
        if n == 1: ns.append("1")
        m = n - 2 * d
        ns.append("-" if m == -1 else str(m))
        for x in ns:
            base += ["$\\frac{%s\\pi}{%d}$" % (x, d), "$%s\\pi/%d$" % (x, d), "%s\\frac{\\pi}{%d}" % (x, d), "$\\frac{%s \\pi}{%d}$" % (x, d), "$\\frac{%s}{%d}\\pi$" % (x if x not in ("", "-") else x + "1", d)]
    return base

@st.composite
def hand_spec(draw):
    par = draw(st.booleans())
    backend = draw(st.sampled_from([None, "simple", "multigraph"]))
    d = draw(st.one_of(gens.diagram(kinds=("Z", "Z", "X"), layout=False, parallel=par), gens.diagram(kinds=("Z", "X", "H", "ZB"), layout=False), gens.w_diagram()))
    n = len(d["verts"]) + len(d["in"]) + len(d["out"])
    ids = draw(st.permutations(list(range(n)))) if draw(st.booleans()) else draw(st.lists(st.integers(0, 999), min_size=n, max_size=n, unique=True))
    return {"d": d, "ids": list(ids), "backend": backend, "r": draw(st.integers(0, 10 ** 9)), "ign": draw(st.booleans())}

def write(s):
    import random
    rnd = random.Random(s["r"])
    d = s["d"]; nv = len(d["verts"])
    L = []
    for i in range(nv + len(d["in"]) + len(d["out"])):
        if i < nv:
            k, p = d["verts"][i]
            lab = rnd.choice(labels(p, k)) if k in ("Z", "X", "H") else ("" if p == "1" and rnd.random() < .5 else "$%s$" % p) if k == "ZB" else ""
        else: k, lab = "B", ""
        if k == "H" and lab == "" and Fraction(p) != 1: lab = "0"
        st_ = rnd.choice(SYN[k])
        x, y = ("%.2f" % (i * 1.5), "%.2f" % -(i % 4)) if rnd.random() < .7 else ("%d" % (i * 3 + 500), "%d" % i)
        L.append("\\node [style=%s] (%d) at (%s, %s) {%s};" % (st_, s["ids"][i], x, y, lab))
    rnd.shuffle(L)
    E = []
    for a, b, t in d["edges"]:
        sty = rnd.choice(ESYN[t]); opt = rnd.choice(OPT)
        parts = [x for x in (opt, "style=" + sty if sty else "") if x]
        if rnd.random() < .5: parts.reverse()
        o = "[%s] " % ", ".join(parts) if parts else ""
        if rnd.random() < .5: a, b = b, a
        c = [".center" if x >= nv and rnd.random() < .5 else "" for x in (a, b)]
        E.append("\\draw %s(%d%s) to (%d%s);" % (o, s["ids"][a], c[0], s["ids"][b], c[1]))
    rnd.shuffle(E)
    ind = rnd.choice(["", "\t", "    "])
    head = "\\begin{tikzpicture}" + rnd.choice(["", "", "[scale=0.5]"])
    out = [head, ind + "\\begin{pgfonlayer}{nodelayer}"] + [ind * 2 + l for l in L] + [ind + "\\end{pgfonlayer}", ind + "\\begin{pgfonlayer}{edgelayer}"] + [ind * 2 + l for l in E] + [ind + "\\end{pgfonlayer}", "\\end{tikzpicture}"]
    if rnd.random() < .3: out.insert(rnd.randrange(len(out)), "")
    return rnd.choice(["", "\n"]) + "\n".join(out) + rnd.choice(["", "\n"]), L, E

def ref_tensor(d):
    return gens.spec_tensor({**d, "scalar": []})

def pos_of(line):
    m = re.search(r"at \(([^,]*), ([^)]*)\)", line); return float(m.group(1)), float(m.group(2))

def check_import(s, rec):
    from pyzx.tikz import tikz_to_graph
    text, L, E = write(s)
    d = s["d"]; nv = len(d["verts"])
    with cut("tikz_to_graph"): g = tikz_to_graph(text, ignore_nonzx=s["ign"], backend=s["backend"])
    pos = {}
    for l in L: pos[int(re.search(r"\((\d+)\)", l).group(1))] = pos_of(l)
    def find(i):
        x, y = pos[s["ids"][i]]
        m = [v for v in g.vertices() if abs(g.row(v) - x) < 1e-9 and abs(g.qubit(v) + y) < 1e-9]
        if len(m) != 1: fail("%d vertices read at (%s, %s)", len(m), x, y)
        return m[0]
    if g.num_vertices() != len(L): fail("%d vertices read, %d written", g.num_vertices(), len(L))
    g.set_inputs(tuple(find(i) for i in d["in"])); g.set_outputs(tuple(find(i) for i in d["out"]))
    for i, (k, p) in enumerate(d["verts"]):
        v = find(i)
        kk = {"WI": "WI", "WO": "WO"}.get(k, k)
        if g.type(v) != graphs.vt(kk): fail("a %s was read as %s:\n%s", k, g.type(v), text)
        par = [e for e in d["edges"] if e[0] != e[1] and i in e[:2]]
        multi = len({tuple(sorted(e[:2])) for e in par}) < len(par)
        if k in ("Z", "X", "H") and not multi and g.phase(v) != Fraction(p) % 2: fail("phase %s was read as %s:\n%s", p, g.phase(v), text)
    if not oracle.proportional(oracle.graph_tensor(g), ref_tensor(d)): fail("read as another map:\n%s", text)
    rec.nt(len(L) > 1 and len(E) > 0)

# ---------------------------------------------------------------- broken pictures
GARB = ["foo", "2", "a\\pi", "$\\frac{x\\pi}{2}$", "$\\frac{\\pi}{y}$", "$\\pi/z$", "$1.5\\pi$", "$\\frac{\\pi}{0}$", "$x\\pi/2$"]
def check_broken(s, rec):
    from pyzx.tikz import tikz_to_graph
    text, L, E = write(s)
    lines = [l.strip() for l in text.strip().splitlines() if l.strip()]
    k = s["how"]; w = s["which"]
    N = [i for i, l in enumerate(lines) if l.startswith("\\node")]; D = [i for i, l in enumerate(lines) if l.startswith("\\draw")]
    Zs = [i for i in N if re.search(r"style=([^\]]*)\]", lines[i]).group(1) in SYN["Z"] + SYN["X"]]
    def sub(i, pat, rep): lines[i] = re.sub(pat, lambda m: rep, lines[i], count=1)
    if k in ("nostyle", "style", "notnode", "id", "coord") and not N: raise Reject()
    if k in ("estyle", "notdraw", "eid", "enum", "dangling") and not D: raise Reject()
    if k == "label" and not Zs: raise Reject()
    if k == "head": lines[0] = s["junk"]
    elif k == "tail": del lines[-1]
    elif k == "layer": del lines[1]
    elif k == "elayer": lines.remove("\\begin{pgfonlayer}{edgelayer}")
    elif k == "empty": lines = []
    elif k == "other": lines = ["OPENQASM 2.0;", 'include "qelib1.inc";', "qreg q[2];", "h q[0];"]
    elif k == "nostyle": sub(N[w % len(N)], r"\[[^\]]*\]\s*", "")
    elif k == "style": sub(N[w % len(N)], r"style=[^\]]*", "style=purple " + "blob")
    elif k == "notnode": sub(N[w % len(N)], r"\\node", "\\nod")
    elif k == "id": sub(N[w % len(N)], r"\(\d+\)", "(v%d)" % w)
    elif k == "coord": sub(N[w % len(N)], r"at \([^,]*,", "at (left,")
    elif k == "label": sub(Zs[w % len(Zs)], r"\{.*\};$", "{%s};" % GARB[w % len(GARB)])
    elif k == "estyle": i = D[w % len(D)]; lines[i] = "\\draw [style=wobbly] " + lines[i][lines[i].index("("):]
    elif k == "notdraw": sub(D[w % len(D)], r"\\draw", "\\drew")
    elif k == "eid": sub(D[w % len(D)], r"\(\d+(\.center)?\)", "(4711)")
    elif k == "enum": sub(D[w % len(D)], r"\(\d+(\.center)?\)", "(abc)")
    elif k == "dangling":
        e = re.findall(r"\((\d+)", lines[D[w % len(D)]])[0]
        lines = [l for l in lines if not (l.startswith("\\node") and "(%s)" % e in l)]
    t = "\n".join(lines)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("error")
            g = tikz_to_graph(t, warn_overlap=bool(w % 2))
    except (Exception, Warning): pass
    else: fail("%s: read without an error or warning:\n%s", k, t)
    # asked to ignore what is not ZX, unknown styles become boundaries and plain edges
    if k in ("style", "estyle") and not any(len({tuple(sorted(e[:2])) for e in s["d"]["edges"]}) < len(s["d"]["edges"]) for _ in [0]):
        if k == "style" and any(x in lines[N[w % len(N)]] for x in ()): return
        with cut("ignore_nonzx"): g = tikz_to_graph(t, ignore_nonzx=True, backend="multigraph")
        if g.num_vertices() != len(N): fail("ignore_nonzx: %d vertices, expected %d", g.num_vertices(), len(N))
        if k == "style":
            x, y = pos_of(lines[N[w % len(N)]])
            v = [v for v in g.vertices() if abs(g.row(v) - x) < 1e-9 and abs(g.qubit(v) + y) < 1e-9]
            if len(v) != 1 or g.type(v[0]) != 0: fail("ignore_nonzx: an unknown style was not read as a boundary")
    rec.label(k); rec.nt(bool(N))

HOW = ["head", "tail", "layer", "elayer", "empty", "other", "nostyle", "style", "notnode", "id", "coord", "label", "label", "estyle", "notdraw", "eid", "enum", "dangling"]
def broken_spec():
    return st.tuples(hand_spec(), st.sampled_from(HOW), st.integers(0, 20), st.sampled_from(["\\begin{picture}", "\\documentclass{article}", "tikzpicture"])).map(
        lambda t: {**t[0], "backend": None, "how": t[1], "which": t[2], "junk": t[3]})

SUBS = [
    Sub("export", layout_spec, check_export, 2000),
    Sub("roundtrip", layout_spec, check_roundtrip, 3000),
    Sub("wide", lambda: st.fixed_dictionaries({"c": gens.circuit(10, 12, 5, 30, names=tuple(gens.CLIFFORD_T) + ("CCZ",), phases=gens.phase_red), "backend": st.sampled_from([None, "simple", "multigraph"]),
                                               "pre": st.sampled_from(["", "", "spider_simp", "full_reduce"])}), check_wide, 120),
    Sub("sequence", lambda: st.fixed_dictionaries({"l": st.lists(layout_spec(), min_size=1, max_size=4), "w": st.sampled_from([10, 3, 25, 0.5])}), check_sequence, 800),
    Sub("wires", lambda: st.fixed_dictionaries({"l": st.lists(st.lists(st.tuples(st.booleans(), st.booleans(), st.booleans()).map(list), min_size=1, max_size=14), min_size=1, max_size=3), "sc": st.booleans(), "w": st.sampled_from([10, 3, 25])}), check_many, 400),
    Sub("import", hand_spec, check_import, 3000),
    Sub("broken", broken_spec, check_broken, 1500),
]
