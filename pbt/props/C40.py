"""The notebook editor: edits, rewrites, undo, redo, snapshots, copy and paste against a history of states."""
import contextlib, importlib, io, json, os
from collections import Counter
from fractions import Fraction
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, Reject, fail, cut
from .. import gens, oracle, graphs
from . import C20, C39

RULE = ("An editor opened on a random diagram (spiders, H-boxes, Z-boxes, W nodes, any scalar; with and without the matrix and scalar shown) and a history of what a user does: add and delete nodes and edges, "
        "move, retype phases, select, press any lit-up rewrite button, undo, redo, snapshot, copy, paste, change the diagram from Python and refresh. After every step the shown data, the diagram and the model "
        "(list of past states with a pointer) are compared, and rewrites must keep the linear map. Non-trivial: at least two steps changed the diagram and one was a rewrite, an undo, a redo or a paste.")
ASSUMPTIONS = ["The browser side is played by the harness: it sends the JSON that zx_editor_widget.js sends (new nodes get a larger name, an existing edge is retyped, phases are written as the prompt writes them).",
               "Rewrites are judged while every boundary has one wire and W nodes are whole; a refused rewrite (the simple storage cannot hold the parallel edge) must leave the diagram as it was.",
               "With the matrix shown the editor detects inputs and outputs by position, so they are not part of the state there. Symbolic phases and grounds are outside the editor."]

ED = None
def editor():
    global ED
    import pyzx as zx
    from pyzx.utils import settings
    if ED is None:
        import IPython.display, pyzx.editor
        m = settings.mode; settings.mode = "notebook"
        ED = importlib.reload(pyzx.editor)
        settings.mode = m
        ED.display = lambda *a, **k: None; ED.HTML = lambda t: t
    settings.javascript_location = os.path.join(os.path.dirname(zx.__file__), "js")
    return ED

class Out:
    """stands in for the output area below the editor."""
    def __init__(self): self.buf = io.StringIO(); self.cm = None
    def __enter__(self): self.cm = contextlib.redirect_stdout(self.buf); self.cm.__enter__(); return self
    def __exit__(self, *a): self.cm.__exit__(*a); return False
    def take(self): s = self.buf.getvalue(); self.buf = io.StringIO(); return s

class Clip:
    text = ""
    def copy(self, t): self.text = t
    def paste(self): return self.text

def lab(g, v):
    from pyzx.utils import VertexType
    return complex(oracle.zbox_label(g, v)) if g.type(v) == VertexType.Z_BOX else None
def state(g, io):
    return {"v": {v: (int(g.type(v)), g.phase(v), lab(g, v), round(float(g.row(v)), 6) + 0.0, round(float(g.qubit(v)), 6) + 0.0) for v in g.vertices()},
            "e": graphs.edges_of(g), "io": (tuple(g.inputs()), tuple(g.outputs())) if io else None, "sc": graphs.scalar_key(g.scalar)}
def differ(a, b):
    for v in sorted(set(a["v"]) | set(b["v"])):
        if a["v"].get(v) != b["v"].get(v):
            x, y = a["v"].get(v), b["v"].get(v)
            if x is None or y is None or x[:3] != y[:3] or max(abs(x[3] - y[3]), abs(x[4] - y[4])) > 1e-5: return "vertex %s: %s / %s" % (v, x, y)
    if a["e"] != b["e"]: return "edges: %s / %s" % (a["e"], b["e"])
    if a["io"] != b["io"]: return "inputs, outputs: %s / %s" % (a["io"], b["io"])
    if abs(a["sc"][0] - b["sc"][0]) > 1e-9 * max(1, abs(a["sc"][0])) or a["sc"][1] != b["sc"][1]: return "scalar: %s / %s" % (a["sc"][0], b["sc"][0])

def judgeable(g):
    from pyzx.utils import VertexType as V, EdgeType as E
    bs = []
    for v in g.vertices():
        t = g.type(v)
        if t == V.BOUNDARY:
            if g.vertex_degree(v) != 1: return None
            bs.append(v)
        if t in (V.W_INPUT, V.W_OUTPUT):
            if sum(g.edge_type(e) == E.W_IO for e in g.incident_edges(v)) != 1: return None
            if t == V.W_INPUT and g.vertex_degree(v) != 2: return None
    return sorted(bs) if len(bs) <= 9 else None
def tensor(g, bs):
    vs, es = oracle.read_graph(g)
    return oracle.contract(vs, es, [], bs, complex(g.scalar.to_number()))

def typed(p, hbox):
    """what the prompt makes of a typed phase a/b, and what it means."""
    a, _, b = p.partition("/")
    if b: return ("" if a == "1" else "-" if a == "-1" else a) + "\u03c0/" + b, Fraction(int(a), int(b)) % 2
    a = int(a) % 2
    if hbox: return ("" if a == 1 else "0"), Fraction(a)
    return ("\u03c0" if a else ""), Fraction(a)

def shown(e, g, what):
    """the JSON the browser shows describes the diagram."""
    js = json.loads(e.graph_json); sc = g.scale
    if sorted(n["name"] for n in js["nodes"]) != sorted(g.vertices()): fail("%s: nodes shown are not those of the diagram", what)
    for n in js["nodes"]:
        v = n["name"]; hb = n["t"] == 3
        if n["t"] != int(g.type(v)): fail("%s: node %s shown with type %s", what, v, n["t"])
        if abs(n["x"] / sc - 1 - g.row(v)) > 1e-6 or abs(n["y"] / sc - 2 - g.qubit(v)) > 1e-6: fail("%s: node %s shown at another place", what, v)
        p = n["phase"]
        if p.startswith("~"): fail("%s: node %s shown with an inexact phase %s", what, v, p)
        q = C39.read_phase(p, hb)[0]
        if q % 2 != g.phase(v): fail("%s: node %s with phase %s shows %r", what, v, g.phase(v), p)
    es = sorted(graphs.ekey(int(l["source"]), int(l["target"]), l["t"]) for l in js["links"])
    if es != graphs.edges_of(g): fail("%s: edges shown %s, edges of the diagram %s", what, es, graphs.edges_of(g))

def front(e, last, nodes, links):
    e.last_operation = last
    e.graph_json = json.dumps({"nodes": nodes, "links": links})

def check(spec, rec):
    import pyzx as zx
    from pyzx.utils import VertexType as V, EdgeType as E
    ed = editor(); clip = ed.pyperclip = Clip()
    g = gens.build_diagram(spec["d"])
    showm, shows = spec["matrix"], spec["scalar"]
    s0 = state(g, True)
    from pyzx.utils import settings
    m0 = settings.mode; settings.mode = "notebook"
    try:
        with cut("edit"): e = ed.edit(g, scale=spec["scale"], show_matrix=showm, show_scalar=shows)
    finally: settings.mode = m0
    out = e.output = Out()
    if e.graph is not g: fail("the editor works on another diagram")
    d = differ(s0, dict(state(g, True), io=s0["io"] if showm else state(g, True)["io"]))
    if d: fail("opening the editor changed the diagram: %s", d)
    hist, pos = [state(g, not showm)], 0
    snaps = []; nch = 0; key = False
    def quiet(what):
        t = out.take()
        if t: fail("%s: %s", what, t.strip()[-400:])
    def views(what):
        if shows:
            t = e.scalar_view.value
            if not t.startswith("Scalar: "): fail("%s: scalar view %r", what, t)
            z = complex(g.scalar.to_number()); t = t[8:]
            if abs((0 if t == "0" else C20.parse_factor_list(t.strip("$") if t != "1" else "")) - z) > 2e-3 * abs(z) + 1e-9: fail("%s: scalar shown as %r, it is %s", what, t, z)
        if not showm: return
        gi, go = g.inputs(), g.outputs()
        if judgeable(g) is None or len(gi) > 4 or len(go) > 4 or len(gi) + len(go) != sum(1 for v in g.vertices() if g.type(v) == V.BOUNDARY): return
        t = e.matrix_view.value
        if not t.startswith("\\begin"): return
        try: C39.compare_matrix(t, oracle.graph_matrix(g))
        except Exception as x:
            if type(x).__name__ == "Violation": fail("%s: the matrix shown is not that of the diagram: %s", what, x)
            raise
        rec.label("matrix")
    shown(e, g, "opening"); quiet("opening"); views("opening")
    for k, c in enumerate(spec["cmds"]):
        op = c[0]; what = "step %d (%s)" % (k, op)
        if g.num_vertices() + g.num_edges() > (20 if showm else 60): rec.label("grown large"); break
        vs = sorted(g.vertices()); es = sorted(g.edges())
        js = json.loads(e.graph_json); nodes, links = js["nodes"], js["links"]
        before_json = e.graph_json; cur = hist[pos]; undo0 = len(e.undo_stack)
        exp = {"v": dict(cur["v"]), "e": list(cur["e"]), "io": cur["io"], "sc": cur["sc"]}
        pushed = True
        if op in ("addv", "wire"):
            t = 0 if op == "wire" else c[1]
            if op == "wire" and not [v for v in vs if g.type(v) in (V.Z, V.X, V.H_BOX, V.Z_BOX)]: continue
            v = max([n["name"] for n in nodes], default=-1) + 1 + (c[4] if len(c) > 4 else 0)
            x, y = float(c[2]), float(c[3])
            nodes.append({"name": v, "x": x, "y": y, "t": t, "phase": ""})
            exp["v"][v] = (t, Fraction(1 if t == 3 else 0), None, x / g.scale - 1, y / g.scale - 2)
            with cut(what): front(e, "Added vertex", nodes, links)
            if op == "wire":
                quiet(what); d = differ(exp, state(g, not showm))
                if d: fail("%s: adding a node: expected / found %s", what, d)
                hist = hist[:pos + 1] + [exp]; pos += 1
                sp = [w for w in vs if g.type(w) in (V.Z, V.X, V.H_BOX, V.Z_BOX)]; w = sp[c[1] % len(sp)]
                exp = {"v": dict(exp["v"]), "e": sorted(exp["e"] + [graphs.ekey(v, w, 1)]), "io": exp["io"], "sc": exp["sc"]}
                links.append({"source": v, "target": w, "t": 1})
                with cut(what): front(e, "Added edge", nodes, links)
        elif op == "adde":
            ok = [v for v in vs if g.type(v) not in (V.W_INPUT, V.W_OUTPUT)]
            if len(ok) < 2: continue
            a, b = ok[c[1] % len(ok)], ok[c[2] % len(ok)]
            if a == b: continue
            for l in links:
                if {l["source"], l["target"]} == {a, b}: l["t"] = c[3]; break
            else: links.append({"source": a, "target": b, "t": c[3]})
            exp["e"] = sorted([x for x in exp["e"] if x[:2] != (min(a, b), max(a, b))] + [graphs.ekey(a, b, c[3])])
            with cut(what): front(e, "Added edge", nodes, links)
        elif op == "del":
            dv = {vs[i % len(vs)] for i in c[1]} if vs else set(); de = {es[i % len(es)] for i in c[2]} if es else set()
            for x in es:            # W nodes are deleted as a whole
                if g.edge_type(x) == E.W_IO:
                    de.discard(x)
                    if dv & set(g.edge_st(x)): dv |= set(g.edge_st(x))
            if not dv and not de: continue
            nodes = [n for n in nodes if n["name"] not in dv]
            links = [l for l in links if l["source"] not in dv and l["target"] not in dv and tuple(sorted((l["source"], l["target"]))) not in {tuple(sorted(g.edge_st(x))) for x in de}]
            keep = {tuple(sorted((l["source"], l["target"]))) for l in links}
            exp["v"] = {v: x for v, x in exp["v"].items() if v not in dv}; exp["e"] = [x for x in exp["e"] if x[:2] in keep]
            if exp["io"]: exp["io"] = tuple(tuple(v for v in l if v not in dv) for l in exp["io"])
            with cut(what): front(e, "Deleted selection", nodes, links)
        elif op == "move":
            if not vs: continue
            m = {vs[i % len(vs)] for i in c[1]}
            for n in nodes:
                if n["name"] in m:
                    n["x"] += c[2]; n["y"] += c[3]
                    t = exp["v"][n["name"]]; exp["v"][n["name"]] = t[:3] + (n["x"] / g.scale - 1, n["y"] / g.scale - 2)
            with cut(what): front(e, "Moved selection", nodes, links)
        elif op == "phase":
            ok = [v for v in vs if g.type(v) in (V.Z, V.X, V.H_BOX)]
            if not ok: continue
            v = ok[c[1] % len(ok)]; txt, val = typed(c[2], g.type(v) == V.H_BOX)
            for n in nodes:
                if n["name"] == v: n["phase"] = txt
            t = exp["v"][v]; exp["v"][v] = (t[0], val) + t[2:]
            with cut(what): front(e, "Changed phase", nodes, links)
        elif op == "op":
            bs = judgeable(g)
            if bs is None: continue
            sv = list(vs) if c[1] is None else sorted({vs[i % len(vs)] for i in c[1]}) if vs else []
            se = [] if c[1] is None or not es else sorted({es[i % len(es)] for i in c[2]})
            e.last_operation = ""
            with cut(what): e.graph_selected = '{"nodes": [], "links": []}'
            with cut(what): e.graph_selected = json.dumps({"nodes": [{"name": v} for v in sv], "links": [{"source": g.edge_s(x), "target": g.edge_t(x)} for x in se]})
            quiet(what + ", selecting")
            d = differ(cur, state(g, not showm))
            if d: fail("%s: selecting changed the diagram: %s", what, d)
            act = sorted(n for n, x in json.loads(e.graph_buttons).items() if x["active"])
            if not act: rec.label("nothing applies"); continue
            good = [n for n in c[4] if n in act] if len(c) > 4 else []
            name = (good or act)[c[3] % len(good or act)]; what = "step %d (%s)" % (k, name)
            M = tensor(g, bs)
            e.last_operation = name
            with cut(what): e.button_clicked = name
            t = out.take()
            if t:
                if "parallel edge" in t and any(x[0] in (3, 4, 5, 6) for x in cur["v"].values()):
                    d = differ(cur, state(g, not showm))
                    if d: fail("%s was refused but changed the diagram: %s", what, d)
                    shown(e, g, what); rec.label("refused"); e.button_clicked = ""; continue
                fail("%s: %s", what, t.strip()[-400:])
            exp = state(g, not showm)
            if not differ(cur, exp): fail("%s: the button was lit up but pressing it did nothing", what)
            if exp["io"] != cur["io"]: fail("%s: changed inputs or outputs", what)
            b2 = judgeable(g)
            if b2 != bs: fail("%s: changed the boundaries: %s / %s", what, bs, b2)
            if not oracle.close(tensor(g, bs), M, 1e-6): fail("%s changed the linear map%s", what, " (by a scalar)" if oracle.proportional(tensor(g, bs), M) else "")
            if e.button_clicked != "": fail("%s: the button stays pressed", what)
            rec.label(name); key = True
        elif op in ("undo", "redo"):
            new = max(pos - 1, 0) if op == "undo" else min(pos + 1, len(hist) - 1)
            with cut(what): e.action = op
            if e.action != "": fail("%s: the action is still pending", what)
            exp = hist[new]; key = key or new != pos; pos = new; pushed = None; rec.label(op)
        elif op == "snapshot":
            with cut(what): e.action = op
            snaps.append((len(e.snapshots) - 1, bag(state(g, False)), g.num_inputs(), g.num_outputs())); pushed = None
        elif op == "copy":
            if not vs: continue
            sv = list(vs) if c[1] is None else sorted({vs[i % len(vs)] for i in c[1]})
            for x in es:
                if g.edge_type(x) == E.W_IO and set(sv) & set(g.edge_st(x)): sv = sorted(set(sv) | set(g.edge_st(x)))
            with cut(what): e.graph_selected = json.dumps({"nodes": [{"name": v} for v in sv], "links": []})
            clip.src = None
            with cut(what): e.action = op
            clip.src = None if match({v: cur["v"][v] for v in sv}, {v: cur["v"][v] for v in sv}) == {} or any(cur["v"][v][0] > 3 for v in sv) or any(g.edge_type(x) == E.HADAMARD and not {g.type(g.edge_s(x)), g.type(g.edge_t(x))} <= {V.Z, V.X} for x in es) else \
                       ({v: cur["v"][v] for v in sv}, [x for x in cur["e"] if x[0] in sv and x[1] in sv])
            if match({v: cur["v"][v] for v in sv}, {v: cur["v"][v] for v in sv}) == {}: clip.text = ""     # overlapping nodes are fused on purpose
            pushed = None
        elif op == "paste":
            bad = not clip.text or c[1]
            if bad: clip.text = ["", "nonsense", "\\begin{tikzpicture}"][c[1] % 3]; clip.src = None
            with cut(what): e.action = op
            if bad: pushed = None
            else:
                quiet(what); now = state(g, not showm); add = {v: x for v, x in now["v"].items() if v not in cur["v"]}
                rest = {"v": {v: x for v, x in now["v"].items() if v not in add}, "e": [x for x in now["e"] if x[0] not in add and x[1] not in add], "io": cur["io"], "sc": now["sc"]}
                d = differ(cur, rest)
                if d: fail("%s: pasting changed what was there: %s", what, d)
                ae = [x for x in now["e"] if x[0] in add or x[1] in add]
                if clip.src:
                    sv, se = clip.src
                    if any(x[0] not in add or x[1] not in add for x in ae): fail("%s: pasted nodes are connected to old ones", what)
                    if Counter(x[:2] for x in add.values()) != Counter(x[:2] for x in sv.values()): fail("%s: pasted nodes %s are not the copied ones %s", what, sorted(add.values()), sorted(sv.values()))
                    m = match(sv, add)
                    if m is None: fail("%s: pasted nodes lie differently from the copied ones", what)
                    if m:
                        rec.label("exact paste")
                        if sorted(graphs.ekey(m[a], m[b], t) for a, b, t in se) != sorted(ae): fail("%s: pasted edges %s are not the copied ones %s", what, ae, se)
                exp = now
                pushed = bool(add); key = key or pushed; rec.label("paste")
                if not add: pushed = None
        elif op == "py":
            if not vs: continue
            v = vs[c[1] % len(vs)]
            e.last_operation = ""
            if c[2] == 0: g.set_phase(v, Fraction(3, 8)) if g.type(v) in (V.Z, V.X) else None
            elif c[2] == 1: g.set_position(v, 1.5, 2.25)
            else: g.scalar.add_power(1); g.scalar.add_phase(Fraction(1, 4))
            exp = state(g, not showm)
            with cut(what): e.update()
        quiet(what)
        now = state(g, not showm)
        d = differ(exp, now)
        if d: fail("%s: expected / found %s", what, d)
        shown(e, g, what)
        if pushed is not None:
            if pushed and op in ("py", "adde", "move", "phase") and e.graph_json == before_json: pushed = False
            if pushed: hist = hist[:pos + 1] + [exp]; pos += 1; nch += 1; rec.label(op)
        views(what)
    for i, b, ni, no in snaps:
        s = e.snapshots[i]
        if bag(state(s, False)) != b or (s.num_inputs(), s.num_outputs()) != (ni, no): fail("snapshot %d is not the diagram as it was", i)
    rec.nt(nch >= 2 and key)

def bag(s):
    r = lambda x: (x[0], str(x[1]), x[2]) + (round(x[3], 3) + 0.0, round(x[4], 3) + 0.0)
    return (sorted(map(str, map(r, s["v"].values()))), sorted(str((sorted([str(r(s["v"][a])), str(r(s["v"][b]))]), t)) for a, b, t in s["e"]), "%.6g %.6g" % (s["sc"][0].real + 0.0, s["sc"][0].imag + 0.0))

def match(a, b):
    """the node of b for every node of a, by place; {} if places are too close to tell; None if they differ."""
    if not a: return {}
    if len(a) != len(b): return None
    def norm(d):
        mx, my = min(x[3] for x in d.values()), min(x[4] for x in d.values())
        return {v: (x[3] - mx, x[4] - my) for v, x in d.items()}
    A, B = norm(a), norm(b); m = {}
    P = list(A.values())
    if any(abs(p[0] - q[0]) < 0.1 and abs(p[1] - q[1]) < 0.1 for i, p in enumerate(P) for q in P[:i]): return {}
    for v, p in A.items():
        w = [w for w, q in B.items() if abs(p[0] - q[0]) < 0.03 and abs(p[1] - q[1]) < 0.03]
        if len(w) != 1: return None
        m[v] = w[0]
        if a[v][:2] != b[w[0]][:2]: return None
    return m

i = st.integers(0, 30)
sel = st.one_of(st.none(), st.lists(i, min_size=1, max_size=5))
NAMES = ["spider", "to_z", "to_x", "rem_id", "id_z", "z_to_z_box", "had2edge", "fuse_hbox", "mult_hbox", "fuse_w", "copy", "pauli", "bialgebra", "euler", "lcomp", "pivot"]
phs = st.one_of(st.sampled_from(["0", "1", "2", "-1", "1/2", "3/4", "-1/4", "-3/2", "1/3", "7/4", "9/4", "4/2"]), st.tuples(st.integers(-9, 600), st.integers(1, 520)).map(lambda t: "%d/%d" % t))
xy = st.integers(5, 400)
cmds = [st.tuples(st.just("addv"), st.integers(0, 3), xy, xy, st.integers(0, 2)), st.tuples(st.just("wire"), i, xy, xy), st.tuples(st.just("adde"), i, i, st.sampled_from([1, 2])),
        st.tuples(st.just("del"), st.lists(i, max_size=2), st.lists(i, max_size=2)), st.tuples(st.just("move"), st.lists(i, min_size=1, max_size=3), st.integers(-60, 60), st.integers(-60, 60)),
        st.tuples(st.just("phase"), i, phs)] + [st.tuples(st.just("op"), sel, st.lists(i, max_size=4), i, st.lists(st.sampled_from(NAMES), max_size=6))] * 5 + \
       [st.tuples(st.just("undo"))] * 4 + [st.tuples(st.just("redo"))] * 3 + [st.tuples(st.just("snapshot")), st.tuples(st.just("copy"), sel)] + \
       [st.tuples(st.just("paste"), st.sampled_from([0, 0, 0, 0, 0, 1, 2, 3]))] * 2 + [st.tuples(st.just("py"), i, st.integers(0, 2))]
ph = st.one_of(st.sampled_from(gens.CLIFF * 2 + ["1", "0", "1/4", "5/4", "1/3"]), st.tuples(st.integers(0, 600), st.integers(1, 300)).map(lambda t: "%d/%d" % t))
D = [lambda: gens.diagram(phases=ph, vmax=6, emax=8), lambda: gens.diagram(kinds=("Z", "Z", "X", "X", "H"), phases=ph, vmax=6, emax=7), lambda: gens.diagram(kinds=("Z", "X", "ZB", "H"), phases=ph, vmax=6, emax=7),
     lambda: gens.w_diagram(phases=gens.phase_red), lambda: gens.gl_diagram(bmax=4, gmax=1), lambda: gens.rg_diagram(nmax=3)]
def spec(ops):
    return st.fixed_dictionaries({"d": st.one_of(*[f() for f in D]), "matrix": st.sampled_from([False, False, False, True]), "scalar": st.booleans(), "scale": st.sampled_from([50, 20, 33.5]),
                                  "cmds": st.integers(1, 10).flatmap(lambda n: st.lists(st.one_of(*ops), min_size=n, max_size=14)).map(lambda l: [list(c) for c in l])})
OPS = [c for k, c in enumerate(cmds) if 6 <= k < 11]
SUBS = [Sub("session", lambda: spec(cmds), check, 2500), Sub("rewrites", lambda: spec(OPS * 3 + [st.tuples(st.just("undo")), st.tuples(st.just("undo")), st.tuples(st.just("redo")), cmds[5], cmds[2]]), check, 2000)]
