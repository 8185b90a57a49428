"""ZH rewriting."""
from hypothesis import strategies as st
from ..core import Sub, fail, cut, Reject
from .. import gens, oracle, graphs

RULE = ("ZH diagrams: arbitrary graphs of Z/X spiders and H-boxes (any arity and phase), diagrams built around the patterns of the rules (H-boxes over subsets of spiders directly or through NOTs, "
        "twins of such boxes differing in nothing, a phase or one NOT, boxes joined by Hadamard edges, Pauli leaves on spiders and boxes), and ZH forms of Toffoli circuits. "
        "Each rule is applied with any selection of its matches, each strategy as a whole; the map including scalar is compared with the one before. Non-trivial: something was rewritten.")
ASSUMPTIONS = ["A refusal (ValueError about parallel edges that cannot be stored) is accepted for diagrams given by hand, not for circuits."]

HP = ["1", "1", "1", "0", "1/2", "1/4", "3/2", "1/3", "7/4"]

@st.composite
def zh_diagram(draw, smax=4, hmax=4, hmin=1, imax=2, omax=2, parts=("box", "box", "box", "leaf", "chain", "hedge", "xbox"), scalar=True, phases=gens.phase_red):
    ns = draw(st.integers(1, smax))
    verts = [[draw(st.sampled_from(["Z", "Z", "Z", "Z", "X"])), draw(st.one_of(st.just("0"), phases))] for _ in range(ns)]
    edges = []
    add = lambda k, p="0": (verts.append([k, p]), len(verts) - 1)[1]
    last = None; boxes = []; twin = draw(st.sampled_from(["free", "par", "intro", "intro"])); single = draw(st.sampled_from([0, 0, 1, 2]))
    for _ in range(draw(st.integers(hmin, hmax))):
        kind = draw(st.sampled_from(parts))
        if kind == "box":
            if last and draw(st.integers(0, 3)):
                legs, p = list(last[0]), last[1]
                if twin == "free" and draw(st.booleans()) or twin == "par": p = draw(st.sampled_from(HP))
                if twin == "intro":
                    i = draw(st.integers(0, len(legs) - 1)); legs[i] = (legs[i][0], draw(st.sampled_from(["n", "m"])) if legs[i][1] == "s" else "s")
                elif twin == "free" and draw(st.booleans()):
                    i = draw(st.integers(0, len(legs) - 1)); legs[i] = (legs[i][0], draw(st.sampled_from(["s", "n", "m"])))
            else:
                m = draw(st.lists(st.booleans(), min_size=ns, max_size=ns)); tg = [i for i in range(ns) if m[i]] or [0]
                legs = [(t, draw(st.sampled_from(["s", "s", "s", "n", "m"]))) for t in tg]
                p = draw(st.sampled_from(HP))
                if draw(st.integers(0, 9)) == 0: legs.append((draw(st.sampled_from(tg)), draw(st.sampled_from(["n", "m"]))))
            last = (legs, p)
            h = add("H", p); boxes.append(h)
            for t, how in legs:
                if how == "s": edges.append([h, t, "s"])
                elif how == "n": x = add("X", "1"); edges += [[h, x, "s"], [x, t, "s"]]
                else: x = add("Z", "1"); edges += [[h, x, "h"], [x, t, "h"]]
            for _ in range(single if twin == "intro" else draw(st.sampled_from([0, 0, 0, 1]))): edges.append([h, add("Z"), "s"])
        elif kind == "leaf":
            t = draw(st.sampled_from(list(range(ns)) + boxes))
            edges.append([add(draw(st.sampled_from(["Z", "X", "H"])), draw(st.sampled_from(["0", "1", "0", "1", "1/4"]))), t, draw(st.sampled_from(["s", "h"]))])
        elif kind == "chain" and boxes:
            h = add("H", draw(st.sampled_from(HP))); b = draw(st.sampled_from(boxes)); edges.append([h, b, draw(st.sampled_from(["h", "h", "s"]))])
            for t in range(ns):
                if draw(st.integers(0, 2)) == 0: edges.append([h, t, draw(st.sampled_from(["s", "s", "h"]))])
            boxes.append(h)
        elif kind == "hedge" and ns > 1:
            a = draw(st.integers(0, ns - 2)); b = draw(st.integers(a + 1, ns - 1)); edges.append([a, b, draw(st.sampled_from(["h", "h", "s"]))])
        elif kind == "xbox":
            h = add("H", draw(st.sampled_from(HP))); boxes.append(h)
            for t in range(ns):
                if draw(st.booleans()): edges.append([h, t, draw(st.sampled_from(["s", "h"]))])
    seen = set(); E = []
    for a, b, t in edges:
        k = (min(a, b), max(a, b))
        if k not in seen: seen.add(k); E.append([a, b, t])
    ni = draw(st.integers(0, imax)); no = draw(st.integers(0, omax)); nv = len(verts)
    at = st.sampled_from(list(range(ns)) * 3 + boxes)
    for i in range(ni + no): E.append([nv + i, draw(at), draw(st.sampled_from(["s", "s", "h"]))])
    spec = {"verts": verts, "edges": E, "in": list(range(nv, nv + ni)), "out": list(range(nv + ni, nv + ni + no))}
    if scalar: spec["scalar"] = draw(gens.scalar_spec())
    return spec

@st.composite
def hchain(draw):
    n = draw(st.integers(2, 6)); verts = [["H", draw(st.sampled_from(["1", "1", "1", "1/2", "0"]))] for _ in range(n)]; edges = []
    for i in range(1, n): edges.append([draw(st.integers(max(0, i - 2), i - 1)), i, draw(st.sampled_from(["h", "h", "h", "s"]))])
    for i in range(draw(st.integers(0, 2))):
        z = len(verts); verts.append(["Z", draw(gens.phase_t)])
        for j in range(n):
            if draw(st.integers(0, 2)) == 0: edges.append([j, z, draw(st.sampled_from(["s", "s", "h"]))])
    nv = len(verts); nb = draw(st.integers(0, 3))
    for i in range(nb): edges.append([nv + i, draw(st.integers(0, n - 1)), draw(st.sampled_from(["s", "h"]))])
    return {"verts": verts, "edges": edges, "in": [], "out": list(range(nv, nv + nb)), "scalar": []}

names = ("TOF", "CCZ", "TOF", "CCZ", "HAD", "HAD", "CNOT", "CZ", "ZPhase", "NOT", "XPhase")
@st.composite
def source(draw, which=("diagram", "zh", "zh", "circuit")):
    k = draw(st.sampled_from(which))
    if k == "diagram": return {"src": "diagram", "d": draw(gens.diagram(kinds=("Z", "Z", "H", "X", "H"), vmax=7, hb_phases=st.sampled_from(HP), emax=10))}
    if k == "zh": return {"src": "diagram", "d": draw(zh_diagram())}
    if k == "box": return {"src": "diagram", "d": draw(zh_diagram(parts=("box",), hmin=2, hmax=5, phases=gens.phase_cliff))}
    if k == "hchain": return {"src": "diagram", "d": draw(hchain())}
    if k == "leaf": return {"src": "diagram", "d": draw(zh_diagram(parts=("box", "leaf", "leaf", "xbox")))}
    if k == "chain": return {"src": "diagram", "d": draw(zh_diagram(parts=("box", "chain", "xbox", "chain")))}
    if k == "plain": return {"src": "diagram", "d": draw(zh_diagram(parts=("box", "xbox", "hedge"), phases=st.just("0")))}
    return {"src": "zhcircuit", "c": draw(gens.circuit(nmin=2, nmax=4, gmin=1, gmax=12, names=names))}

def build(s):
    if s["src"] == "diagram": return gens.build_diagram(s["d"])
    return gens.build_circuit(s["c"]).to_graph(zh=True)

def rules():
    from pyzx import hrules as r
    return {"hadamards": (r.match_hadamards, r.hadamard_to_h_edge, "v", True), "hfuse": (r.match_connected_hboxes, r.fuse_hboxes, "e", True),
            "copy": (r.match_copy, r.apply_copy, "v", True), "parallel_not": (r.match_hbox_parallel_not, r.hbox_parallel_not_remove, "v", True),
            "par_hbox": (r.match_par_hbox, r.par_hbox, "v", True), "intro": (r.match_par_hbox_intro, r.par_hbox_intro, "v", True)}

def grown(g): return g.num_vertices() > 500 or g.num_edges() > 4000
def bounded(mt, limit=2000):
    """A hyper-pivot makes a box for every subset of one side's boxes: the case is set aside when there are too many."""
    def match(*a, **k):
        ms = mt(*a, **k)
        try: size = (2 ** len(ms[0][5])) * max(1, len(ms[0][6]))
        except (IndexError, TypeError): size = 0
        if size > limit: raise Reject("hyper-pivot with %d boxes" % len(ms[0][5]))
        return ms
    return match
def same(M, g, what):
    if grown(g): raise Reject("the diagram has grown too large to evaluate")
    M2 = oracle.graph_tensor(g)
    if not oracle.close(M2, M, 1e-6): fail("%s changed the linear map%s", what, " (by a scalar)" if oracle.proportional(M2, M) else "")
    if not oracle.plug_ok(g, M2): fail("%s left a phase on a wire end: states plugged in there are changed", what)

def refused(e, spec): return spec["g"]["src"] == "diagram" and isinstance(e, ValueError) and ("parallel edge" in str(e) or "self loop" in str(e).lower().replace("-", " "))

def check_rule(spec, rec):
    from pyzx import rules as zr
    g = build(spec["g"]); M = oracle.graph_tensor(g); io = tuple(g.inputs()), tuple(g.outputs()); nt = False
    for rd in spec["rounds"]:
        mt, rw, kind, ro = rules()[rd["rule"]]
        bits = rd["filter"]
        fv = (lambda v: bits[v % len(bits)]) if bits else None
        fe = (lambda e: bits[(min(g.edge_st(e)) * 3 + max(g.edge_st(e))) % len(bits)]) if bits else None
        before = graphs.snapshot(g)
        with cut("match " + rd["rule"]): ms = list(mt(g, fv if kind == "v" else fe))
        if graphs.diff(before, graphs.snapshot(g)): fail("matching %s changed the diagram", rd["rule"])
        sel = [m for i, m in enumerate(ms) if rd["select"][i % len(rd["select"])]] if rd["select"] else ms
        if not sel: continue
        try: zr.apply_rule(g, rw, sel)
        except Exception as e:
            if refused(e, spec): rec.label("refused"); return
            raise
        nt = True; rec.label(rd["rule"] + ("+" if len(sel) > 1 else ""))
        if (tuple(g.inputs()), tuple(g.outputs())) != io: fail("%s changed inputs or outputs", rd["rule"])
        same(M, g, rd["rule"])
    rec.nt(nt)

def check_hpivot(spec, rec):
    from pyzx import hrules as r, hsimplify as h
    g = build(spec["g"]); M = oracle.graph_tensor(g)
    try:
        h.spider_simp(g, quiet=True); h.id_simp(g, quiet=True); h.to_hypergraph_form(g)
    except Exception as e:
        if refused(e, spec): return
        raise
    same(M, g, "conversion to hypergraph form")
    for _ in range(3):
        bits = spec["filter"]
        ms = bounded(r.match_hpivot)(g, (lambda v: bits[v % len(bits)]) if bits else None)
        if not ms: break
        if bits and not bits[ms[0][0] % len(bits)]: fail("hyper-pivot at a box that the filter excludes")
        r.hpivot(g, ms); rec.nt(); same(M, g, "hyper-pivot")

STRATS = ["hadamard_simp", "to_hypergraph_form", "hyper_round", "par_hbox_simp", "par_hbox_intro_simp", "copy_simp", "hspider_simp", "hbox_parallel_not_remove_simp", "hpivot_simp", "zh_simp", "zero_hbox"]
def check_strat(spec, rec):
    import pyzx as zx
    from pyzx import hsimplify as h, hrules as r
    V = zx.VertexType; E = zx.EdgeType
    g = build(spec["g"]); M = oracle.graph_tensor(g); io = tuple(g.inputs()), tuple(g.outputs()); before = graphs.snapshot(g)
    if getattr(h, "match_hpivot", None) is r.match_hpivot: h.match_hpivot = bounded(r.match_hpivot)
    for s in spec["s"]:
        rec.label(s)
        try:
            if s == "to_hypergraph_form":
                h.to_hypergraph_form(g)
                bnd = set(io[0] + io[1])
                for e in g.edges():
                    a, b = g.edge_st(e); ta, tb = g.type(a), g.type(b)
                    if a in bnd or b in bnd: continue
                    if g.edge_type(e) == E.HADAMARD: fail("hypergraph form has an interior Hadamard edge")
                    if ta == V.H_BOX and tb == V.H_BOX: fail("hypergraph form has adjacent H-boxes")
                for v in g.vertices():
                    if g.type(v) == V.X or (g.type(v) == V.Z and g.phase(v) != 0): fail("hypergraph form has a spider of type %s with phase %s", g.type(v), g.phase(v))
            elif s == "hyper_round": h.to_hypergraph_form(g); h.from_hypergraph_form(g)
            elif s == "zero_hbox":
                ms = r.match_zero_hbox(g)
                if all(g.type(n) == V.Z and g.edge_type(g.edge(v, n)) == E.SIMPLE for v in ms for n in g.neighbors(v)): r.zero_hbox(g, ms)
            else: getattr(h, s)(g, quiet=True)
        except Exception as e:
            if refused(e, spec): rec.label("refused"); return
            raise
        if (tuple(g.inputs()), tuple(g.outputs())) != io: fail("%s changed inputs or outputs", s)
        same(M, g, s)
    rec.nt(bool(graphs.diff(before, graphs.snapshot(g))))

def R(names, *src): return lambda: st.fixed_dictionaries({"g": source(src), "rounds": st.lists(st.fixed_dictionaries({
    "rule": st.sampled_from(names), "filter": st.one_of(st.just([]), st.just([]), st.lists(st.booleans(), min_size=2, max_size=7)), "select": st.one_of(st.just([]), st.lists(st.booleans(), min_size=1, max_size=4))}), min_size=1, max_size=3)})
def T(names, *src): return lambda: st.fixed_dictionaries({"g": source(src), "s": st.lists(st.sampled_from(names), min_size=1, max_size=2)})
SUBS = [
    Sub("hadamards", R(["hadamards"], "zh", "plain", "circuit", "diagram"), check_rule, 2400),
    Sub("hfuse", R(["hfuse"], "chain", "hchain", "hchain"), check_rule, 2400),
    Sub("copy", R(["copy"], "leaf", "leaf", "diagram"), check_rule, 3600),
    Sub("parallel_not", R(["parallel_not"], "box"), check_rule, 2400),
    Sub("par_hbox", R(["par_hbox"], "box", "zh"), check_rule, 3000),
    # two boxes over x and y, one attached to y both directly and via a NOT
    Sub("intro", R(["intro"], "box", "zh"), check_rule, 3000, fixed=[{"g": {"src": "diagram", "d": {"verts": [["Z", "0"], ["Z", "0"], ["H", "1/2"], ["H", "1/2"], ["X", "1"], ["X", "1"]],
        "edges": [[2, 0, "s"], [2, 1, "s"], [2, 4, "s"], [4, 1, "s"], [3, 1, "s"], [3, 5, "s"], [5, 0, "s"], [6, 0, "s"], [7, 1, "s"]], "in": [], "out": [6, 7], "scalar": []}},
        "rounds": [{"rule": "intro", "filter": [], "select": []}]}]),
    Sub("hpivot", lambda: st.fixed_dictionaries({"g": source(("plain", "circuit", "zh", "box")), "filter": st.one_of(st.just([]), st.lists(st.booleans(), min_size=2, max_size=5))}), check_hpivot, 2400),
    Sub("forms", T(["to_hypergraph_form", "hyper_round", "hadamard_simp", "zero_hbox"], "zh", "diagram", "circuit"), check_strat, 3000),
    Sub("simps", T(STRATS[3:8], "zh", "leaf", "chain", "box", "circuit", "hchain"), check_strat, 3000),
    Sub("big_circuit", T(["zh_simp", "hpivot_simp"], "circuit"), check_strat, 900),
    Sub("big", T(["zh_simp", "hpivot_simp"], "zh", "diagram", "plain", "leaf", "chain", "hchain"), check_strat, 1800),
]
