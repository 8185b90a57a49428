"""Any selection of rule matches can be applied."""
import itertools
from hypothesis import strategies as st
from ..core import Sub, fail, cut
from .. import gens, oracle, graphs

RULE = ("A diagram (arbitrary, circuit-derived, or built around the patterns of the rule), a rule, a filter on vertices or edges, a limit on the number of matches, "
        "and a choice of matches to apply together (for rules whose matcher only reads the diagram); up to three rounds. The map is compared after each round. "
        "Non-trivial: a match was applied while a filter, limit or selection left another candidate out, or several matches were applied together.")
ASSUMPTIONS = ["The matchers of gadget pivots, boundary pivots and phase gadgets prepare the diagram while matching (documented by their use), so their matches are applied together; "
               "the diagram they leave represents the same map only together with the rewrite (phase gadgets) or by itself (pivots).",
               "For vertex filters of rules whose match consists of several vertices, the filter concerns the vertex the match starts from."]

def rules():
    from pyzx import rules as r
    V, E = "v", "e"
    # name: matcher, rewrite, kind of filter, takes num, read-only, single matcher
    return {"spider": (r.match_spider_parallel, r.spider, E, True, True, r.match_spider),
            "bialg": (r.match_bialg_parallel, r.bialg, E, True, True, r.match_bialg),
            "pivot": (r.match_pivot_parallel, r.pivot, E, True, True, r.match_pivot),
            "lcomp": (r.match_lcomp_parallel, r.lcomp, V, True, True, r.match_lcomp),
            "ids": (r.match_ids_parallel, r.remove_ids, V, True, True, r.match_ids),
            "pivot_gadget": (r.match_pivot_gadget, r.pivot, E, True, False, None),
            "pivot_boundary": (r.match_pivot_boundary, r.pivot, V, True, False, None),
            "gadget": (r.match_phase_gadgets, r.merge_phase_gadgets, V, False, False, None),
            "supplementarity": (r.match_supplementarity, r.apply_supplementarity, V, False, True, None),
            "copy": (r.match_copy, r.apply_copy, V, False, True, None),
            "w_fusion": (r.match_w_fusion_parallel, r.w_fusion, E, True, True, r.match_w_fusion),
            "z_to_z_box": (r.match_z_to_z_box_parallel, r.z_to_z_box, V, True, True, r.match_z_to_z_box)}

def first(rule, m):
    if rule in ("pivot", "pivot_gadget", "pivot_boundary"): return m[0]
    if rule == "z_to_z_box": return (m,)
    return (m[0], m[1]) if rule in ("spider", "bialg", "w_fusion") else (m[0],)

def check(spec, rec):
    from pyzx import rules as r, simplify as s
    T = rules()
    g = gens.build_source(spec["g"])
    M = oracle.graph_tensor(g)
    io = tuple(g.inputs()), tuple(g.outputs())
    nt = False
    for rd in spec["rounds"]:
        rule = rd["rule"]; mt, rw, kind, hasnum, ro, single = T[rule]
        if spec["prep"] == "gl":
            with cut("prep"):
                s.spider_simp(g, quiet=True); s.to_gh(g); s.spider_simp(g, quiet=True)
        bits = rd["filter"]; num = rd["num"]
        fv = (lambda v: bits[v % len(bits)]) if bits else None
        fe = (lambda e: bits[(min(g.edge_st(e)) * 3 + max(g.edge_st(e))) % len(bits)]) if bits else None
        f = fv if kind == "v" else fe
        before = graphs.snapshot(g)
        with cut("match_" + rule):
            if rd["single"] and single: ms = single(g); lim = 1
            elif hasnum and num >= 0: ms = mt(g, f, num); lim = num
            else: ms = mt(g, f); lim = None
        ms = list(ms)
        if lim is not None and len(ms) > lim: fail("%s returned %d matches with limit %d", rule, len(ms), lim)
        if ro and graphs.diff(before, graphs.snapshot(g)): fail("matching %s changed the diagram: %s", rule, graphs.diff(before, graphs.snapshot(g)))
        if not ms and graphs.diff(before, graphs.snapshot(g)): fail("%s found nothing but changed the diagram: %s", rule, graphs.diff(before, graphs.snapshot(g)))
        if f and not (rd["single"] and single):
            for m in ms:
                h = first(rule, m)
                if kind == "v":
                    if h[0] in before["v"] and not fv(h[0]): fail("%s returned %s, which the filter excludes", rule, m)
                else:
                    if not bits[(min(h) * 3 + max(h)) % len(bits)]: fail("%s returned %s, which the filter excludes", rule, m)
        sel = ms
        if ro and rd["select"]: sel = [m for i, m in enumerate(ms) if rd["select"][i % len(rd["select"])]]
        if sel and (len(sel) > 1 or len(sel) < len(ms) or f or lim is not None): nt = True
        if sel:
            with cut("apply " + rule):
              try:
                if rd["one"] and ro:
                    for m in sel[:1]: r.apply_rule(g, rw, [m])
                else: r.apply_rule(g, rw, sel)
              except ValueError as e:
                # parallel edges that the storage cannot hold (at W nodes) are refused
                if "unreducible parallel edge" in str(e) and any(k in ("WO", "WI") for k, _ in spec["g"].get("d", {}).get("verts", [])): rec.label("refused"); return
                raise
            rec.label(rule)
        if (tuple(g.inputs()), tuple(g.outputs())) != io: fail("%s changed inputs or outputs", rule)
        M2 = oracle.graph_tensor(g)
        if not oracle.close(M2, M, 1e-6): fail("%s changed the linear map%s", rule, " (by a scalar)" if oracle.proportional(M2, M) else "")
        if not oracle.plug_ok(g, M2): fail("%s left a phase on a wire end: states plugged in there are changed", rule)
    rec.nt(nt)

def rounds(names):
    return st.lists(st.fixed_dictionaries({"rule": st.sampled_from(names), "filter": st.one_of(st.just([]), st.lists(st.booleans(), min_size=2, max_size=7)),
                                           "num": st.sampled_from([-1, -1, 0, 1, 2, 3]), "single": st.sampled_from([False, False, False, True]),
                                           "select": st.one_of(st.just([]), st.lists(st.booleans(), min_size=1, max_size=4)), "one": st.sampled_from([False, False, True])}), min_size=1, max_size=3)
def S(names, prep, src): return lambda: st.fixed_dictionaries({"g": src(), "prep": st.just(prep), "rounds": rounds(names)})
def zx(*which): return lambda: gens.zx_source(which=which)
wsrc = lambda: gens.w_diagram(phases=gens.phase_red).map(lambda d: {"src": "diagram", "d": d})
# Pauli-heavy graph states with boundaries: room for pivots
piv = lambda: gens.gl_diagram(bmax=7, gmax=1, phases=st.sampled_from(["0", "1", "0", "1", "1/4", "1/2"]), recolour=False).map(lambda d: {"src": "diagram", "d": d})
half = lambda: gens.gl_diagram(bmax=6, gmax=1, phases=st.sampled_from(["1/2", "3/2", "1/2", "3/2", "1/4", "0"]), recolour=False).map(lambda d: {"src": "diagram", "d": d})

def check_isolated(spec, rec):
    g = gens.build_diagram(spec["d"])
    M = oracle.graph_tensor(g); n = g.num_vertices()
    with cut("remove_isolated_vertices"):
        g.remove_isolated_vertices()
    for v in g.vertices():
        if g.vertex_degree(v) == 0: fail("isolated vertex is still there")
    M2 = oracle.graph_tensor(g)
    if not oracle.close(M2, M): fail("removing isolated vertices changed the map%s", " (by a scalar)" if oracle.proportional(M2, M) else "")
    if g.scalar.is_zero and abs(M).max(initial=0) > 1e-9: fail("scalar claims to be zero")
    rec.nt(g.num_vertices() < n)

@st.composite
def iso_diagram(draw):
    d = draw(gens.diagram(kinds=("Z", "X"), vmin=0, vmax=3, emax=3, imax=1, omax=1))
    nb = len(d["in"]) + len(d["out"]); n = len(d["verts"]); new = []; ed = []
    box = st.one_of(st.tuples(st.sampled_from(["Z", "X"]), gens.phase_red), st.tuples(st.just("H"), st.sampled_from(["1", "0", "1/2", "1/3"])), st.tuples(st.just("ZB"), st.sampled_from(["1", "-1", "1/2", "1j", "0"])),
                    st.tuples(st.just("W"), st.just("0"))).map(list)
    for _ in range(draw(st.integers(1, 3))):
        k = n + len(new); new.append(draw(box))
        if draw(st.integers(0, 2)): new.append(draw(box)); ed.append([k, k + 1, draw(st.sampled_from(["s", "h"]))])
    sh = len(new); m = lambda a: a if a < n else a + sh
    return {"verts": d["verts"] + new, "edges": [[m(a), m(b), t] for a, b, t in d["edges"]] + ed, "in": [m(a) for a in d["in"]], "out": [m(a) for a in d["out"]], "scalar": d["scalar"]}

def check_matchf(spec, rec):
    """Strategies restricted by a filter."""
    from pyzx import simplify as s
    g = gens.build_source(spec["g"]); M = oracle.graph_tensor(g)
    with cut("prep"):
        s.spider_simp(g, quiet=True); s.to_gh(g); s.spider_simp(g, quiet=True)
    bits = spec["f"]; inside = lambda v: bits[v % len(bits)]
    fn = spec["s"]; F = {x: getattr(s, x) for x in STRATS}[fn]
    vert = lambda v: inside(v); edge = lambda e: all(inside(v) for v in g.edge_st(e))
    either = lambda x: vert(x) if isinstance(x, int) else edge(x)
    out = {v: (g.type(v), g.phase(v)) for v in g.vertices() if not inside(v)}
    with cut(fn):
        F(g, matchf=either, quiet=True)
    M2 = oracle.graph_tensor(g)
    if not oracle.plug_ok(g, M2): fail("%s left a phase on a wire end: states plugged in there are changed", fn)
    if not oracle.close(M2, M, 1e-6): fail("%s with a filter changed the map%s", fn, " (by a scalar)" if oracle.proportional(M2, M) else "")
    rec.nt(bool(out)); rec.label(fn)
STRATS = ["spider_simp", "id_simp", "lcomp_simp", "pivot_simp", "pivot_boundary_simp", "pivot_gadget_simp", "gadget_simp", "interior_clifford_simp", "clifford_simp", "full_reduce"]

@st.composite
def parity_layers(draw):
    """Circuits with many T-phase parities over four of their wires."""
    n = draw(st.sampled_from([4, 4, 5])); gates = []
    for q in range(n):
        if draw(st.booleans()): gates.append(["HAD", [q], []])
    subs = [list(c) for r in (1, 2, 3, 4) for c in itertools.combinations(range(4), r)]
    for k in range(draw(st.sampled_from([1, 1, 2]))):
        for c, p in zip(subs, draw(st.lists(st.sampled_from(["", "1/4", "3/4", "5/4", "7/4"]), min_size=15, max_size=15))):
            if not p and draw(st.booleans()): p = "1/4"
            if p: gates.append(["ZPhase", c, [p]] if len(c) == 1 else ["ParityPhase", c, [p]])
        for q in range(n):
            if draw(st.booleans()): gates.append(["HAD", [q], []])
        for _ in range(draw(st.integers(0, 2))): gates.append(["CZ", list(draw(st.permutations(range(n)))[:2]), []])
    return {"n": n, "gates": gates}

def check_phasepoly(spec, rec):
    """Rule R_13 on reduced circuit diagrams: the map stays, up to a scalar."""
    from pyzx import rules as r, simplify as s
    g = gens.build_circuit(spec["c"]).to_graph()
    with cut("prep"):
        if spec["prep"] == "full": s.full_reduce(g, quiet=True)
        else:
            g = s.teleport_reduce(g, quiet=True); s.clifford_simp(g, quiet=True)
    M = oracle.graph_matrix(g); io = tuple(g.inputs()), tuple(g.outputs())
    if spec["flip"]:
        # the same gadgets, some of them with the pi on the axle
        for k, v in enumerate(sorted(g.vertices())):
            if g.type(v) == 1 and g.vertex_degree(v) == 1:
                w = list(g.neighbors(v))[0]
                if g.type(w) == 1 and g.phase(w) == 0 and spec["flip"] >> (k % 8) & 1: g.set_phase(w, 1); g.set_phase(v, -g.phase(v))
        if not oracle.proportional(oracle.graph_matrix(g), M): raise AssertionError("harness")
    for again in spec["again"]:
        before = graphs.snapshot(g)
        with cut("match_gadgets_phasepoly"): ms = r.match_gadgets_phasepoly(g)
        if graphs.diff(before, graphs.snapshot(g)): fail("match_gadgets_phasepoly changed the diagram: %s", graphs.diff(before, graphs.snapshot(g)))
        if not ms: break
        with cut("apply_gadget_phasepoly"): r.apply_gadget_phasepoly(g, ms)
        if (tuple(g.inputs()), tuple(g.outputs())) != io: fail("rule R_13 changed inputs or outputs")
        rec.nt(); rec.label("applied")
        if not oracle.proportional(oracle.graph_matrix(g), M): fail("rule R_13 changed the linear map")
        if again:
            with cut("full_reduce"): s.full_reduce(g, quiet=True)
            if not oracle.proportional(oracle.graph_matrix(g), M): fail("full_reduce after rule R_13 changed the linear map")

SUBS = [
    Sub("phasepoly", lambda: st.fixed_dictionaries({"c": parity_layers(), "prep": st.sampled_from(["full", "full", "tele"]), "flip": st.sampled_from([0, 0, 255, 90, 37]), "again": st.lists(st.booleans(), min_size=1, max_size=3)}), check_phasepoly, 120),
    Sub("isolated", lambda: st.fixed_dictionaries({"d": iso_diagram()}), check_isolated, 800),
    Sub("strategy_filter", lambda: st.fixed_dictionaries({"g": gens.zx_source(which=("gl", "circuit", "diagram")), "s": st.sampled_from(STRATS), "f": st.lists(st.booleans(), min_size=2, max_size=7)}), check_matchf, 2000),
    Sub("spider", S(["spider"], "raw", zx("diagram", "circuit", "gl")), check, 1500),
    Sub("ids", S(["ids", "ids", "spider"], "raw", zx("diagram", "circuit", "gl")), check, 1500),
    Sub("bialg", S(["bialg"], "raw", zx("rg")), check, 1200),
    Sub("lcomp", S(["lcomp", "lcomp", "ids"], "gl", half), check, 1500),
    Sub("pivot", S(["pivot"], "gl", piv), check, 1500),
    Sub("pivot_gadget", S(["pivot_gadget"], "gl", piv), check, 1200),
    Sub("pivot_boundary", S(["pivot_boundary"], "gl", piv), check, 1200),
    Sub("raw_pivots", S(["pivot_gadget", "pivot_boundary", "pivot", "lcomp", "bialg", "gadget"], "raw", zx("diagram", "gl", "circuit")), check, 1500),
    Sub("gadget", S(["gadget"], "gl", zx("gadget", "gl", "gadget")), check, 1200),
    Sub("supplementarity", S(["supplementarity"], "gl", zx("twin", "gl", "twin")), check, 1200),
    Sub("copy", S(["copy"], "gl", zx("leaf", "gl")), check, 1000),
    Sub("w", S(["w_fusion", "spider", "z_to_z_box"], "raw", wsrc), check, 1500),
    *[Sub("big_" + k, S([r, r, "spider" if k == "fusion" else r], "raw" if k in ("bialg", "fusion", "ids") else "gl", zx("focus_" + k)), check, 350) for k, r in
      (("lcomp", "lcomp"), ("pivot", "pivot"), ("pivot_gadget", "pivot_gadget"), ("pivot_boundary", "pivot_boundary"), ("gadget", "gadget"), ("copy", "copy"), ("supplementarity", "supplementarity"), ("bialg", "bialg"), ("fusion", "spider"), ("ids", "ids"))],
    Sub("mixed", S(["spider", "ids", "lcomp", "pivot", "pivot_gadget", "pivot_boundary", "gadget", "supplementarity", "copy"], "gl", zx("gl", "circuit", "diagram")), check, 2500),
]
