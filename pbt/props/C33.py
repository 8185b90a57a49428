"""Local search: congruences, scores, annealing, genetic search."""
import random
from fractions import Fraction
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, fail, cut, Reject
from .. import gens, oracle, graphs

RULE = ("Graph-like diagrams (random, and circuits brought to graph-like form by to_graph_like, clifford_simp, full_reduce) with sequences of congruences at every kind of place (next to boundaries, gadgets, shared neighbours), "
        "annealing and genetic searches with all parameters, default and custom scores, custom moves and selections. Oracle: contraction up to a factor; the score of the result recomputed; plain gate counting. "
        "Non-trivial: a move was applied, or a search of at least two steps.")
ASSUMPTIONS = ["Moves are judged on graph-like diagrams (Z spiders, Hadamard edges between them), as documented.",
               "lc_cong is judged at vertices that is_lc_vertex accepts.",
               "Scores of the result are recomputed exactly for custom scores that count spiders and edges; extraction of a renumbered diagram may differ in gate count."]

ph = gens.phase_red
@st.composite
def gl(draw, searchable=False):
    """A graph-like diagram: {'src':..}"""
    if searchable or draw(st.booleans()):
        names = ["CNOT", "CZ", "HAD", "ZPhase", "T", "S", "XPhase", "NOT", "T", "T*"]
        return {"c": draw(gens.circuit(nmin=1, nmax=4, gmin=0, gmax=22, names=names, phases=st.sampled_from(["1/4", "1/2", "1/3", "7/4", "1"]))),
                "how": draw(st.sampled_from(["to_graph_like", "full_reduce", "full_reduce", "clifford_simp"]))}
    d = draw(gens.gl_diagram(bmax=6, gmax=2, recolour=False))
    d.pop("pos", None)
    n = len(d["verts"])
    for e in d["edges"]:
        if e[0] < n and e[1] < n: e[2] = "h"
    return {"d": d}

def build(s):
    import pyzx as zx
    if "d" in s: return gens.build_diagram(s["d"])
    g = gens.build_circuit(s["c"]).to_graph()
    with cut(s["how"]):
        if s["how"] == "to_graph_like": zx.simplify.to_graph_like(g)
        else: getattr(zx.simplify, s["how"])(g, quiet=True)
    return g

def graph_like(g, what):
    Z, B = graphs.vt("Z"), graphs.vt("B")
    for v in g.vertices():
        if g.type(v) not in (Z, B): fail("%s: the result has a vertex of type %s", what, g.type(v))

# ---------------------------------------------------------------- single moves
def move_spec():
    return st.fixed_dictionaries({"g": gl(), "moves": st.lists(st.tuples(st.sampled_from(["lc", "lc2", "pivot", "pivot", "randlc", "randpivot", "unfuse"]), st.integers(0, 50)).map(list), min_size=1, max_size=4), "w": st.integers(0, 2)})

def weights(kind):
    if kind == 0: return None
    if kind == 1: return lambda g, l: [1 / len(l)] * len(l)
    return lambda g, l: [2 * (i + 1) / (len(l) * (len(l) + 1)) for i in range(len(l))]

def check_move(s, rec):
    from pyzx.local_search import congruences as C
    g = build(s["g"])
    T = oracle.graph_tensor(g, False)
    did = 0
    Z = graphs.vt("Z")
    for k, i in s["moves"]:
        n0 = g.num_vertices()
        if k in ("lc", "lc2"):
            with cut("is_lc_vertex"): vs = sorted(v for v in g.vertices() if C.is_lc_vertex(g, v))
            if not vs: continue
            v = vs[i % len(vs)]
            if g.type(v) != Z: fail("is_lc_vertex accepts a vertex of type %s", g.type(v))
            with cut(k): (C.lc_cong if k == "lc" else C.lc_cong2)(g, v)
        elif k == "pivot":
            with cut("is_pivot_edge"): es = sorted(g.edge_st(e) for e in g.edges() if C.is_pivot_edge(g, e))
            if not es: continue
            a, b = es[i % len(es)]
            if i % 2: a, b = b, a
            with cut(k): C.pivot_cong(g, a, b)
        elif k == "unfuse":
            vs = sorted(v for v in g.vertices() if g.type(v) == Z and any(g.type(w) == 0 for w in g.neighbors(v)) and any(g.type(w) == Z for w in g.neighbors(v)))
            if not vs: continue
            h = g.copy(); order = dict(zip(g.vertices(), h.vertices()))
            with cut(k): C.unfuse(h, order[vs[i % len(vs)]])
            if not oracle.proportional(oracle.graph_tensor(h, False), T): fail("unfuse at %s changed the map", vs[i % len(vs)])
            continue
        else:
            w = weights(s["w"])
            f = C.apply_rand_lc if k == "randlc" else C.apply_rand_pivot
            with cut(k): f(g) if w is None else f(g, weight_func=w)
        if g.num_vertices() > n0: did += 1; rec.label(k)
        graph_like(g, k)
        if not oracle.proportional(oracle.graph_tensor(g, False), T): fail("%s changed the map", k)
    rec.nt(did > 0)

# ---------------------------------------------------------------- scores
def count_score(g): return g.num_edges() * 3 + g.num_vertices()

def check_score(s, rec):
    import pyzx as zx
    from pyzx.local_search import scores
    c = gens.build_circuit(s["c"])
    b = c.to_basic_gates()
    n2 = sum(1 for x in b.gates if len(oracle.read_gate(x)[1]) == 2)
    want = s["w"] * n2 + len(b.gates) - n2
    with cut("wgc"): got = scores.wgc(c, s["w"])
    if got != want: fail("wgc is %s, expected %s", got, want)
    with cut("wgc"): got = scores.wgc(c)
    if got != 10 * n2 + len(b.gates) - n2: fail("wgc with default weight is %s", got)
    g = build({"c": s["c"], "how": s["how"]})
    before = graphs.snapshot(g)
    with cut("g_wgc"): x = scores.g_wgc(g, two_qb_weight=s["w"], g_simplify=s["gs"], c_simplify=s["cs"])
    df = graphs.diff(before, graphs.snapshot(g))
    if df: fail("g_wgc changed the diagram: %s", df)
    h = g.copy()
    if s["gs"]: zx.full_reduce(h)
    e = zx.extract_circuit(h).to_basic_gates()
    if s["cs"]: e = zx.basic_optimization(e).to_basic_gates()
    m2 = sum(1 for y in e.gates if len(oracle.read_gate(y)[1]) == 2)
    if x != s["w"] * m2 + len(e.gates) - m2: fail("g_wgc is %s, expected %s", x, s["w"] * m2 + len(e.gates) - m2)
    rec.nt(len(s["c"]["gates"]) > 1)

BASIC = ["CNOT", "CZ", "HAD", "ZPhase", "T", "S", "XPhase", "NOT", "T", "T*"]
def score_spec():
    return st.fixed_dictionaries({"c": gens.circuit(nmin=1, nmax=3, gmax=15, names=BASIC), "w": st.sampled_from([10, 1, 0, 3]), "gs": st.booleans(), "cs": st.booleans(), "how": st.sampled_from(["to_graph_like", "full_reduce"])})

# ---------------------------------------------------------------- annealing
def ann_spec():
    return st.fixed_dictionaries({"g": gl(searchable=True), "iters": st.integers(0, 6), "temp": st.sampled_from([25, 0, 1, 1000]), "cool": st.sampled_from([0.005, 0, 0.5, 1.0]),
                                  "fr": st.sampled_from([0, 0.1, 1, 0.5]), "reset": st.sampled_from([0, 1, 0.5]), "score": st.sampled_from(["default", "count", "count", "neg"]), "w": st.integers(0, 2)})

def check_anneal(s, rec):
    import pyzx as zx
    g = build(s["g"])
    T = oracle.graph_tensor(g, False)
    before = graphs.snapshot(g)
    sc = {"count": count_score, "neg": lambda h: -count_score(h)}.get(s["score"])
    seen = []
    kw = {}
    if sc: kw["score"] = lambda h: seen.append(sc(h)) or seen[-1]
    w = weights(s["w"])
    if w: kw.update(pivot_select=w, lc_select=w)
    with cut("anneal"): best, hist = zx.anneal(g, iters=s["iters"], temp=s["temp"], cool=s["cool"], full_reduce_prob=s["fr"], reset_prob=s["reset"], quiet=True, **kw)
    df = graphs.diff(before, graphs.snapshot(g))
    if df: fail("anneal changed its argument: %s", df)
    if not oracle.proportional(oracle.graph_tensor(best, False), T): fail("anneal returned another map")
    if len(hist) != s["iters"]: fail("anneal reports %d scores for %d iterations", len(hist), s["iters"])
    if any(b > a for a, b in zip(hist, hist[1:])): fail("the best score got worse: %s", hist)
    if sc:
        x = sc(best)
        if x > sc(g): fail("the result scores %s, the start %s", x, sc(g))
        if x != min(seen): fail("the result scores %s, the best diagram seen scored %s", x, min(seen))
        if any(h != min(seen[:i + 1]) for i, h in enumerate(hist)): fail("reported best scores %s, scores seen %s", hist, seen)
    else:
        h = best.copy(); zx.full_reduce(h)
        with cut("extract_circuit"): c = zx.extract_circuit(h)
        if not oracle.proportional(oracle.lib_circuit_unitary(c), T.reshape(2 ** g.num_outputs(), -1)): fail("the circuit extracted from the result is another one")
    rec.label(s["score"]); rec.nt(s["iters"] >= 2 and g.num_edges() > 2 * g.num_inputs())

# ---------------------------------------------------------------- genetic search
def gen_spec():
    return st.fixed_dictionaries({"g": gl(searchable=True), "m": st.integers(1, 4), "n": st.integers(0, 3), "act": st.sampled_from(["default", "default", "pivot", "lc", "worse", "better", "dead"]), "score": st.sampled_from(["default", "count"])})

def check_genetic(s, rec):
    import pyzx as zx
    from pyzx.local_search import genetic as G
    from pyzx.local_search import congruences as C
    g = build(s["g"])
    T = oracle.graph_tensor(g, False)
    U = T.reshape(2 ** g.num_outputs(), -1)
    before = graphs.snapshot(g)
    acts = []
    def note(f):
        def a(c, h):
            r = f(c, h)
            if r[0]: acts.append(r[1])
            return r
        return a
    def worse(c, h):
        h = h.copy(); C.apply_rand_pivot(h)
        d = c.copy(); d.add_gate("CNOT", 0, 1) if c.qubits > 1 else d.add_gate("HAD", 0); d.add_gate("CNOT", 0, 1) if c.qubits > 1 else d.add_gate("HAD", 0)
        return True, (d, h)
    def better(c, h):
        h = h.copy(); zx.full_reduce(h); return True, (zx.basic_optimization(zx.extract_circuit(h.copy()).to_basic_gates()), h)
    def dead(c, h): return False, (None, None)
    L = {"default": [G.rand_pivot, G.rand_lc], "pivot": [G.rand_pivot], "lc": [G.rand_lc], "worse": [worse], "better": [better], "dead": [dead]}[s["act"]]
    score = (lambda m: count_score(m.g_curr)) if s["score"] == "count" else None
    with cut("GeneticOptimizer"):
        o = G.GeneticOptimizer(actions=[note(a) for a in L], score=score) if score else G.GeneticOptimizer(actions=[note(a) for a in L])
    o.quiet = True
    with cut("evolve"):
        best, gen, res = o._evolve(g, s["m"], s["n"])
    df = graphs.diff(before, graphs.snapshot(g))
    if df: fail("evolve changed its argument: %s", df)
    if not oracle.proportional(oracle.graph_tensor(res, False), T): fail("evolve returned another map")
    if any(b > a for a, b in zip(best, best[1:])): fail("the best score got worse: %s", best)
    if any(b != min(gen[:i + 1]) for i, b in enumerate(best)): fail("best scores %s, generations %s", best, gen)
    if score and count_score(res) != best[-1]: fail("the result scores %s, reported as %s", count_score(res), best[-1])
    if s["act"] == "worse" and graphs.edges_of(res.copy()) != graphs.edges_of(o.g_orig.copy()) and s["score"] == "count" and best[-1] == best[0]: fail("no mutant was better, but the result is not the start")
    for m in o.mutants:
        if not m.dead and not oracle.proportional(oracle.lib_circuit_unitary(m.c_curr), U): fail("a mutant's circuit is not the start's")
        if not oracle.proportional(oracle.graph_tensor(m.g_curr, False), T): fail("a mutant's diagram is not the start's")
    if len(o.mutants) != s["m"]: fail("%d mutants, asked for %d", len(o.mutants), s["m"])
    with cut("evolve"): r2 = o.evolve(g, s["m"], min(s["n"], 1))
    if not oracle.proportional(oracle.graph_tensor(r2, False), T): fail("evolve returned another map")
    rec.label(s["act"]); rec.nt(s["n"] >= 2 and len(acts) > 0)

def sel_spec():
    return st.fixed_dictionaries({"scores": st.lists(st.tuples(st.integers(0, 5), st.integers(0, 5).map(lambda x: x == 0)).map(list), min_size=1, max_size=25), "method": st.sampled_from(["tournament", "top_half", "top_n", "none"])})

def check_select(s, rec):
    import pyzx as zx
    from pyzx.local_search import genetic as G
    ms = []
    for i, (x, d) in enumerate(s["scores"]):
        m = G.Mutant(zx.Circuit(1), zx.generate.identity(1)); m.score, m.dead, m.tag = x, d, i
        ms.append(m)
    o = G.GeneticOptimizer(); o.mutants = list(ms); o.n_mutants = len(ms)
    if s["method"] == "none":
        try: o.select("nonsense")
        except Exception: return
        fail("an unknown selection method was accepted")
    with cut("select"): o.select(s["method"])
    if len(o.mutants) != len(ms): fail("%s selects %d of %d mutants", s["method"], len(o.mutants), len(ms))
    if len({id(m) for m in o.mutants}) != len(ms) and s["method"] != "top_half": fail("%s shares mutants", s["method"])
    for m in o.mutants:
        if [m.score, m.dead] != s["scores"][m.tag]: fail("a selected mutant has changed")
    n = len(ms); srt = sorted(x for x, _ in s["scores"])
    got = sorted(m.score for m in o.mutants)
    if s["method"] == "top_half":
        if got != sorted(srt[:n // 2] * 2 + (srt[:1] if n % 2 else [])): fail("top_half of %s selects %s", srt, got)
    elif s["method"] == "top_n":
        t = srt[:10]
        if got != sorted(t * (n // 10) + t[:n % 10]): fail("top_n of %s selects %s", srt, got)
    elif n > 1:
        # the worst alone never wins a tournament
        live = [x for x, d in s["scores"]]
        worst = [i for i, x in enumerate(live) if x == max(live)]
        if len(worst) == 1 and not any(d for _, d in s["scores"]) and any(m.tag == worst[0] for m in o.mutants): fail("the worst mutant won a tournament")
    rec.label(s["method"]); rec.nt(n > 1)

SUBS = [
    Sub("moves", move_spec, check_move, 2500),
    Sub("scores", score_spec, check_score, 300),
    Sub("anneal", ann_spec, check_anneal, 700),
    Sub("genetic", gen_spec, check_genetic, 300),
    Sub("select", sel_spec, check_select, 500),
]
