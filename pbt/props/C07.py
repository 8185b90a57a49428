"""Simplification strategies preserve the tensor exactly."""
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, fail, cut, Reject
from .. import gens, oracle

RULE = ("Diagrams: arbitrary open Z/X graphs (0-8 spiders, wires, isolated parts), diagrams with one large place where a rule applies (up to 10 neighbours, up to 8 gadgets), or circuit diagrams (1-4 qubits, up to 18 gates), "
        "in either a raw or graph-like prepared form; 1-3 strategies applied in sequence with the tensor compared after each. "
        "Non-trivial: some strategy changed the number of vertices or edges or the scalar.")
ASSUMPTIONS = ["Strategies documented for restricted inputs (copying, boundary pivots, reduce_scalar, phase-free and supplementarity "
               "simplification) are run on graph-like diagrams as their callers do."]

def table():
    from pyzx import simplify as s
    def it(f):
        def run(g, **kw):
            for h, _ in f(g): pass
        return run
    q = {"quiet": True}
    return {
        "spider": lambda g: s.spider_simp(g, **q), "id": lambda g: s.id_simp(g, **q),
        "lcomp": lambda g: s.lcomp_simp(g, **q), "pivot": lambda g: s.pivot_simp(g, **q),
        "pivot_gadget": lambda g: s.pivot_gadget_simp(g, **q), "pivot_boundary": lambda g: s.pivot_boundary_simp(g, **q),
        "gadget": lambda g: s.gadget_simp(g, **q), "supplementarity": lambda g: s.supplementarity_simp(g, **q),
        "bialg": lambda g: s.bialg_simp(g, **q), "copy": lambda g: s.copy_simp(g, **q),
        "phase_free": lambda g: s.phase_free_simp(g, **q),
        "interior_clifford": lambda g: s.interior_clifford_simp(g, **q), "clifford": lambda g: s.clifford_simp(g, **q),
        "full": lambda g: s.full_reduce(g, **q), "reduce_scalar": lambda g: s.reduce_scalar(g, **q),
        "to_gh": lambda g: s.to_gh(g), "to_rg": lambda g: s.to_rg(g), "to_graph_like": lambda g: s.to_graph_like(g),
        "clifford_iter": it(s.clifford_iter), "interior_iter": it(s.interior_clifford_iter), "full_iter": it(s.full_reduce_iter),
        "spider_iter": it(s.spider_iter), "id_iter": it(s.id_iter), "pivot_iter": it(s.pivot_iter), "lcomp_iter": it(s.lcomp_iter),
        "gadget_iter": it(s.gadget_iter), "pivot_gadget_iter": it(s.pivot_gadget_iter),
        "pivot_boundary_iter": it(s.pivot_boundary_iter), "bialg_iter": it(s.bialg_iter),
    }

RAW = ["spider", "id", "lcomp", "pivot", "interior_clifford", "clifford", "full", "to_gh", "to_rg",
       "to_graph_like", "clifford_iter", "interior_iter", "full_iter", "spider_iter", "id_iter"]
GL = RAW + ["gadget", "pivot_boundary", "supplementarity", "bialg", "copy", "phase_free", "reduce_scalar", "pivot_iter", "lcomp_iter", "gadget_iter",
            "pivot_gadget_iter", "pivot_boundary_iter", "bialg_iter"]

def sig(g):
    return (sum(g.types().values()), g.num_vertices(), g.num_edges(), complex(g.scalar.to_number()))

def check(spec, rec):
    tab = table()
    g = gens.build_source(spec["g"])
    T = oracle.graph_tensor(g)
    if spec["prep"] == "gl":
        from pyzx import simplify as s
        with cut("prep"):
            s.spider_simp(g, quiet=True); s.to_gh(g); s.spider_simp(g, quiet=True)
        if not oracle.close(oracle.graph_tensor(g), T): fail("fusing spiders and changing colours changed the map")
    ins, outs = tuple(g.inputs()), tuple(g.outputs())
    changed = False
    for k, name in enumerate(spec["seq"]):
        if k and spec["prep"] == "gl":
            # the strategies' documented input: green and fused
            from pyzx import simplify as s
            with cut("prep between strategies"):
                s.spider_simp(g, quiet=True); s.to_gh(g); s.spider_simp(g, quiet=True)
            if not oracle.close(oracle.graph_tensor(g), T): fail("fusing spiders after %s changed the map", spec["seq"][:k])
        before = sig(g)
        with cut(name):
            tab[name](g)
        if tuple(g.inputs()) != ins or tuple(g.outputs()) != outs: fail("%s changed inputs or outputs", name)
        T2 = oracle.graph_tensor(g)
        if not oracle.close(T2, T):
            fail("%s changed the linear map%s", name, " (by a scalar)" if oracle.proportional(T2, T) else "")
        if not oracle.plug_ok(g, T2): fail("%s left a phase on a wire end: states plugged in there are changed", name)
        if sig(g) != before: changed = True; rec.label(name)
    rec.nt(changed)

def spec(names, prep, **kw):
    return lambda: st.fixed_dictionaries({"g": gens.zx_source(**kw), "prep": st.just(prep),
                                          "seq": st.lists(st.sampled_from(names), min_size=1, max_size=3)})

WHICH = {"bialg": ("rg", "rg", "gl"), "bialg_iter": ("rg", "rg", "gl"), "phase_free": ("rg", "rg", "diagram"),
         "supplementarity": ("twin", "twin", "gl"), "gadget": ("gadget", "gadget", "gl"), "gadget_iter": ("gadget", "gadget", "gl"),
         "copy": ("leaf", "gl", "circuit")}
HEAVY = ("gadget", "supplementarity", "gadget_iter", "pivot_gadget", "pivot_gadget_iter", "copy")
def which(n): return WHICH.get(n, ("gl", "gl", "gl", "diagram") if n in HEAVY else ("gl", "gl", "circuit", "diagram"))

FOCUS = {"ids": ["id", "id_iter", "interior_clifford", "full"], "lcomp": ["lcomp", "lcomp_iter"], "pivot": ["pivot", "pivot_iter"], "pivot_gadget": ["pivot_gadget", "pivot_gadget_iter"], "pivot_boundary": ["pivot_boundary", "pivot_boundary_iter"],
         "gadget": ["gadget", "gadget", "gadget_iter"], "copy": ["copy"], "supplementarity": ["supplementarity"], "bialg": ["bialg", "bialg_iter"], "fusion": ["spider", "spider_iter"]}
RAWF = ("bialg", "fusion", "ids")
def focus(kind):
    return lambda: st.fixed_dictionaries({"g": gens.focus(kind).map(lambda d: {"src": "diagram", "d": d}), "prep": st.just("raw" if kind in RAWF else "gl"),
                                          "seq": st.lists(st.sampled_from(FOCUS[kind] if kind in RAWF else FOCUS[kind] * 3 + ["full", "clifford", "reduce_scalar"]), min_size=1, max_size=2)})
SUBS = [Sub("raw_" + n, spec([n], "raw", which=which(n)), check, 450) for n in RAW] + \
       [Sub("gl_" + n, spec([n], "gl", which=which(n)), check, 900 if n in HEAVY else 550) for n in GL if n not in ("to_gh", "to_graph_like", "spider", "spider_iter", "bialg", "bialg_iter", "phase_free")] + \
       [Sub("rg_" + n, spec([n], "raw", which=("rg",)), check, 450) for n in ("bialg", "bialg_iter", "phase_free")] + \
       [Sub("big_" + k, focus(k), check, 500) for k in FOCUS] + \
       [Sub("mixed", spec(GL, "gl"), check, 2400)]
