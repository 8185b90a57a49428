"""Strategies terminate in their documented normal forms and never add non-Clifford phases."""
import itertools
from fractions import Fraction
from hypothesis import strategies as st
from ..core import Sub, fail, cut
from .. import gens, oracle, graphs

RULE = ("Arbitrary diagrams, circuit diagrams, diagrams built around rule patterns and diagrams with one large place where a rule applies, simplified by one strategy; afterwards the diagram is searched, by code of this check, "
        "for redexes of every rule the strategy exhausts. Clifford scalar diagrams, Clifford circuits with states and effects plugged in. "
        "Non-trivial: the strategy changed the diagram.")
ASSUMPTIONS = ["A case that uses 60 s of CPU time is reported as not terminating.",
               "An interior Pauli spider counts as removable when the documented pivot, boundary pivot or gadget pivot applies to it."]

class D:
    """Plain view of a diagram."""
    def __init__(self, g):
        self.v, es = oracle.read_graph(g)
        self.n = {v: {} for v in self.v}
        self.bad = None
        for s, t, ty in es:
            if t in self.n[s] or s == t: self.bad = (s, t)
            self.n[s][t] = ty; self.n[t][s] = ty
        self.es = es
    def k(self, v): return self.v[v][0]
    def p(self, v): return self.v[v][1] % 2
    def z(self): return [v for v in self.v if self.v[v][0] == "Z"]
    def interior(self, v): return all(self.k(w) == "Z" for w in self.n[v])
    def bnd(self, v): return [w for w in self.n[v] if self.k(w) == "B"]
    def pauli(self, v): return self.p(v) in (0, 1)
    def leaf(self, v): return len(self.n[v]) == 1

def find_spider(d):
    for s, t, ty in d.es:
        if ty == "s" and d.k(s) == d.k(t) and d.k(s) in "ZX": return "spiders %s and %s can be fused" % (s, t)
def find_id(d):
    for v in d.v:
        if d.k(v) in "ZX" and d.p(v) == 0 and len(d.n[v]) == 2: return "spider %s is an identity" % v
def find_lcomp(d):
    for v in d.z():
        if d.p(v) in (Fraction(1, 2), Fraction(3, 2)) and d.interior(v) and all(t == "h" for t in d.n[v].values()): return "interior proper Clifford spider %s" % v
def ok_pivot_end(d, v): return all((d.k(w) == "Z" and t == "h") or d.k(w) == "B" for w, t in d.n[v].items())
def find_pivot(d):
    for s, t, ty in d.es:
        if ty == "h" and d.k(s) == d.k(t) == "Z" and d.pauli(s) and d.pauli(t) and ok_pivot_end(d, s) and ok_pivot_end(d, t) and len(d.bnd(s)) + len(d.bnd(t)) <= 1:
            return "pivot at %s, %s" % (s, t)
def find_pivot_boundary(d):
    for v in d.z():
        if not d.pauli(v) or not d.interior(v) or any(d.leaf(w) for w in d.n[v]) or any(t != "h" for t in d.n[v].values()): continue
        for w in d.n[v]:
            if len(d.bnd(w)) == 1 and ok_pivot_end(d, w): return "boundary pivot at %s, %s" % (v, w)
def find_pivot_gadget(d):
    for s, t, ty in d.es:
        for v, w in ((s, t), (t, s)):
            if d.k(v) == d.k(w) == "Z" and ty == "h" and d.pauli(v) and not d.pauli(w) and d.interior(v) and d.interior(w) and not d.leaf(w):
                if any(d.leaf(x) for x in d.n[v]): continue
                if any(e != "h" for x in (v, w) for e in d.n[x].values()): continue
                return "gadget pivot at %s, %s" % (v, w)
def gadgets(d):
    out = []
    for v in d.z():
        if d.leaf(v) and (4 * d.p(v)).denominator >= 1 and (2 * d.p(v)).denominator != 1:
            h = next(iter(d.n[v]))
            if d.k(h) == "Z" and d.n[v][h] == "h" and d.pauli(h) and all(t == "h" for t in d.n[h].values()) and all(d.k(w) == "Z" for w in d.n[h]):
                out.append((h, v, frozenset(d.n[h]) - {v}))
    return out
def find_gadget(d):
    seen = {}
    for h, v, tg in gadgets(d):
        # two leaves on one hub, or leaves pointing at each other: not gadgets
        if sum(1 for w in d.n[h] if d.leaf(w)) > 1 or d.leaf(h): continue
        if tg in seen: return "gadgets at %s and %s act on the same spiders" % (seen[tg], h)
        seen[tg] = h
        if d.p(h) == 1: return "gadget hub %s has phase pi" % h
def find_simple(d):
    for v in d.v:
        if d.k(v) == "X": return "X spider %s left" % v
    for s, t, ty in d.es:
        if ty == "s" and d.k(s) == d.k(t) == "Z": return "plain edge between spiders %s, %s" % (s, t)
def find_isolated(d):
    for v in d.v:
        if d.k(v) in "ZX" and not d.n[v]: return "isolated spider %s" % v

INT = [find_simple, find_spider, find_id, find_lcomp, find_pivot]
CL = INT + [find_pivot_boundary]
FULL = CL + [find_pivot_gadget, find_gadget]
# name -> (prep needed, conditions, exact stats name)
NF = {"spider": ("raw", [find_spider]), "id": ("raw", [find_id]), "lcomp": ("gl", [find_lcomp]), "pivot": ("gl", [find_pivot]),
      "pivot_boundary": ("gl", [find_pivot_boundary]), "pivot_gadget": ("gl", [find_pivot_gadget]), "gadget": ("gl", [find_gadget]),
      "interior_clifford": ("raw", INT), "clifford": ("raw", CL), "full": ("raw", FULL), "reduce_scalar": ("gl", [find_spider, find_id, find_lcomp, find_pivot, find_pivot_gadget, find_gadget]),
      "spider_iter": ("raw", [find_spider]), "id_iter": ("raw", [find_id]), "lcomp_iter": ("gl", [find_lcomp]), "pivot_iter": ("gl", [find_pivot]),
      "pivot_gadget_iter": ("gl", [find_pivot_gadget]), "pivot_boundary_iter": ("gl", [find_pivot_boundary]), "gadget_iter": ("gl", [find_gadget]),
      "interior_iter": ("raw", INT), "clifford_iter": ("raw", CL), "full_iter": ("raw", FULL), "phase_free": ("rg", [find_spider]), "to_gh": ("raw", []),
      "copy": ("gl", []), "supplementarity": ("gl", []), "to_graph_like": ("raw", [find_simple])}
SINGLE = {"spider": "spider_simp", "id": "id_simp", "lcomp": "lcomp_simp", "pivot": "pivot_simp", "pivot_boundary": "pivot_boundary_simp", "pivot_gadget": "pivot_gadget_simp",
          "gadget": "gadget_simp", "supplementarity": "supplementarity_simp", "copy": "copy_simp"}

def check(spec, rec):
    from pyzx import simplify as s
    from . import C07
    name = spec["s"]; prep, conds = NF[name]
    g = gens.build_source(spec["g"])
    if prep == "gl":
        with cut("prep"): s.spider_simp(g, quiet=True); s.to_gh(g); s.spider_simp(g, quiet=True)
    t0 = oracle.nonclifford_count(g)
    if s.tcount(g) != t0: fail("tcount says %d, the diagram has %d non-Clifford phases", s.tcount(g), t0)
    before = graphs.snapshot(g, False)
    nv = g.num_vertices()
    with cut(name):
        if name in SINGLE:
            stats = s.Stats(); it = getattr(s, SINGLE[name])(g, quiet=True, stats=stats)
        else: C07.table()[name](g)
    after = graphs.snapshot(g, False)
    t1 = oracle.nonclifford_count(g)
    if t1 > t0: fail("%s raised the number of non-Clifford phases from %d to %d", name, t0, t1)
    if s.tcount(g) != t1: fail("tcount says %d, the diagram has %d non-Clifford phases", s.tcount(g), t1)
    d = D(g)
    for c in conds:
        m = c(d)
        if m: fail("%s left a redex: %s", name, m)
    if name in SINGLE:
        n = stats.num_rewrites.get(SINGLE[name], 0)
        if set(stats.num_rewrites) - {SINGLE[name]}: fail("statistics name other rules: %s", stats.num_rewrites)
        if (it == 0) != (n == 0): fail("%d iterations but %d rewrites", it, n)
        if it > n: fail("%d iterations but %d rewrites", it, n)
        if n == 0 and graphs.diff(before, after): fail("%s reports no rewrite but changed the diagram: %s", name, graphs.diff(before, after))
        rem = nv - g.num_vertices()
        if name in ("id", "spider", "lcomp") and rem < n: fail("%d rewrites reported, %d vertices removed", n, rem)
        if name in ("pivot", "supplementarity") and n and rem < 1: fail("rewrites reported, nothing removed")
        if str(n).rjust(6) + " TOTAL" not in str(stats): fail("statistics print another total: %s", stats)
    rec.nt(bool(graphs.diff(before, after)))
    # a second run finds nothing to do
    if spec["again"] and name not in ("to_gh", "to_graph_like"):
        with cut(name + " again"):
            if name in SINGLE:
                if getattr(s, SINGLE[name])(g, quiet=True) != 0: fail("%s found more to do when run again", name)
            else: C07.table()[name](g)
        x = graphs.snapshot(g, False)
        if name not in ("pivot_gadget_iter", "pivot_boundary_iter") and graphs.diff(after, x): fail("%s changed the diagram when run again: %s", name, graphs.diff(after, x))

def check_scalar(spec, rec):
    """A Clifford diagram without inputs and outputs is reduced to a number."""
    from pyzx import simplify as s
    if spec["k"] == "plug":
        g = gens.build_circuit(spec["c"]).to_graph()
        n = spec["c"]["n"]
        with cut("plug"):
            g.apply_state("".join(spec["st"][:n])); g.apply_effect("".join(spec["ef"][:n]))
    else: g = gens.build_diagram(spec["d"])
    z = complex(oracle.graph_tensor(g))
    # spiders that touch nothing are no business of the strategies until one of them rewrites
    with cut("remove_isolated_vertices"): g.remove_isolated_vertices()
    with cut("full_reduce"):
        (s.full_reduce if spec["f"] == "full" else s.clifford_simp if spec["f"] == "clifford" else s.interior_clifford_simp)(g, quiet=True)
    if g.num_vertices() != 0: fail("%d vertices left of a closed Clifford diagram", g.num_vertices())
    if abs(complex(g.scalar.to_number()) - z) > 1e-7 * max(1, abs(z)): fail("number is %s, expected %s", g.scalar.to_number(), z)
    if abs(z) < 1e-9 and not g.scalar.is_zero and abs(complex(g.scalar.to_number())) > 1e-9: fail("zero diagram gives %s", g.scalar)
    rec.nt(True); rec.label("zero" if abs(z) < 1e-9 else "nonzero")

def check_gl(spec, rec):
    """is_graph_like agrees with its definition, to_graph_like reaches it."""
    from pyzx import simplify as s
    g = gens.build_source(spec["g"])
    if spec["prep"] == "gh": s.to_gh(g); s.spider_simp(g, quiet=True)
    elif spec["prep"] == "full": s.full_reduce(g)
    elif spec["prep"] == "gl":
        with cut("to_graph_like"): s.to_graph_like(g)
    def want(strict):
        d = D(g)
        if any(d.k(v) not in "ZB" for v in d.v) or any(ty == "s" and d.k(a) == d.k(b) == "Z" for a, b, ty in d.es): return False
        if strict:
            if any(d.k(v) == "B" and not (len(d.n[v]) == 1 and all(d.k(w) == "Z" for w in d.n[v])) for v in d.v): return False
            if any(len(d.bnd(v)) > 1 for v in d.z()): return False
        return True
    for strict in (False, True):
        with cut("is_graph_like"): r = s.is_graph_like(g, strict=strict)
        if bool(r) != want(strict): fail("is_graph_like(strict=%s) is %s", strict, r)
        rec.label("strict" * strict + str(bool(r)))
    if spec["prep"] == "gl" and not want(True): fail("to_graph_like did not reach the strict form")
    if spec["prep"] == "full" and not want(False): fail("full_reduce did not leave a graph-like diagram")
    rec.nt(want(False))

def check_stats(spec, rec):
    """Totals over a whole strategy."""
    from pyzx import simplify as s
    g = gens.build_source(spec["g"])
    stats = s.Stats()
    before = graphs.snapshot(g, False); nv = g.num_vertices()
    with cut(spec["s"]):
        r = {"full": s.full_reduce, "clifford": s.clifford_simp, "interior": s.interior_clifford_simp}[spec["s"]](g, quiet=True, stats=stats)
    d = stats.num_rewrites
    if any(n <= 0 for n in d.values()): fail("statistics list a rule with %s rewrites", d)
    tot = sum(d.values())
    if sum(d.get(k, 0) for k in ("spider_simp", "id_simp", "lcomp_simp")) > nv + 2 * d.get("pivot_gadget_simp", 0) + 3 * d.get("pivot_boundary_simp", 0): fail("more rewrites reported than there were vertices: %s", d)
    if spec["s"] == "full" and "pivot_gadget_simp" not in d and "pivot_boundary_simp" not in d and nv - g.num_vertices() < d.get("spider_simp", 0) + d.get("id_simp", 0) + d.get("lcomp_simp", 0): fail("%s rewrites reported, %d vertices removed", d, nv - g.num_vertices())
    rec.nt(tot > 2)

def src(*which, **kw): return gens.zx_source(which=which, **kw)
def WH(n):
    if n in ("phase_free",): return ("rg",)
    if n in ("gadget", "gadget_iter"): return ("gadget", "gl")
    if n == "supplementarity": return ("twin", "gl")
    if n == "copy": return ("leaf", "gl")
    return ("gl", "diagram", "circuit")
# Pauli-heavy and half-pi-heavy cores are what pivots and complementations need
core = lambda: gens.gl_diagram(bmax=7, gmax=2, phases=st.sampled_from(["0", "1", "1/2", "3/2", "1/4", "7/4", "1/3"]), recolour=False).map(lambda d: {"src": "diagram", "d": d})
CO = tuple(n for n in NF if n in ("lcomp", "pivot", "pivot_boundary", "pivot_gadget", "interior_clifford", "clifford", "full", "reduce_scalar", "full_iter", "clifford_iter", "interior_iter"))
PLACES = {"lcomp": ["lcomp", "lcomp_iter", "clifford", "full"], "pivot": ["pivot", "pivot_iter", "clifford", "full"], "pivot_gadget": ["pivot_gadget", "pivot_gadget_iter", "full", "full_iter"],
          "pivot_boundary": ["pivot_boundary", "pivot_boundary_iter", "clifford", "full"], "gadget": ["gadget", "gadget", "gadget_iter", "full", "reduce_scalar"], "copy": ["copy", "full", "reduce_scalar"],
          "supplementarity": ["supplementarity", "full", "reduce_scalar"], "fusion": ["spider", "spider_iter", "to_graph_like", "full"]}
SUBS = [Sub("nf_" + n, (lambda n: lambda: st.fixed_dictionaries({"g": src(*WH(n)), "s": st.just(n), "again": st.booleans()}))(n), check, 350) for n in NF] + [
    Sub("core", lambda: st.fixed_dictionaries({"g": core(), "s": st.sampled_from(CO), "again": st.booleans()}), check, 2500),
    Sub("places", lambda: st.sampled_from(sorted(PLACES)).flatmap(lambda k: st.fixed_dictionaries({"g": gens.focus(k).map(lambda d: {"src": "diagram", "d": d}), "s": st.sampled_from(PLACES[k]), "again": st.booleans()})), check, 2000),
    Sub("big", lambda: st.fixed_dictionaries({"g": gens.circuit(2, 6, 20, 60, names=tuple(gens.BASIC), phases=gens.phase_t).map(lambda c: {"src": "circuit", "c": c}),
                                              "s": st.sampled_from(["full", "clifford", "interior_clifford", "full_iter"]), "again": st.just(True)}), check, 300),
    Sub("closed", lambda: st.fixed_dictionaries({"k": st.just("d"), "f": st.sampled_from(["full", "clifford", "interior"]), "d": gens.diagram(vmax=9, emax=16, phases=gens.phase_cliff, imax=0, omax=0)}), check_scalar, 1500),
    Sub("plugged", lambda: st.fixed_dictionaries({"k": st.just("plug"), "f": st.sampled_from(["full", "clifford", "interior"]), "c": gens.circuit(1, 5, 0, 30, names=tuple(gens.CLIFFORD)),
                                                  "st": st.lists(st.sampled_from("01+-"), min_size=5, max_size=5), "ef": st.lists(st.sampled_from("01+-"), min_size=5, max_size=5)}), check_scalar, 800),
    Sub("graph_like", lambda: st.fixed_dictionaries({"g": src("gl", "diagram", "circuit"), "prep": st.sampled_from(["raw", "gh", "full", "gl"])}), check_gl, 1500),
    Sub("stats", lambda: st.fixed_dictionaries({"g": src("gl", "diagram", "circuit"), "s": st.sampled_from(["full", "clifford", "interior"])}), check_stats, 1000),
]
