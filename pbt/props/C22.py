"""Symbolic phases: rewriting commutes with substituting numbers."""
import math
from fractions import Fraction as F
from hypothesis import strategies as st
from ..core import Sub, fail, cut, Reject
from .. import gens, oracle, graphs
from . import C07

RULE = ("Diagrams and circuits as in C07 whose phases are partly replaced by expressions (sums of terms over Boolean variables a, b and continuous variables x, y, drawn "
        "from a small pool so that they cancel and combine to Clifford phases), and an assignment of numbers (Booleans 0/1, others arbitrary, often Clifford). The map of the simplified, teleported, "
        "composed or extracted diagram with the numbers put in must be the map of the original with the numbers put in. Non-trivial: the operation changed the diagram and "
        "it still contains a variable, or a variable disappeared.")
ASSUMPTIONS = ["The scalar is judged exactly unless the library marks it as unknown (the only documented loss: a pair of spiders with non-Pauli symbolic phases), then up to a non-zero factor.",
               "The coefficient of a Boolean term counts modulo 2, so gates that halve their angle are given expressions over continuous variables only.",
               "Numbers are put in by the harness (exact evaluation of each expression), not by the library."]

VARS = "abxy"
isb = lambda n: n in "ab"
# [[coefficient, {variable: power}], ...]
POOL = [[["1", {"a": 1}]], [["1", {"b": 1}]], [["1", {"a": 1}], ["1", {}]], [["1", {"a": 1}], ["1", {"b": 1}]], [["1/2", {"a": 1}]], [["1/2", {}], ["1", {"a": 1}]], [["-1/2", {}], ["1", {"b": 1}]],
        [["3/2", {"a": 1}]], [["1", {"a": 1, "b": 1}]], [["1/4", {"b": 1}]], [["1/4", {}], ["1", {"a": 1}]],
        [["1", {"x": 1}]], [["-1", {"x": 1}]], [["1", {"x": 1}], ["1", {}]], [["-1", {"x": 1}], ["1/2", {}]], [["1", {"x": 1}], ["1/2", {}]], [["1", {"y": 1}]], [["-1", {"y": 1}], ["1", {"x": 1}]],
        [["1/2", {"x": 1}]], [["2", {"x": 1}]], [["1", {"x": 2}]], [["1", {"x": 1, "a": 1}]], [["-1", {"x": 1, "a": 1}], ["1", {}]], [["1", {"x": 1, "y": 1}], ["1/4", {}]], [["3", {"x": 1}], ["-1", {"y": 1}]]]
term = st.tuples(st.sampled_from(["1", "-1", "1/2", "-1/2", "1/4", "3/2", "2", "1/3"]), st.dictionaries(st.sampled_from(VARS), st.integers(1, 2), max_size=2)).map(list)
expr = st.one_of(st.sampled_from(POOL), st.sampled_from(POOL), st.lists(term, min_size=1, max_size=3))
boolexpr = st.sampled_from(POOL[:11])
env = st.fixed_dictionaries({"a": st.sampled_from(["0", "1"]), "b": st.sampled_from(["0", "1"]),
                             "x": st.sampled_from(["0", "1", "1/2", "3/2", "1/4", "7/4", "2/7", "-5/9", "13/8"]), "y": st.sampled_from(["0", "1", "1/2", "-1/2", "3/4", "1/3", "11/13"])})
envs = st.lists(env, min_size=1, max_size=3)

def poly(g, e):
    """The library's expression, built from variables with its arithmetic."""
    from pyzx.symbolic import new_var, new_const
    types = g.variable_types if g is not None else None
    tot = new_const(0)
    for c, vs in e:
        t = new_const(1)
        for n, k in vs.items():
            if types is not None: types.setdefault(n, isb(n)); v = new_var(n, types)
            else: v = new_var(n, isb(n))
            for _ in range(k): t = t * v
        tot = tot + t * F(c)
    return tot
def val(e, env): return sum((F(c) * math.prod((F(env[n]) ** k for n, k in vs.items()), start=F(1)) for c, vs in e), F(0))
def ev(p, env):
    """Value of a library phase."""
    from pyzx.symbolic import Poly
    if not isinstance(p, Poly): return p
    tot = F(0)
    for c, t in p.terms:
        z = F(c)
        for v, k in t.vars: z *= F(env[v.name]) ** k
        tot += z
    return tot
def isym(p):
    from pyzx.symbolic import Poly
    return isinstance(p, Poly)

def put(g, env):
    """A copy with the numbers put in; also whether the scalar is unknown."""
    h = g.clone()
    for v in h.vertices():
        p = h.phase(v)
        if isym(p): h.set_phase(v, ev(p, env) % 2)
    s = g.scalar.copy()
    s.phase = ev(s.phase, env) % 2
    s.phasenodes = [ev(p, env) % 2 for p in s.phasenodes]
    h.scalar = s
    return h
def tensor(g, env):
    return oracle.graph_tensor(put(g, env)), g.scalar.is_unknown

def symbolic(spec, backend=None):
    g = gens.build_source(spec["g"], backend)
    from pyzx.utils import VertexType as V
    vs = [v for v in sorted(g.vertices()) if g.type(v) in (V.Z, V.X)]
    if not vs: raise Reject
    for i, e in spec["sym"]:
        g.set_phase(vs[i % len(vs)], poly(g, e))
    for e in spec.get("scal", []): g.scalar.add_phase(poly(g, e))
    for e in spec.get("node", []): g.scalar.add_node(poly(g, e))
    return g

def names(g):
    out = set()
    for v in g.vertices():
        if isym(g.phase(v)): out |= {x.name for x in g.phase(v).free_vars()}
    return out

def judge(g, Ts, envs, what):
    for e, T in zip(envs, Ts):
        with cut("putting numbers into the result of " + what): T2, unk = tensor(g, e)
        if T2.shape != T.shape: fail("%s changed the shape", what)
        if unk:
            if abs(T).max() > 1e-9 and not oracle.proportional(T2, T): fail("%s changed the map at %s (the scalar is unknown)", what, e)
        elif not oracle.close(T2, T): fail("%s changed the map at %s%s", what, e, " (by a scalar)" if oracle.proportional(T2, T) else "")

def check(spec, rec):
    tab = C07.table()
    from pyzx import simplify as s
    with cut("building"): g = symbolic(spec)
    Ts = [tensor(g, e)[0] for e in spec["env"]]
    # the library's phases are the expressions given
    for e in spec["env"]:
        ref = gens.build_source(spec["g"]); k = 0
        from pyzx.utils import VertexType as V
        vs = [v for v in sorted(ref.vertices()) if ref.type(v) in (V.Z, V.X)]
        for i, x in spec["sym"]: ref.set_phase(vs[i % len(vs)], val(x, e) % 2)
        for x in spec["scal"]: ref.scalar.add_phase(val(x, e) % 2)
        for x in spec["node"]: ref.scalar.add_node(val(x, e) % 2)
        if not oracle.close(oracle.graph_tensor(ref), tensor(g, e)[0]): fail("setting symbolic phases gave other phases")
    n0 = names(g); nt = False
    for name in spec["seq"]:
        if spec["prep"] == "gl":
            with cut("prep"): s.spider_simp(g, quiet=True); s.to_gh(g); s.spider_simp(g, quiet=True)
        before = graphs.snapshot(g)
        with cut(name): tab[name](g)
        judge(g, Ts, spec["env"], name)
        if graphs.diff(before, graphs.snapshot(g)): nt = True; rec.label(name)
    rec.nt(nt and n0)
    if g.scalar.is_unknown: rec.label("unknown scalar")

def check_teleport(spec, rec):
    from pyzx import simplify as s
    with cut("building"): g = symbolic(spec)
    Ts = [tensor(g, e)[0] for e in spec["env"]]
    before = graphs.snapshot(g)
    with cut("teleport_reduce"): h = s.teleport_reduce(g)
    if graphs.diff(before, graphs.snapshot(g)): fail("teleport_reduce changed its argument")
    for e, T in zip(spec["env"], Ts):
        with cut("putting numbers in"): T2, _ = tensor(h, e)
        if not oracle.same_up_to_phase(T2, T): fail("teleportation changed the map at %s", e)
    rec.nt(names(g) and any(x[1] != y[1] for x, y in zip(before["v"].values(), graphs.snapshot(h)["v"].values())))

def check_algebra(spec, rec):
    import pyzx as zx, numpy as np
    with cut("building"): g = symbolic(spec["l"]); h = symbolic(spec["r"])
    e = spec["env"][0]; mat = lambda x: oracle.graph_matrix(put(x, e))
    A, B = mat(g), mat(h)
    sg, sh = graphs.snapshot(g), graphs.snapshot(h)
    with cut("adjoint"): ad = g.adjoint()
    if not oracle.close(mat(ad), A.conj().T): fail("adjoint is not the adjoint at %s", e)
    with cut("copy with the adjoint flag"): cp = g.copy(adjoint=True)
    if not oracle.close(mat(cp), A.conj().T): fail("copy(adjoint=True) is not the adjoint at %s", e)
    with cut("copy"): cp = g.copy()
    if not oracle.close(mat(cp), A): fail("copy is another map at %s", e)
    with cut("tensor"): t = g.tensor(h)
    if not oracle.close(mat(t), np.kron(A, B)): fail("tensor is not the tensor product at %s", e)
    if B.shape[1] == A.shape[0]:
        rec.label("compose")
        with cut("compose"): c = g.copy(); c.compose(h)
        if not oracle.close(mat(c), B @ A): fail("compose is not the product at %s", e)
        with cut("+"): c = g + h
        if not oracle.close(mat(c), B @ A): fail("+ is not the product at %s", e)
    with cut("to_json"): j = zx.Graph.from_json(t.to_json())
    if not oracle.close(mat(j), np.kron(A, B)): fail("a JSON round trip of the product is another map at %s", e)
    if graphs.diff(sg, graphs.snapshot(g)) or graphs.diff(sh, graphs.snapshot(h)): fail("an argument changed")
    for v in list(t.vertices()) + list(j.vertices()):
        for P, G in ((t.phase(v), t),) if v in t.vertices() else ():
            if isym(P):
                for x in P.free_vars():
                    if x.is_bool != isb(x.name): fail("variable %s of the product has the wrong type", x.name)
    for what, d in [("product", t)] + ([("composition", c)] if B.shape[1] == A.shape[0] else []):
        for v in d.vertices():
            if isym(d.phase(v)):
                for x in d.phase(v).free_vars():
                    if x.name not in d.variable_types or d.variable_types[x.name] != isb(x.name): fail("the %s does not know the type of %s", what, x.name)
    rec.nt(names(g) and names(h))

def sym_circuit(spec, backend=None):
    """Library circuit with symbolic phases and the spec with numbers."""
    import pyzx as zx
    c = zx.Circuit(spec["n"])
    for name, qs, ph in spec["gates"]:
        c.add_gate(gens.make_gate(name, qs, [poly(None, p) if isinstance(p, list) else gens.P(p) for p in ph]))
    return c
def num_spec(spec, e):
    return {"n": spec["n"], "gates": [[n, q, [val(p, e) if isinstance(p, list) else p for p in ph]] for n, q, ph in spec["gates"]]}
def num_circuit(c, e):
    import pyzx as zx
    d = zx.Circuit(c.qubits)
    for g in c.gates:
        g = g.copy()
        for k, x in list(vars(g).items()):
            if isym(x): setattr(g, k, ev(x, e))
        d.add_gate(g)
    return d
def unitary(c, e): return oracle.lib_circuit_unitary(num_circuit(c, e))

GATES = ("ZPhase", "ZPhase", "ZPhase", "XPhase", "S", "T", "NOT", "HAD", "HAD", "CNOT", "CNOT", "CZ")
MORE = GATES + ("YPhase", "CRZ", "CPhase", "RZZ", "ParityPhase", "U2", "U3", "RXX", "CRX", "CRY", "SWAP", "CCZ")
@st.composite
def symc(draw, nmax=3, gmax=14, names=GATES):
    c = draw(gens.circuit(1, nmax, 0, gmax, names=names, phases=st.one_of(gens.phase_red, expr, expr)))
    for g in c["gates"]:
        if g[0] in HALF:      # half angles: Boolean coefficients only count modulo 2
            g[2] = [[[k, {n: e for n, e in vs.items() if not isb(n)}] for k, vs in p] if isinstance(p, list) else p for p in g[2]]
            g[2] = [[t for t in p if t[1]] if isinstance(p, list) else p for p in g[2]]
    return c
HALF = ("CRX", "CRY", "CRZ", "CPhase", "RXX", "RZZ")

def check_circuit(spec, rec):
    """Symbolic circuit: conversions, reading back and extraction."""
    import pyzx as zx, numpy as np
    with cut("building"): c = sym_circuit(spec["c"])
    es = spec["env"]; Us = [gens.unitary(num_spec(spec["c"], e)) for e in es]
    def judge_c(d, what):
        for e, U in zip(es, Us):
            with cut("putting numbers into " + what): V = unitary(d, e)
            if not oracle.same_up_to_phase(V, U): fail("%s implements another map at %s", what, e)
    def judge_g(g, what):
        for e, U in zip(es, Us):
            with cut("putting numbers into " + what): T = oracle.graph_matrix(put(g, e))
            if not oracle.same_up_to_phase(T, U): fail("%s is another map at %s", what, e)
    with cut("copy"): judge_c(c.copy(), "the copy")
    with cut("to_basic_gates"): judge_c(c.to_basic_gates(), "to_basic_gates")
    with cut("adjoint"): a = c.adjoint()
    for e, U in zip(es, Us):
        if not oracle.same_up_to_phase(unitary(a, e), U.conj().T): fail("the adjoint circuit is not the adjoint at %s", e)
    with cut("to_graph"): g = c.to_graph()
    judge_g(g, "to_graph")
    with cut("from_graph"): d = zx.Circuit.from_graph(g)
    judge_c(d, "from_graph")
    with cut("graph to json"): judge_g(zx.Graph.from_json(g.to_json()), "a JSON round trip")
    h = g.copy()
    with cut(spec["simp"]): getattr(zx.simplify, spec["simp"])(h, quiet=True)
    judge_g(h, spec["simp"])
    with cut("extract_circuit"): x = zx.extract_circuit(h.copy(), **spec["kw"])
    judge_c(x, "extract_circuit after " + spec["simp"])
    with cut("to_graph of the extracted circuit"): judge_g(x.to_graph(), "to_graph of the extracted circuit")
    with cut("teleport_reduce"): t = zx.simplify.teleport_reduce(g)
    judge_g(t, "teleport_reduce")
    with cut("reading the teleported diagram"): y = zx.Circuit.from_graph(t)
    judge_c(y, "the circuit of the teleported diagram")
    had = any(isinstance(p, list) and p for _, _, ph in spec["c"]["gates"] for p in ph)
    rec.nt(had and len(x.gates) and graphs.diff(graphs.snapshot(g), graphs.snapshot(h)))

ONE = ("color_change", "copy_X", "copy_Z", "pi_commute_X", "pi_commute_Z", "remove_id"); TWO = ("fuse", "strong_comp")
def sym_diagram(d, sym):
    with cut("building"):
        g = gens.build_diagram(d)
        from pyzx.utils import VertexType as V
        vs = [v for v in sorted(g.vertices()) if g.type(v) in (V.Z, V.X)]
        if not vs: raise Reject
        for i, e in sym: g.set_phase(vs[i % len(vs)], poly(g, e))
    return g
def check_basic(spec, rec):
    """Single rewrites of the editor."""
    from pyzx import basicrules as b
    g = sym_diagram(spec["d"], spec["sym"]); Ts = [tensor(g, e)[0] for e in spec["env"]]; n = 0
    for name, i, j in spec["ops"]:
        vs = sorted(g.vertices())
        places = [(v,) for v in vs] if name in ONE else [(v, w) for v in vs for w in sorted(g.neighbors(v)) if v != w]
        with cut("check_" + name): good = [x for x in places if getattr(b, "check_" + name)(g, *x)]
        if not good: continue
        syms = [x for x in good if any(isym(g.phase(v)) for v in x)]
        args = (syms if syms and j else good); args = args[i % len(args)]
        hit = any(isym(g.phase(v)) for v in args)
        with cut(name): r = getattr(b, name)(g, *args)
        if not r: fail("check_%s says yes but %s did nothing", name, name)
        judge(g, Ts, spec["env"], name)
        if hit: n += 1; rec.label(name)
        if g.num_vertices() > 30: break
    rec.nt(n)

def check_editor(spec, rec):
    from pyzx import editor_actions as ea
    g = sym_diagram(spec["d"], spec["sym"]); Ts = [tensor(g, e)[0] for e in spec["env"]]; n = 0
    for name in spec["ops"]:
        op = ea.operations[name]; before = graphs.snapshot(g); had = names(g)
        with cut("match " + name): ms = list(op["matcher"](g, lambda x: True))
        if spec["one"]: ms = ms[:1]
        if not ms: continue
        try:
            etab, rv, re, _ = op["rule"](g, ms)
            g.remove_edges(re); g.remove_vertices(rv); g.add_edge_table(etab)
        except ValueError as e:
            if "parallel edge" in str(e): rec.label("refused"); return
            raise
        judge(g, Ts, spec["env"], name)
        if had and graphs.diff(before, graphs.snapshot(g)): n += 1; rec.label(name)
        if g.num_vertices() > 30: break
    rec.nt(n)

def ed_names():
    from pyzx import editor_actions as ea
    return sorted(ea.operations)
def ddiag(kinds=("Z", "X")): return gens.diagram(kinds=kinds, phases=st.sampled_from(["0", "0", "1", "1", "1/2", "1/4"]), vmax=5, emax=7, hb_phases=st.sampled_from(["1", "1", "1/2"]))
syms = lambda ex: st.lists(st.tuples(st.integers(0, 9), ex).map(list), min_size=1, max_size=4)
pauliexpr = st.sampled_from(POOL[:4] + POOL[8:9])
def leafy():
    from .C32 import leaves
    return gens.diagram(kinds=("Z", "X"), phases=st.sampled_from(["0", "1", "1/4", "1/2"]), vmax=4, emax=4, imax=1, omax=2).flatmap(leaves)
def basic(): return st.fixed_dictionaries({"d": st.one_of(ddiag(), leafy()), "sym": syms(st.one_of(pauliexpr, pauliexpr, expr)), "env": envs,
                                           "ops": st.lists(st.tuples(st.sampled_from(ONE + TWO * 2), st.integers(0, 9), st.integers(0, 3)).map(list), min_size=1, max_size=4)})
def editor(kinds=("Z", "X")): return lambda: st.fixed_dictionaries({"d": ddiag(kinds), "sym": syms(st.one_of(pauliexpr, expr)), "env": envs, "one": st.booleans(), "ops": st.lists(st.sampled_from(ed_names()), min_size=1, max_size=3)})

def source(which=("gl", "gl", "circuit", "diagram"), ex=expr, n=6, **kw):
    return st.fixed_dictionaries({"g": gens.zx_source(which=which, **kw), "sym": st.lists(st.tuples(st.integers(0, 30), ex).map(list), min_size=1, max_size=n),
                                  "scal": st.lists(ex, max_size=1), "node": st.lists(ex, max_size=1)})
def simp(names, prep, which, ex=expr):
    return lambda: st.tuples(source(which, ex), envs, st.lists(st.sampled_from(names), min_size=1, max_size=3)).map(lambda t: dict(t[0], env=t[1], seq=t[2], prep=prep))
def tele(): return st.tuples(source(("circuit", "circuit", "gl", "diagram"), n=10), envs).map(lambda t: dict(t[0], env=t[1]))
def alg(): return st.fixed_dictionaries({"l": source(("diagram", "diagram", "circuit"), vmax=4, gmax=6, nmax=2, n=3), "r": source(("diagram", "diagram", "circuit"), vmax=4, gmax=6, nmax=2, n=3), "env": envs})
def circ(names, **k):
    return lambda: st.fixed_dictionaries({"c": symc(names=names, **k), "env": envs, "simp": st.sampled_from(["full_reduce", "clifford_simp", "interior_clifford_simp"]),
                                          "kw": st.sampled_from([{}, {"optimize_czs": False}, {"optimize_cnots": 0}, {"optimize_cnots": 3}, {"up_to_perm": False}])})
W = ("gl", "gl", "circuit", "diagram")
MIX = [n for n in C07.GL]
SUBS = [Sub("raw_" + n, simp([n], "raw", W), check, 240) for n in ("spider", "id", "lcomp", "pivot", "full", "to_gh", "to_rg", "to_graph_like")] + \
       [Sub("gl_" + n, simp([n], "gl", C07.which(n)), check, 600 if n in C07.HEAVY else 350) for n in ("lcomp", "pivot", "id", "pivot_gadget", "pivot_boundary", "gadget", "supplementarity", "copy", "full", "clifford", "reduce_scalar")] + \
       [Sub("big_" + k, simp(C07.FOCUS[k] + ["full"] * (k not in C07.RAWF), "raw" if k in C07.RAWF else "gl", ("focus_" + k,)), check, 250) for k in C07.FOCUS] + \
       [Sub("bool", simp(MIX, "gl", ("gl", "twin", "gadget", "leaf", "circuit"), boolexpr), check, 1400),
        Sub("mixed", simp(MIX, "gl", ("gl", "twin", "gadget", "leaf", "circuit", "diagram")), check, 1800),
        Sub("teleport", tele, check_teleport, 1200), Sub("algebra", alg, check_algebra, 800),
        Sub("basic", basic, check_basic, 1200), Sub("editor", editor(), check_editor, 600), Sub("editor_zh", editor(("Z", "Z", "X", "H")), check_editor, 400),
        Sub("circuit", circ(GATES), check_circuit, 1000), Sub("gates", circ(MORE, gmax=6), check_circuit, 300)]
