"""Diagrams with grounds and circuits with measurements keep their channel."""
import numpy as np
from fractions import Fraction as F
from hypothesis import strategies as st
from ..core import Sub, fail, cut, Reject
from .. import gens, oracle, graphs
from . import C07

RULE = ("(1) Diagrams as in C07 with up to 3 spiders marked as grounds, and diagrams of hybrid circuits; 1-3 simplification strategies in sequence, with the completely positive map compared (scalar included) after each. "
        "(2) Hybrid circuits: up to 3 qubits and 2 bits, unitary gates, measurements into a bit or without result, resets of bits, ancillas prepared and post-selected; "
        "the map of to_graph (both row modes) and of its simplifications is compared with a direct simulation, also after adjoint-free circuit operations (copy, composition, relabelling). "
        "(3) composition, product, adjoint and copies of diagrams with grounds. Non-trivial: the diagram has a ground (or the circuit a measurement) and the operation changed something.")
ASSUMPTIONS = ["A ground on a vertex is an extra leg that is traced out; a classical bit is a wire that is copied into the environment when written.",
               "Hybrid circuits are compared up to a positive factor (measurement gates carry no scalar); ancillas are prepared in |+> and post-selected on <+| as drawn by the library.",
               "Supplementarity, copying, bialgebra and phase-free simplification do not look at grounds and are not documented for such diagrams: not judged."]

NAMES = ["spider", "id", "lcomp", "pivot", "pivot_gadget", "pivot_boundary", "gadget", "interior_clifford", "clifford", "full", "to_gh", "to_rg", "to_graph_like", "clifford_iter", "interior_iter", "full_iter"]
RAW = ["spider", "id", "lcomp", "pivot", "interior_clifford", "clifford", "full", "to_gh", "to_rg", "to_graph_like"]

def kraus(g):
    """Axes: outputs, inputs, environment (as three flat axes), scalar included."""
    vs, es = oracle.read_graph(g)
    gr = sorted(g.grounds()); no, ni = len(g.outputs()), len(g.inputs())
    t = oracle.contract(vs, es, list(g.inputs()), list(g.outputs()), 1.0, gr)
    return t.reshape(2 ** no, 2 ** ni, 2 ** len(gr)) * abs(complex(g.scalar.to_number()))
def cp(K):
    M = K.reshape(-1, K.shape[-1]); return M @ M.conj().T

def grounded(spec, backend=None):
    g = gens.build_source(spec["g"], backend)
    from pyzx.utils import VertexType as V
    vs = [v for v in sorted(g.vertices()) if g.type(v) in (V.Z, V.X)]
    if not vs: raise Reject
    for i in spec["gr"]: g.set_ground(vs[i % len(vs)], True)
    return g

def run(g, spec, rec, exact=True, T=None):
    from pyzx import simplify as s
    tab = C07.table()
    if T is None: T = oracle.graph_cpmap(g)
    ins, outs = tuple(g.inputs()), tuple(g.outputs()); nt = False
    for name in spec["seq"]:
        had = bool(g.grounds())
        if spec["prep"] == "gl":
            with cut("prep"): s.spider_simp(g, quiet=True); s.to_gh(g); s.spider_simp(g, quiet=True)
            T2 = oracle.graph_cpmap(g)
            if not (oracle.close(T2, T) if exact else oracle.proportional(T2, T)): fail("fusing spiders changed the channel%s", " (by a factor)" if oracle.proportional(T2, T) else "")
        before = graphs.snapshot(g)
        with cut(name): tab[name](g)
        if (tuple(g.inputs()), tuple(g.outputs())) != (ins, outs): fail("%s changed inputs or outputs", name)
        if not set(g.grounds()) <= set(g.vertices()): fail("%s left grounds %s on missing vertices", name, sorted(set(g.grounds()) - set(g.vertices())))
        T2 = oracle.graph_cpmap(g)
        if not (oracle.close(T2, T) if exact else oracle.proportional(T2, T)):
            fail("%s changed the channel%s", name, " (by a factor)" if oracle.proportional(T2, T) else "")
        if had and graphs.diff(before, graphs.snapshot(g)): nt = True; rec.label(name)
    rec.nt(nt)

def check_simp(spec, rec):
    with cut("building"): g = grounded(spec)
    run(g, spec, rec)

# ------------------------------------------------------------------ hybrid circuits
def simulate(spec):
    """Kraus tensor of the circuit by direct simulation, outputs in the order qubits and ancillas by label, bits."""
    n, b = spec["n"], spec["b"]
    wires = ["q%d" % i for i in range(n)] + ["b%d" % i for i in range(b)]
    live = list(wires)
    K = np.eye(2 ** (n + b), dtype=complex).reshape((2,) * (2 * (n + b)))      # live wires, inputs, environment
    def gate(U, ws):
        nonlocal K
        k = len(ws); ax = [live.index(w) for w in ws]
        K = np.tensordot(U.reshape((2,) * (2 * k)), K, axes=(list(range(k, 2 * k)), ax))
        K = np.moveaxis(K, list(range(k)), ax)
    def copy_env(w):
        nonlocal K
        a = live.index(w); K = np.moveaxis(K, a, 0)
        D = np.zeros(K.shape + (2,), dtype=complex)
        for i in range(2): D[i, ..., i] = K[i]
        K = np.moveaxis(D, 0, a)
    def reset(w):       # trace out, new |0>
        nonlocal K
        a = live.index(w); E = np.moveaxis(K, a, -1)
        D = np.zeros((2,) + E.shape, dtype=complex); D[0] = E
        K = np.moveaxis(D, 0, a)
    CN = np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]], dtype=complex)
    for op in spec["ops"]:
        if op[0] == "gate": gate(oracle.gate_matrix(op[1], [float(F(p)) for p in op[3]], len(op[2])), ["q%d" % q for q in op[2]])
        elif op[0] == "measure":
            if op[2] is not None: reset("b%d" % op[2]); gate(CN, ["q%d" % op[1], "b%d" % op[2]])
            copy_env("q%d" % op[1])
        elif op[0] == "discard": reset("b%d" % op[1])
        elif op[0] == "init":
            j = sum(1 for w in live if w[0] == "q" and int(w[1:]) < op[1]); live.insert(j, "q%d" % op[1])
            D = np.stack([K, K]); K = np.moveaxis(D, 0, j)
        elif op[0] == "post":
            a = live.index("q%d" % op[1]); K = K.sum(axis=a); live.remove("q%d" % op[1])
    no = len(live); return K.reshape(2 ** no, 2 ** (n + b), -1)

def circuit(spec):
    import pyzx as zx
    from pyzx.circuit import gates as G
    c = zx.Circuit(spec["n"], bit_amount=spec["b"])
    for op in spec["ops"]:
        if op[0] == "gate": c.add_gate(gens.make_gate(op[1], op[2], op[3]))
        elif op[0] == "measure": c.add_gate(G.Measurement(op[1], op[2]))
        elif op[0] == "discard": c.add_gate(G.DiscardBit(op[1]))
        elif op[0] == "init": c.add_gate(G.InitAncilla(op[1]))
        elif op[0] == "post": c.add_gate(G.PostSelect(op[1]))
    return c

def channel_of(c, what, T, shape, **kw):
    with cut(what): g = c.to_graph(**kw)
    X = oracle.graph_cpmap(g)
    if X.shape != T.shape or (len(g.inputs()), len(g.outputs())) != shape: fail("%s: %d inputs and %d outputs, wanted %s", what, len(g.inputs()), len(g.outputs()), shape)
    if not oracle.proportional(X, T): fail("%s implements another channel", what)
    return g

def check_circuit(spec, rec):
    import pyzx as zx
    K = simulate(spec); T = cp(K)
    if abs(T).max() < 1e-9: raise Reject
    shape = (spec["n"] + spec["b"], int(np.log2(K.shape[0])))
    with cut("building"): c = circuit(spec)
    g = channel_of(c, "to_graph", T, shape)
    channel_of(c, "to_graph(compress_rows=False)", T, shape, compress_rows=False)
    channel_of(c, "to_graph on the multigraph backend", T, shape, backend="multigraph")
    with cut("copy"): d = c.copy()
    channel_of(d, "the copy", T, shape)
    with cut("=="): eq = d.gates == c.gates
    if not eq: fail("a copied circuit has different gates")
    for x in c.gates:
        for y in d.gates:
            if not (is_hyb(x) or is_hyb(y)): continue
            with cut("comparing gates"): eq = x == y
            if eq != (graphs_gate(x) == graphs_gate(y)): fail("%r == %r is %s", graphs_gate(x), graphs_gate(y), eq)
    with cut("to_basic_gates"): d = c.to_basic_gates()
    channel_of(d, "to_basic_gates", T, shape)
    with cut("to_json of the graph"): h = zx.Graph.from_json(g.to_json())
    if not oracle.proportional(oracle.graph_cpmap(h), T): fail("a JSON round trip of the graph is another channel")
    rec.nt(any(o[0] != "gate" for o in spec["ops"]))
    for o in spec["ops"]:
        if o[0] != "gate": rec.label(o[0])
    run(g, spec, rec, exact=True)

@st.composite
def hybrid(draw, bmax=2, ancilla=True, measure=True, gmax=9, nmax=3):
    n = draw(st.integers(1, nmax)); b = draw(st.integers(0, bmax))
    live = list(range(n)); nxt = n; ops = []; env = 0
    names = ("ZPhase", "XPhase", "HAD", "HAD", "S", "T", "NOT", "CNOT", "CNOT", "CZ", "YPhase", "SWAP", "CRZ")
    for _ in range(draw(st.integers(0, gmax))):
        k = draw(st.sampled_from(["gate"] * 5 + ["measure"] * 3 + ["discard", "init", "post"]))
        if k == "gate" and live:
            g = draw(gens.gate(len(live), [x for x in names if gens.arity(x) <= len(live)], gens.phase_red)); ops.append(["gate", g[0], [live[q] for q in g[1]], g[2]])
        elif k == "measure" and measure and env < 6 and live:
            bit = draw(st.integers(0, b - 1)) if b and draw(st.integers(0, 4)) else None
            if bit is not None and env >= 5: continue
            env += 1 if bit is None else 2
            ops.append(["measure", draw(st.sampled_from(live)), bit])
        elif k == "discard" and b and measure and env < 6: ops.append(["discard", draw(st.integers(0, b - 1))]); env += 1
        elif k == "init" and ancilla and len(live) < nmax + 1: # new labels, with gaps, and labels of wires that were post-selected
            l = draw(st.sampled_from([nxt, nxt, nxt + draw(st.integers(0, 30))] + [x for x in range(nxt) if x not in live]))
            ops.append(["init", l]); live.append(l); nxt = max(nxt, l + 1)
        elif k == "post" and ancilla and len(live) > 1: q = draw(st.sampled_from(live)); live.remove(q); ops.append(["post", q])
    return {"n": n, "b": b, "ops": ops}

def is_hyb(g): return type(g).__name__ in ("Measurement", "DiscardBit", "InitAncilla", "PostSelect")

def check_compose(spec, rec):
    """Circuit composition, in-place placement and equality with measurements."""
    import pyzx as zx
    s1, s2 = spec["l"], dict(spec["r"])
    a, b = circuit(s1), circuit(s2)
    if s2["n"] > s1["n"] or s2["b"] > s1["b"]: raise Reject
    mask = spec["perm"]; qm = sorted(range(s1["n"]), key=lambda i: mask[i % len(mask)] * 10 + i)[:s2["n"]]
    bm = sorted(range(s1["b"]), key=lambda i: -mask[(i + 1) % len(mask)] * 10 + i)[:s2["b"]]
    ops = [list(o) for o in s1["ops"]]
    for o in s2["ops"]:
        if o[0] == "gate": ops.append(["gate", o[1], [qm[q] for q in o[2]], o[3]])
        elif o[0] == "measure": ops.append(["measure", qm[o[1]], None if o[2] is None else bm[o[2]]])
        elif o[0] == "discard": ops.append(["discard", bm[o[1]]])
    ref = {"n": s1["n"], "b": s1["b"], "ops": ops}
    env = sum({"measure": 1 if o[0] == "measure" and o[2] is None else 2, "discard": 1}.get(o[0], 0) for o in ops)
    if env > 8: raise Reject
    K = simulate(ref); T = cp(K); shape = (s1["n"] + s1["b"],) * 2
    with cut("add_circuit"): c = a.copy(); c.add_circuit(b, mask=list(qm), bit_mask=list(bm))
    channel_of(c, "add_circuit", T, shape)
    if [graphs_gate(g) for g in c.gates] != [graphs_gate(g) for g in circuit(ref).gates]: fail("add_circuit gave other gates")
    if s1["n"] == s2["n"] and s1["b"] == s2["b"]:
        ref2 = dict(s1, ops=s1["ops"] + s2["ops"]); K = simulate(ref2)
        with cut("+"): c = a + b
        channel_of(c, "+", cp(K), shape); rec.label("+")
    with cut("tensor"): t = a.tensor(b)
    ops = [list(o) for o in s1["ops"]]
    for o in s2["ops"]:
        if o[0] == "gate": ops.append(["gate", o[1], [q + s1["n"] for q in o[2]], o[3]])
        elif o[0] == "measure": ops.append(["measure", o[1] + s1["n"], None if o[2] is None else o[2] + s1["b"]])
        elif o[0] == "discard": ops.append(["discard", o[1] + s1["b"]])
    tr = {"n": s1["n"] + s2["n"], "b": s1["b"] + s2["b"], "ops": ops}
    if tr["n"] + tr["b"] <= 5 and env <= 5:
        channel_of(t, "tensor", cp(simulate(tr)), (tr["n"] + tr["b"],) * 2); rec.label("tensor")
    elif (t.qubits, t.bits) != (tr["n"], tr["b"]): fail("tensor has %d qubits and %d bits", t.qubits, t.bits)
    rec.nt(any(o[0] != "gate" for o in s1["ops"]) and any(o[0] != "gate" for o in s2["ops"]))

def graphs_gate(g):
    return [type(g).__name__] + sorted((k, str(v)) for k, v in vars(g).items())

# ------------------------------------------------------------------ algebra
def check_algebra(spec, rec):
    with cut("building"): g = grounded(spec["l"]); h = grounded(spec["r"])
    A, B = kraus(g), kraus(h)
    sg, sh = graphs.snapshot(g), graphs.snapshot(h)
    with cut("tensor"): t = g.tensor(h)
    K = np.einsum("aie,bjf->abijef", A, B).reshape(A.shape[0] * B.shape[0], A.shape[1] * B.shape[1], -1)
    if not oracle.close(oracle.graph_cpmap(t), cp(K)): fail("tensor is not the product of the channels")
    with cut("adjoint"): d = g.adjoint()
    if not oracle.close(oracle.graph_cpmap(d), cp(np.transpose(A.conj(), (1, 0, 2)))): fail("adjoint is not the adjoint of the channel")
    for what, x in (("copy", lambda: g.copy()), ("clone", lambda: g.clone()), ("copy to the multigraph backend", lambda: g.copy(backend="multigraph"))):
        with cut(what): d = x()
        if not oracle.close(oracle.graph_cpmap(d), cp(A)): fail("%s is another channel", what)
    if A.shape[0] == B.shape[1]:
        with cut("compose"): c = g.copy(); c.compose(h)
        K = np.einsum("bae,aif->bief", B, A).reshape(B.shape[0], A.shape[1], -1)
        if not oracle.close(oracle.graph_cpmap(c), cp(K)): fail("compose is not the product of the channels")
        rec.label("compose")
    with cut("is_hybrid"): y = g.is_hybrid()
    if y != bool(g.grounds()): fail("is_hybrid says %s with grounds %s", y, g.grounds())
    if graphs.diff(sg, graphs.snapshot(g)) or graphs.diff(sh, graphs.snapshot(h)): fail("an argument changed")
    rec.nt(bool(g.grounds()) and bool(h.grounds()))

def src(which, lo=1, hi=3, **kw):
    return st.fixed_dictionaries({"g": gens.zx_source(which=which, **kw), "gr": st.lists(st.integers(0, 30), min_size=lo, max_size=hi)})
def simp(names, prep, which):
    return lambda: st.tuples(src(which, vmax=6, gmax=12, nmax=3), st.lists(st.sampled_from(names), min_size=1, max_size=3)).map(lambda t: dict(t[0], seq=t[1], prep=prep))
def hyb(**k):
    return lambda: st.tuples(hybrid(**k), st.lists(st.sampled_from(NAMES), min_size=1, max_size=2)).map(lambda t: dict(t[0], seq=t[1], prep="gl"))
def alg():
    small = src(("diagram", "diagram", "circuit"), 0, 2, vmax=4, gmax=5, nmax=2)
    return st.fixed_dictionaries({"l": small, "r": small})
def comp():
    h = hybrid(ancilla=False, gmax=5, nmax=2, bmax=2)
    return st.fixed_dictionaries({"l": h, "r": h, "perm": st.lists(st.integers(0, 9), min_size=3, max_size=3)})
W = ("gl", "gl", "circuit", "diagram")
SUBS = [Sub("raw_" + n, simp([n], "raw", W), check_simp, 250) for n in RAW] + \
       [Sub("gl_" + n, simp([n], "gl", C07.which(n)), check_simp, 400) for n in NAMES if n not in ("to_gh", "to_graph_like", "spider")] + \
       [Sub("mixed", simp(NAMES, "gl", ("gl", "gadget", "twin", "circuit")), check_simp, 1200),
        Sub("circuit", hyb(), check_circuit, 1200), Sub("compose", comp, check_compose, 800), Sub("algebra", alg, check_algebra, 500)]
