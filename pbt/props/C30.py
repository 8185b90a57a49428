"""Generalised flow and measurement patterns."""
import itertools
from fractions import Fraction as F
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, fail, cut, Reject
from .. import gens, oracle, graphs

RULE = ("gflow: open graphs with up to 9 spiders, any edges between them, inputs and outputs given as boundary vertices or as spiders (also both or none on one spider), grounds, and vertices created in any order; "
        "layered graphs built to have a flow, the same with edges added; graph-like diagrams of circuits, also after interior Clifford simplification (which must have a flow). The answer is compared with an independent layer-by-layer "
        "search with all subsets decided by elimination, and every reported correction set is checked against the definition. Non-trivial: at least two vertices to correct. "
        "mbqc: grids up to 3x3 (at most 7 qubits and inputs together) with 0-2 inputs and sequences of measurements (any basis, phase, position) and Pauli corrections (including invalid ones), compared with "
        "linear algebra after every step. Non-trivial: at least two valid steps of different kinds.")
ASSUMPTIONS = ["Measurement planes are XY; spiders marked as grounds count as outputs; boundary vertices used as inputs are not measured themselves.",
               "Cluster states, measurements and corrections are compared up to a non-zero factor. A measurement projects on the effect of a spider of the given type and phase.",
               "Inputs of a cluster state are judged in grid order."]

# ------------------------------------------------------------------ gflow
def build(spec):
    import pyzx as zx
    from pyzx.utils import VertexType as V, EdgeType as E
    g = zx.Graph(spec.get("backend", "simple"))
    n = spec["n"]; order = spec["order"]
    # items: spiders 0..n-1, then boundaries
    items = [("v", i) for i in range(n)]
    bi = [(k, i) for k, i in enumerate(spec["in"]) if not spec["bare"]]
    bo = [(k, i) for k, i in enumerate(spec["out"]) if not spec["bare"]]
    items += [("i", k) for k, _ in bi] + [("o", k) for k, _ in bo]
    items = [x for _, x in sorted(zip([order[j % len(order)] * 100 + j for j in range(len(items))], items))]
    num = {}
    for x in items: num[x] = g.add_vertex(V.Z if x[0] == "v" else V.BOUNDARY)
    for a, b in spec["edges"]: g.add_edge((num[("v", a)], num[("v", b)]), E.HADAMARD)
    for k, i in bi: g.add_edge((num[("i", k)], num[("v", i)]), E.HADAMARD if spec["h"] else E.SIMPLE)
    for k, i in bo: g.add_edge((num[("v", i)], num[("o", k)]), E.SIMPLE)
    if spec["bare"]:
        g.set_inputs(tuple(num[("v", i)] for i in spec["in"])); g.set_outputs(tuple(num[("v", i)] for i in spec["out"]))
    else:
        g.set_inputs(tuple(num[("i", k)] for k, _ in bi)); g.set_outputs(tuple(num[("o", k)] for k, _ in bo))
    for i in spec["ground"]: g.set_ground(num[("v", i)], True)
    return g

def reference(g):
    """Maximally delayed layers, or None.  Independent of the library: bitmasks and elimination."""
    from pyzx.utils import VertexType as V
    vs = sorted(g.vertices()); nb = {v: set() for v in vs}
    for e in g.edges():
        s, t = g.edge_st(e); nb[s].add(t); nb[t].add(s)
    ins, outs = set(g.inputs()), set(g.outputs())
    bin_ = {i for i in ins if g.type(i) == V.BOUNDARY}
    noin = set(ins - bin_)
    for i in bin_: noin |= nb[i]
    done = outs | set(g.grounds())
    todo = set(vs) - done - bin_
    layer = {v: 0 for v in done}; k = 1
    while todo:
        P = sorted(done - noin - bin_)
        rows = sorted(set(vs) - done)
        idx = {v: j for j, v in enumerate(rows)}
        basis = []      # reduced column vectors
        for p in P:
            c = 0
            for w in nb[p]:
                if w in idx: c |= 1 << idx[w]
            for b in basis: c = min(c, c ^ b)
            if c: basis.append(c)
        new = set()
        for u in todo:
            x = 1 << idx[u]
            for b in sorted(basis, reverse=True): x = min(x, x ^ b)
            if not x: new.add(u)
        if not new: return None
        for u in new: layer[u] = k
        done = done | new; todo -= new; k += 1
    return layer

def check_flow(g, rec, must=False):
    from pyzx.gflow import gflow
    from pyzx.utils import VertexType as V
    before = graphs.snapshot(g)
    with cut("gflow"): r = gflow(g)
    if graphs.diff(before, graphs.snapshot(g)): fail("gflow changed the diagram")
    ref = reference(g)
    if must and ref is None: fail("reference finds no flow for a diagram that has one")      # harness sanity, cannot happen
    if (r is None) != (ref is None): fail("gflow reported %s although a flow %s", "nothing" if r is None else "a flow", "exists" if ref is not None else "does not exist")
    if r is None: rec.label("none"); return None
    rec.label("flow")
    l, f, k = r
    bin_ = {i for i in g.inputs() if g.type(i) == V.BOUNDARY}
    outs = set(g.outputs()) | set(g.grounds())
    need = set(g.vertices()) - outs - bin_
    if set(f) != need: fail("correction sets given for %s, wanted for %s", sorted(f), sorted(need))
    nb = {v: set(g.neighbors(v)) for v in g.vertices()}
    noin = set(g.inputs())
    for i in bin_: noin |= nb[i]
    for u, X in f.items():
        X = set(X)
        if X & noin: fail("correction set of %s contains an input: %s", u, sorted(X))
        if not X <= set(g.vertices()): fail("correction set of %s has unknown vertices", u)
        odd = {v for v in nb if len(nb[v] & X) % 2}
        if u not in odd: fail("%s is not in the odd neighbourhood of its correction set %s", u, sorted(X))
        for w in (X | odd) - {u} - bin_:
            if not l.get(w, 99999) < l[u]: fail("%s in the correction set or odd neighbourhood of %s is not measured later (layers %s, %s)", w, u, l.get(w), l[u])
        if odd & bin_: fail("correction of %s acts on a boundary input", u)
        if u in X: fail("%s is in its own correction set", u)
    if {v: x for v, x in l.items() if v in ref} != ref: fail("layers %s, maximally delayed layers %s", l, ref)
    if k < max(l.values(), default=0): fail("depth %s, layers %s", k, l)
    rec.nt(len(f) >= 2)
    return r

def check_open(spec, rec):
    if spec.get("backend") == "multigraph": pass
    g = build(spec)
    check_flow(g, rec)

def check_circuit(spec, rec):
    import pyzx as zx
    g = gens.build_circuit(spec["c"]).to_graph()
    with cut(spec["simp"]):
        if spec["simp"] == "none": zx.simplify.spider_simp(g, quiet=True); zx.simplify.to_gh(g); zx.simplify.spider_simp(g, quiet=True)
        elif spec["simp"] == "to_graph_like": zx.simplify.to_graph_like(g)
        else: getattr(zx.simplify, spec["simp"])(g, quiet=True)
    r = check_flow(g, rec, must=True)
    if r is None: fail("no flow reported for a circuit after %s", spec["simp"])

@st.composite
def openg(draw, nmax=9):
    n = draw(st.integers(1, nmax))
    kind = draw(st.sampled_from(["sparse", "dense", "layer", "layer", "layer+"]))
    order = draw(st.lists(st.integers(0, 9), min_size=3, max_size=20))
    edges = set()
    if kind in ("sparse", "dense"):
        m = draw(st.integers(0, n + 1 if kind == "sparse" else n * (n - 1) // 2))
        for a, b in draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)), min_size=m, max_size=m)):
            if a != b: edges.add((min(a, b), max(a, b)))
        sub = st.lists(st.integers(0, n - 1), max_size=3, unique=True)
        ins, outs = draw(sub), draw(st.lists(st.integers(0, n - 1), max_size=max(1, n // 2), unique=True))
    else:
        # wires of length >= 1; every vertex followed by the next on its wire, extra edges inside/to later layers
        q = draw(st.integers(1, 3)); wires = [[] for _ in range(q)]
        for v in range(n): wires[draw(st.integers(0, q - 1))].append(v)
        wires = [w for w in wires if w]
        pos = {}
        for w in wires:
            for j, v in enumerate(w): pos[v] = j
            edges |= {(min(a, b), max(a, b)) for a, b in zip(w, w[1:])}
        ins = [w[0] for w in wires if draw(st.integers(0, 3))]; outs = [w[-1] for w in wires]
        for a, b in draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)), max_size=n)):
            if a != b and (kind == "layer+" or pos[a] == pos[b]): edges.add((min(a, b), max(a, b)))
    ground = draw(st.lists(st.integers(0, n - 1), max_size=1)) if draw(st.integers(0, 4)) == 0 else []
    return {"n": n, "edges": sorted(map(list, edges)), "in": ins, "out": outs, "bare": draw(st.integers(0, 3)) == 0, "h": draw(st.booleans()), "ground": ground, "order": order,
            "backend": draw(st.sampled_from(["simple", "simple", "simple", "multigraph"]))}

@st.composite
def bigg(draw):
    """Wires of up to ten spiders with edges that keep a flow, or almost keep one."""
    import random
    r = random.Random(draw(st.integers(0, 2 ** 30)))
    q = r.randint(4, 14); n = r.randint(max(12, q), 45); kind = r.choice(["layer", "layer", "layer+", "dense"])
    names = list(range(n)); r.shuffle(names)
    wires = [[] for _ in range(q)]
    for v in names: r.choice(wires).append(v)
    wires = [w for w in wires if w]
    pos = {v: (j, k) for k, w in enumerate(wires) for j, v in enumerate(w)}
    edges = {(min(a, b), max(a, b)) for w in wires for a, b in zip(w, w[1:])}
    for _ in range(r.randint(0, 3 * n)):
        a, b = r.sample(range(n), 2)
        if pos[a][0] == pos[b][0] or kind == "dense" and pos[a][0] < pos[b][0] and pos[a][1] < pos[b][1]: edges.add((min(a, b), max(a, b)))
    if kind == "layer+":
        a, b = r.sample(range(n), 2); edges.add((min(a, b), max(a, b)))
    return {"n": n, "edges": sorted(map(list, edges)), "in": [w[0] for w in wires if r.random() < .8], "out": [w[-1] for w in wires], "bare": r.random() < .2, "h": r.random() < .5,
            "ground": [], "order": [r.randint(0, 9) for _ in range(20)], "backend": "simple"}

# ------------------------------------------------------------------ mbqc
def cluster_ref(m, n, inputs):
    """Tensor with one axis per qubit (grid order) then one per input (grid order)."""
    q = m * n; T = np.ones((2,) * q, dtype=complex)
    at = lambda r, c: r * n + c
    bits = np.indices((2,) * q)
    for r in range(m):
        for c in range(n):
            for r2, c2 in ((r + 1, c), (r, c + 1)):
                if r2 < m and c2 < n: T = T * np.where((bits[at(r, c)] & bits[at(r2, c2)]) == 1, -1, 1)
    for p in sorted(set(map(tuple, inputs))):
        a = at(*p); D = np.zeros(T.shape + (2,), dtype=complex)
        for b in range(2):
            ix = [slice(None)] * T.ndim; ix[a] = b
            D[tuple(ix) + (b,)] = T[tuple(ix)]
        T = D
    return T

def tensor_oi(g):
    """Axes: outputs, then inputs."""
    M = oracle.graph_matrix(g)
    no, ni = len(g.outputs()), len(g.inputs())
    return M.reshape((2,) * (no + ni))

def check_mbqc(spec, rec):
    from pyzx import mbqc
    from pyzx.utils import VertexType as V
    m, n = spec["m"], spec["n"]
    inputs = [tuple(p) for p in spec["in"]]
    with cut("cluster_state"): g = mbqc.cluster_state(m, n, list(inputs)) if inputs or spec["pass"] else mbqc.cluster_state(m, n)
    T = cluster_ref(m, n, inputs)
    live = [(r, c) for r in range(m) for c in range(n)]
    kinds = set()
    if len(g.outputs()) != len(live) or len(g.inputs()) != len(set(inputs)): fail("cluster state has %d outputs and %d inputs", len(g.outputs()), len(g.inputs()))
    if not oracle.proportional(tensor_oi(g), T): fail("cluster_state is another state")
    for op, pos, t, ph in spec["ops"]:
        pos = tuple(pos); vt = V.Z if t == "Z" else V.X
        before = graphs.snapshot(g)
        ok = pos in live
        phase = F(ph)
        if op == "measure":
            arg = int(phase) if phase.denominator == 1 and spec["int"] else phase
            try:
                if t == "Z" and phase == 0 and spec["dflt"]: mbqc.measure(g, pos)
                else: mbqc.measure(g, pos, vt, arg)
                if not ok: fail("measuring a missing or measured qubit %s did not fail", pos)
            except ValueError:
                if ok: fail("measure refused qubit %s", pos)
                if graphs.diff(before, graphs.snapshot(g)): fail("refused measurement changed the graph")
                rec.label("refused"); continue
            z = np.exp(1j * np.pi * float(phase)); eff = np.array([1, z]) if t == "Z" else np.array([1 + z, 1 - z]) / np.sqrt(2)
            a = live.index(pos); T = np.tensordot(T, eff, axes=([a], [0])); live.remove(pos)
            kinds.add("measure" + t)
        else:
            b = int(phase) if phase in (0, 1) else phase
            valid = b in (0, 1)
            try:
                if b == 1 and t == "Z" and spec["dflt"]: mbqc.apply_pauli(g, pos)
                else: mbqc.apply_pauli(g, pos, vt, b)
                if not valid: fail("a correction with phase %s was accepted", b)
                if not ok and b == 1: fail("correcting a missing or measured qubit %s did not fail", pos)
            except ValueError:
                if ok and valid: fail("apply_pauli refused qubit %s", pos)
                if graphs.diff(before, graphs.snapshot(g)): fail("refused correction changed the graph")
                rec.label("refused"); continue
            if b == 1:
                a = live.index(pos); P = np.diag([1, -1]) if t == "Z" else np.array([[0, 1], [1, 0]])
                T = np.moveaxis(np.tensordot(P, T, axes=([1], [a])), 0, a); kinds.add("pauli" + t)
            elif graphs.diff(before, graphs.snapshot(g)): fail("a correction with phase 0 changed the graph")
        if len(g.outputs()) != len(live): fail("%d outputs, %d qubits left", len(g.outputs()), len(live))
        X = tensor_oi(g)
        if abs(T).max() < 1e-9:
            if abs(X).max() > 1e-9: fail("%s on %s should give zero", op, pos)
        elif not oracle.proportional(X, T): fail("%s %s %s on %s gives another state", op, t, ph, pos)
    rec.nt(len(kinds) >= 2)

@st.composite
def patterns(draw):
    m, n = draw(st.sampled_from([(1, 1), (1, 2), (2, 1), (1, 3), (2, 2), (3, 1), (2, 3), (3, 2), (1, 4), (1, 5)]))
    cells = [[r, c] for r in range(m) for c in range(n)]
    ins = draw(st.lists(st.sampled_from(cells), max_size=2, unique_by=tuple))
    pos = st.one_of(st.sampled_from(cells), st.sampled_from(cells), st.sampled_from(cells), st.sampled_from(cells), st.sampled_from([[m, 0], [0, n], [-1, 0]]))
    op = st.one_of(st.tuples(st.just("measure"), pos, st.sampled_from("ZX"), gens.phase_red), st.tuples(st.just("pauli"), pos, st.sampled_from("ZX"), st.sampled_from(["1"] * 8 + ["0", "1/2"])),
                   st.tuples(st.just("pauli"), pos, st.sampled_from("ZX"), st.just("1"))).map(list)
    return {"m": m, "n": n, "in": ins, "pass": draw(st.booleans()), "int": draw(st.booleans()), "dflt": draw(st.booleans()), "ops": draw(st.lists(op, max_size=8))}

def circ(): return st.fixed_dictionaries({"c": gens.circuit(1, 5, 0, 40, names=("ZPhase", "XPhase", "S", "T", "HAD", "CNOT", "CNOT", "CZ", "NOT"), phases=gens.phase_red),
                                          "simp": st.sampled_from(["none", "to_graph_like", "interior_clifford_simp", "interior_clifford_simp"])})
SUBS = [Sub("open", openg, check_open, 5000), Sub("big", bigg, check_open, 500), Sub("wide", lambda: st.fixed_dictionaries({"c": gens.circuit(6, 14, 20, 90, names=("ZPhase", "XPhase", "S", "T", "HAD", "CNOT", "CNOT", "CZ", "NOT"), phases=gens.phase_red), "simp": st.sampled_from(["none", "to_graph_like", "interior_clifford_simp", "interior_clifford_simp"])}), check_circuit, 150), Sub("circuit", circ, check_circuit, 1200), Sub("mbqc", patterns, check_mbqc, 2500)]
