"""Parity-matrix T-count optimisation and the block-wise optimiser."""
from fractions import Fraction
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, fail, cut
from .. import gens, oracle
from .C12 import dump, ncl, patterns, TACC

RULE = ("CNOT/CZ/phase blocks of 1-6 qubits with up to 60 gates biased towards many distinct parities; Clifford+T circuits for the "
        "block-wise optimiser. Non-trivial: at least four T gates remain before optimising and the count or gate list changed.")
ASSUMPTIONS = ["Phases are multiples of pi/4, as documented."]

def mk(gs):
    return [gens.make_gate(*g) for g in gs]

def check_todd(spec, rec):
    from pyzx import todd
    import pyzx as zx
    n = spec["n"]; gs = mk(spec["gates"])
    U = oracle.circuit_unitary(n, spec["gates"])
    d0 = [str(g) for g in gs]
    t0 = t_optimal_merge(n, spec["gates"])
    with cut("todd_simp"):
        new, perm = todd.todd_simp(gs, n)
    if [str(g) for g in gs] != d0: fail("todd_simp changed its input gates")
    c = zx.Circuit(n); c.gates = list(new)
    V = oracle.lib_circuit_unitary(c)
    if sorted(perm) != list(range(n)) or sorted(perm.values()) != list(range(n)): fail("todd_simp returned %r, not a permutation", perm)
    if any(perm[i] != i for i in perm): fail("todd_simp returned the permutation %r; the caller-visible contract here is the identity", perm)
    if not oracle.same_up_to_phase(V, U): fail("todd_simp changed the unitary")
    t1 = ncl(c)
    if t1 > t0: fail("todd_simp returned %d T gates, merging equal parities alone gives %d", t1, t0)
    rec.nt(t0 >= 4); rec.label("fewer" if t1 < t0 else "same")

def t_optimal_merge(n, gates):
    """T-count after merging phases of equal parities (independent of the library)."""
    par = [frozenset([i]) for i in range(n)]; poly = {}
    for nm, qs, ph in gates:
        if nm == "CNOT": par[qs[1]] = par[qs[1]] ^ par[qs[0]]
        elif nm == "CZ": pass
        else:
            base = {"Z": 1, "S": Fraction(1, 2), "S*": Fraction(-1, 2), "T": Fraction(1, 4), "T*": Fraction(-1, 4)}
            p = Fraction(ph[0]) if ph else base[nm]
            poly[par[qs[0]]] = (poly.get(par[qs[0]], Fraction(0)) + p) % 2
    return sum(1 for p in poly.values() if p.denominator > 2)

def sig_tensor(cols, n):
    """Third-order signature: T count reduction may only change a parity matrix within its class."""
    a = np.array(cols, dtype=int).reshape(len(cols), n)
    return np.einsum("ci,cj,ck->ijk", a, a, a) % 2

def check_iter(spec, rec):
    from pyzx import todd
    from pyzx.linalg import Mat2
    n, cols = spec["n"], spec["cols"]
    m = Mat2([list(c) for c in cols]).transpose()
    with cut("todd_iter"):
        m2 = todd.todd_iter(m)
    out = [list(c) for c in m2.transpose().data] if m2.cols() else []
    if any(len(c) != n for c in out): fail("todd_iter changed the number of rows")
    x, y = sig_tensor(cols, n), sig_tensor(out, n)
    for i in range(n):
        for j in range(i + 1, n):
            for k in range(j + 1, n):
                if x[i, j, k] != y[i, j, k]: fail("the cubic part of the phase polynomial changed at (%d,%d,%d)", i, j, k)
            if x[i, j, j] != y[i, j, j]: fail("the quadratic part of the phase polynomial changed its parity at (%d,%d)", i, j)
        if x[i, i, i] != y[i, i, i]: fail("the linear part of the phase polynomial changed its parity at %d", i)
    red = []
    for c in cols:
        if c in red: red.remove(c)
        elif any(c): red.append(c)
    if len(out) > len(red): fail("todd_iter returned %d columns, removing duplicates gives %d", len(out), len(red))
    if [list(c) for c in m.transpose().data] != [list(c) for c in cols]: fail("todd_iter changed its argument")
    rec.nt(len(red) >= 4); rec.label("fewer" if len(out) < len(red) else "same")

def check_poly(spec, rec):
    """Signed parity sums -> Clifford gates, against direct evaluation of the exponents."""
    from pyzx import todd
    import pyzx as zx
    n = spec["n"]
    plus, minus = spec["cols"], spec["minus"]
    e = np.zeros(2 ** n, dtype=int)
    def parity(col, x): return sum(col[i] * ((x >> (n - 1 - i)) & 1) for i in range(n)) % 2
    for x in range(2 ** n):
        e[x] = (sum(parity(c, x) for c in plus) - sum(parity(c, x) for c in minus)) % 8
    from pyzx.linalg import Mat2
    p = todd.MultiLinearPoly()
    with cut("MultiLinearPoly"):
        if plus: p.add_par_matrix(Mat2([list(c) for c in plus]).transpose(), False)
        if minus: p.add_par_matrix(Mat2([list(c) for c in minus]).transpose(), True)
    # Clifford iff x,y,z-differences vanish: cubic coefficients even, quadratic 2*even, linear even
    a = sig_tensor(plus, n) + sig_tensor(minus, n)
    cliff = not (a % 2).any()
    try:
        gates = p.to_clifford()
    except ValueError:
        if cliff: fail("to_clifford refused a Clifford phase polynomial")
        rec.label("refused")
        return
    if not cliff: fail("to_clifford accepted a phase polynomial which is not Clifford")
    c = zx.Circuit(n); c.gates = list(gates)
    U = oracle.lib_circuit_unitary(c)
    D = np.diag(np.exp(1j * np.pi * e / 4))
    if not oracle.close(U, D): fail("to_clifford gives gates for another diagonal")
    rec.nt(bool(gates)); rec.label("clifford")

def check_block(spec, rec):
    from pyzx import optimize
    c0 = gens.build_circuit(spec["c"]); d0 = dump(c0); U = gens.unitary(spec["c"])
    with cut("phase_block_optimize"):
        c = optimize.phase_block_optimize(c0, pre_optimize=spec["pre"])
    if c.qubits != c0.qubits: fail("phase_block_optimize changed the number of qubits")
    if dump(c0) != d0: fail("phase_block_optimize changed its input")
    if not oracle.same_up_to_phase(oracle.lib_circuit_unitary(c), U): fail("phase_block_optimize changed the unitary")
    if ncl(c) > ncl(c0): fail("phase_block_optimize raised the T-count from %d to %d", ncl(c0), ncl(c))
    rec.nt(ncl(c0) >= 2); rec.label("fewer" if ncl(c) < ncl(c0) else "same")

def build_gadgets(d):
    """Core spiders with boundaries, gadgets (hub with a leaf) on sets of them, and extra Hadamard edges anywhere."""
    import pyzx as zx
    g = zx.Graph()
    core = [g.add_vertex(zx.VertexType.Z, i, i + 1, Fraction(p)) for i, p in enumerate(d["core"])]
    n = len(core); ins, outs = [], []
    for i, k, et in d["bnd"]:
        b = g.add_vertex(zx.VertexType.BOUNDARY, i, 0 if k else 9)
        g.add_edge((b, core[i % n]), zx.EdgeType.HADAMARD if et else zx.EdgeType.SIMPLE)
        (ins if k else outs).append(b)
    allv = list(core)
    for legs, hp, lp in d["gadgets"]:
        h = g.add_vertex(zx.VertexType.Z, -1, 2, Fraction(hp)); l = g.add_vertex(zx.VertexType.Z, -2, 2, Fraction(lp))
        g.add_edge((h, l), zx.EdgeType.HADAMARD)
        for x in sorted(set(i % n for i in legs)): g.add_edge((h, core[x]), zx.EdgeType.HADAMARD)
        allv += [h, l]
    for a, b in d["extra"]:
        a, b = allv[a % len(allv)], allv[b % len(allv)]
        if a != b and not g.connected(a, b): g.add_edge((a, b), zx.EdgeType.HADAMARD)
    g.set_inputs(tuple(ins)); g.set_outputs(tuple(outs))
    return g

def check_graph(spec, rec):
    from pyzx import todd, simplify
    if spec["kind"] == "circuit": g = gens.build_circuit(spec["d"]).to_graph()
    else: g = build_gadgets(spec["d"])
    if spec["reduce"]: simplify.full_reduce(g)
    t0 = sum(1 for v in g.vertices() if Fraction(g.phase(v)).denominator > 2)
    T = oracle.graph_tensor(g); io = (g.inputs(), g.outputs()); n0 = g.num_vertices()
    with cut("todd_on_graph"): todd.todd_on_graph(g)
    if (g.inputs(), g.outputs()) != io: fail("todd_on_graph changed the inputs or outputs")
    if not oracle.proportional(oracle.graph_tensor(g), T): fail("todd_on_graph changed the linear map")
    t1 = sum(1 for v in g.vertices() if Fraction(g.phase(v)).denominator > 2)
    if t1 > t0: fail("todd_on_graph raised the T-count from %d to %d", t0, t1)
    rec.nt(t0 >= 3 and n0 > 4); rec.label("fewer" if t1 < t0 else "same")

@st.composite
def gadget_graph(draw):
    n = draw(st.integers(1, 5)); i = st.integers(0, n - 1)
    ph = st.sampled_from(["0", "0", "1/4", "3/4", "5/4", "7/4", "1/2", "1"])
    legs = st.lists(i, min_size=1, max_size=4)
    tl = st.sampled_from(["1/4", "1/4", "7/4", "3/4", "5/4", "0", "1/8"])
    gad = st.tuples(legs, st.sampled_from(["0", "0", "0", "0", "1", "1/4"]), tl).map(list)
    many = [[list(c), "0", draw(tl)] for c in [[k for k in range(n) if m >> k & 1] for m in draw(st.permutations(range(1, 2 ** n)))] if len(c) > 1] if draw(st.booleans()) else []
    return {"core": draw(st.lists(ph, min_size=n, max_size=n)),
            "bnd": draw(st.lists(st.tuples(i, st.booleans(), st.booleans()).map(list), max_size=5)),
            "gadgets": draw(st.lists(gad, max_size=4)) + many[:draw(st.integers(0, 10))],
            "extra": draw(st.lists(st.tuples(st.integers(0, 12), st.integers(0, 12)).map(list), max_size=draw(st.sampled_from([0, 0, 1, 4]))))}

@st.composite
def block(draw, nmax=6):
    n = draw(st.integers(1, nmax)); gs = []
    ph = st.sampled_from(["T", "T", "T", "T*", "S", "S*", "Z", "7/4", "3/4", "5/4", "1/4"])
    for _ in range(draw(st.integers(0, 30))):
        k = draw(st.sampled_from("ccppz")) if n > 1 else "p"
        a = draw(st.integers(0, n - 1))
        if k == "p":
            p = draw(ph)
            gs.append([p, [a], []] if p[0] in "TSZ" else ["ZPhase", [a], [p]])
        else:
            b = draw(st.integers(0, n - 2)); b += b >= a
            gs.append(["CNOT" if k == "c" else "CZ", [a, b], []])
    return {"n": n, "gates": gs}

@st.composite
def ccz_block(draw):
    """Products of CCZs as phase polynomials: the inputs on which TODD finds reductions."""
    n = draw(st.integers(3, 6)); gs = []
    def parity_t(qs, inv):
        r = [["CNOT", [q, qs[-1]], []] for q in qs[:-1]]
        return r + [["T*" if inv else "T", [qs[-1]], []]] + r[::-1]
    for _ in range(draw(st.integers(1, 3))):
        tr = draw(st.permutations(range(n)))[:3]
        for m in range(1, 8):
            qs = [tr[i] for i in range(3) if m >> i & 1]
            gs += parity_t(qs, len(qs) == 2)
    extra = draw(st.lists(gens.gate(n, ["CNOT", "T", "S", "CZ"], gens.phase_t), max_size=5))
    return {"n": n, "gates": gs + extra}

@st.composite
def cols(draw, nmax=6, mmax=14):
    n = draw(st.integers(1, nmax))
    m = draw(st.integers(1, mmax))
    return {"n": n, "cols": [[draw(st.integers(0, 1)) for _ in range(n)] for _ in range(m)]}

@st.composite
def many(draw):
    n = draw(st.integers(5, 7))
    xs = draw(st.lists(st.integers(1, 2 ** n - 1), min_size=draw(st.sampled_from([15, 45] if n > 5 else [15])), max_size=70 if n > 5 else 31, unique=draw(st.booleans())))
    return {"n": n, "cols": [[(x >> i) & 1 for i in range(n)] for x in xs]}

@st.composite
def polys(draw):
    n = draw(st.integers(1, 5))
    c = st.lists(st.integers(0, 1), min_size=n, max_size=n)
    plus = draw(st.lists(c, max_size=6))
    if draw(st.booleans()):      # a Clifford one: pairs, or a set moved by a duplicate-free relation
        base = draw(st.lists(c, max_size=6))
        plus = base + draw(st.permutations(base)) if draw(st.booleans()) else base
        minus = list(draw(st.permutations(base))) if plus is base else []
        tw = draw(st.lists(c, max_size=3))
        plus, minus = plus + tw, minus + [list(x) for x in tw]
        if draw(st.booleans()): plus, minus = plus + tw + tw, minus
        if draw(st.booleans()): plus, minus = minus, plus
        if n >= 4 and draw(st.booleans()):   # all parities of 4 variables: cubic part vanishes
            for m in range(1, 16):
                plus = plus + [[(m >> i) & 1 if i < 4 else 0 for i in range(n)]]
        return {"n": n, "cols": plus, "minus": minus}
    return {"n": n, "cols": plus, "minus": draw(st.lists(c, max_size=6))}

B = st.booleans()
NONOT = tuple(x for x in TACC if x != "NOT")
@st.composite
def blocks(draw):
    pre = draw(B)
    names = TACC if pre else NONOT
    pat = patterns(names, gens.phase_t, 4).map(lambda c: c if pre else {"n": c["n"], "gates": [g for g in c["gates"] if g[0] != "NOT"]})
    c = draw(st.one_of(pat, gens.circuit(1, 5, 0, 40, names=names), gens.circuit(2, 4, 10, 45, names=("CNOT", "T", "S", "HAD", "CZ")),
                       ccz_block() if draw(st.integers(0, 3)) == 0 else pat))
    return {"c": c, "pre": pre}

SUBS = [
    Sub("todd_simp", lambda: st.one_of(block(), block(5), ccz_block()), check_todd, 1200),
    Sub("todd_iter", lambda: cols(), check_iter, 1000),
    Sub("iter_many", lambda: many(), check_iter, 60),
    Sub("to_clifford", polys, check_poly, 1500),
    Sub("graph", lambda: st.one_of(
        st.fixed_dictionaries({"kind": st.just("circuit"), "d": st.one_of(block(5), ccz_block()), "reduce": st.just(True)}),
        st.fixed_dictionaries({"kind": st.just("gadgets"), "d": gadget_graph(), "reduce": st.booleans()})), check_graph, 1200),
    Sub("block", blocks, check_block, 1500),
]
