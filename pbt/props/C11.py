"""Circuit extraction returns an equivalent circuit."""
import itertools
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, fail, cut
from .. import gens, oracle, tableau

RULE = ("Circuits of 1-5 qubits (6-8 and 10-12 in part; from 10 judged on product states) and up to 45 gates (all gate kinds, Clifford+T, Clifford, CNOT-only, gadget-heavy families, dense parity maps of 6-8 qubits; spiders of either colour for the simple extractor), simplified by "
        "one of six strategies and extracted with a random option combination. Non-trivial: the extracted circuit has at least one two-qubit gate.")
ASSUMPTIONS = ["Extraction's documented input is the result of a simplification strategy applied to a circuit's diagram; "
               "extract_simple's is a spider-fused circuit diagram; extract_clifford_normal_form's a Clifford circuit diagram.",
               "up_to_perm: equality up to a permutation of the input qubits as documented."]

def perm_matrix(p):
    n = len(p)
    P = np.zeros((2 ** n, 2 ** n))
    for i in range(2 ** n):
        b = [(i >> (n - 1 - k)) & 1 for k in range(n)]
        j = 0
        for k in range(n): j |= b[p[k]] << (n - 1 - k)
        P[j, i] = 1
    return P

def perm_matrix_fast(p):
    n = len(p)
    return np.transpose(np.eye(2 ** n).reshape([2] * (2 * n)), list(p) + list(range(n, 2 * n))).reshape(2 ** n, 2 ** n)

def same(Uc, U, n, perm):
    if oracle.same_up_to_phase(Uc, U): return True
    if not perm or n > oracle.WIDE: return False
    # the permutation is read off the images of the basis states with a single one
    M = np.abs(U.conj().T @ Uc)
    p = [None] * n
    for k in range(n):
        col = M[:, 1 << (n - 1 - k)]; j = int(col.argmax())
        if j == 0 or j & (j - 1): return False
        p[n - 1 - (j.bit_length() - 1)] = k
    return None not in p and oracle.same_up_to_phase(Uc, U @ perm_matrix_fast(p))

@st.composite
def gadgety(draw, nmin=2, nmax=5):
    """CNOT ladders with phases and Hadamards: many phase gadgets after full reduction."""
    n = draw(st.integers(nmin, nmax))
    gs = []
    for _ in range(draw(st.integers(1, 8))):
        qs = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True))
        k = draw(st.sampled_from(["pp", "pp", "had", "cz"]))
        if k == "pp": gs.append(["ParityPhase", qs, [draw(gens.phase_red)]])
        elif k == "had": gs += [["HAD", [q], []] for q in qs]
        else: gs += [["CZ", [a, b], []] for a, b in zip(qs, qs[1:])]
    return {"n": n, "gates": gs}

def inverse(rows, n):
    a = [r | 1 << (n + i) for i, r in enumerate(rows)]
    for c in range(n):
        p = next((r for r in range(c, n) if a[r] >> c & 1), None)
        if p is None: return None
        a[c], a[p] = a[p], a[c]
        for r in range(n):
            if r != c and a[r] >> c & 1: a[r] ^= a[c]
    return [x >> n for x in a]

@st.composite
def parity(draw, nmin=6, nmax=8):
    """CNOT circuits of parity maps with dense rows (in the map or its inverse): no short sum of rows makes a vertex extractable."""
    import random
    n = draw(st.integers(nmin, nmax)); rnd = random.Random(draw(st.integers(0, 2 ** 31))); mode = draw(st.integers(0, 3)); ph = draw(st.booleans())
    gates = []
    for layer in range(draw(st.sampled_from([1, 1, 2]))):
        while True:
            rows = [(1 << n) - 1 for _ in range(n)]
            for k in range(n):
                for _ in range(rnd.choice((0, 1, 1, 2))): rows[k] &= ~(1 << rnd.randrange(n))
            inv = inverse(rows, n)
            if inv: break
        a = list(rows if mode & 2 else inv)
        for c in range(n):
            ops = []
            if not a[c] >> c & 1:
                p = next(r for r in range(c + 1, n) if a[r] >> c & 1); a[c] ^= a[p]; ops.append((p, c))
            for r in range(n):
                if r != c and a[r] >> c & 1: a[r] ^= a[c]; ops.append((c, r))
            gates += [["CNOT", [y, x] if mode & 1 else [x, y], []] for x, y in ops]
        gates += [["HAD", [q], []] for q in range(n)]
        if ph: gates += [["ZPhase", [q], [rnd.choice(("1/4", "1/2", "1/3"))]] for q in range(n) if rnd.random() < .4]
    return {"n": n, "gates": gates}

def circs(nmax=5, gmax=45):
    return st.one_of(gens.circuit(1, nmax, 0, gmax, names=tuple(gens.BASIC), phases=gens.phase_red),
                     gens.circuit(2, nmax, gmax // 3, gmax, names=tuple(gens.CLIFFORD_T), phases=gens.phase_t),
                     gens.circuit(2, min(4, nmax), 0, 12, names=tuple(gens.ALL)),
                     gens.circuit(2, nmax, 5, gmax, names=("CNOT", "CNOT", "CZ", "HAD", "S"), phases=gens.phase_cliff),
                     gadgety(2, nmax))

PREPS = ["full", "full", "full", "clifford", "interior", "graph_like", "full_norm", "iter", "spider"]

def prep(g, p):
    from pyzx import simplify as s
    if p == "full": s.full_reduce(g, quiet=True)
    elif p == "clifford": s.clifford_simp(g, quiet=True)
    elif p == "interior": s.interior_clifford_simp(g, quiet=True)
    elif p == "graph_like": s.to_graph_like(g)
    elif p == "full_norm": s.full_reduce(g, quiet=True); g.normalize()
    elif p == "iter":
        for _ in s.full_reduce_iter(g): pass
    elif p == "spider":
        s.spider_simp(g, quiet=True); s.to_gh(g); s.spider_simp(g, quiet=True)

def judge(c, U, n, perm, rec, what):
    if c.qubits != n: fail("%s: %d qubits, expected %d", what, c.qubits, n)
    Uc = oracle.lib_circuit_unitary(c)
    if not same(Uc, U, n, perm): fail("%s: extracted circuit is not equivalent to the original", what)
    rec.nt(any(len(r[1]) > 1 for r in oracle.read_circuit(c)))

def check_extract(spec, rec):
    from pyzx import extract
    U = gens.unitary(spec["c"]); n = spec["c"]["n"]
    g = gens.build_circuit(spec["c"]).to_graph()
    prep(g, spec["prep"])
    with cut("extract_circuit"):
        c = extract.extract_circuit(g, optimize_czs=spec["cz"], optimize_cnots=spec["cnot"], up_to_perm=spec["perm"])
    rec.label(spec["prep"]); rec.label("cnot%d" % spec["cnot"])
    judge(c, U, n, spec["perm"], rec, "extract_circuit")
    for r in oracle.read_circuit(c):
        if r[0] not in ("CNOT", "CZ", "ZPhase", "HAD", "SWAP"): fail("extract_circuit returned a %s gate", r[0])

def check_look(spec, rec):
    from pyzx import extract
    U = gens.unitary(spec["c"]); n = spec["c"]["n"]
    g = gens.build_circuit(spec["c"]).to_graph()
    prep(g, spec["prep"])
    f = getattr(extract, spec["f"])
    with cut(spec["f"]):
        c = f(g, optimize_for_depth=spec["depth"], up_to_perm=spec["perm"])
    rec.label(spec["f"])
    judge(c, U, n, spec["perm"], rec, spec["f"])

def check_huge(spec, rec):
    """Clifford circuits on 14 to 30 qubits, where the search for short row additions gives up; judged by the images of the Paulis."""
    from pyzx import extract
    c0 = tableau.circuit(spec["c"]); n = c0["n"]
    want = tableau.of(n, c0["gates"], spec["perm"])
    g = gens.build_circuit(c0).to_graph()
    prep(g, spec["prep"])
    f = spec["f"]
    with cut(f):
        if f == "extract_circuit": c = extract.extract_circuit(g, optimize_czs=spec["cz"], optimize_cnots=spec["cnot"], up_to_perm=spec["perm"])
        elif f == "extract_clifford_normal_form": c = extract.extract_clifford_normal_form(g)
        else: c = getattr(extract, f)(g, optimize_for_depth=spec["cz"], up_to_perm=spec["perm"])
    perm = spec["perm"] and f != "extract_clifford_normal_form"
    if c.qubits != n: fail("%s: %d qubits, expected %d", f, c.qubits, n)
    if spec["perm"] and not perm: want = tableau.of(n, c0["gates"])
    if tableau.of(n, oracle.read_circuit(c), perm) != want: fail("%s: the circuit extracted on %d qubits is not equivalent to the original", f, n)
    rec.nt(len(set(spec["c"]["blocks"]) & set("clm")) > 0); rec.label(f); rec.label(spec["prep"])

def check_simple(spec, rec):
    from pyzx import extract, simplify as s
    U = gens.unitary(spec["c"]); n = spec["c"]["n"]
    g = gens.build_circuit(spec["c"]).to_graph(compress_rows=spec["compress"])
    if spec["prep"] == "spider": s.spider_simp(g, quiet=True)
    elif spec["prep"] == "id": s.id_simp(g, quiet=True); s.spider_simp(g, quiet=True)
    elif spec["prep"] == "gh": s.to_gh(g); s.spider_simp(g, quiet=True)
    # the same map with some spiders in the other colour
    from pyzx.utils import VertexType as V, EdgeType as E
    for v, f in zip([v for v in g.vertices() if g.type(v) in (V.Z, V.X)], spec["flip"] * 40):
        if not f or any(g.type(w) not in (V.Z, V.X, V.BOUNDARY) for w in g.neighbors(v)): continue
        g.set_type(v, V.X if g.type(v) == V.Z else V.Z)
        for e in list(g.incident_edges(v)): g.set_edge_type(e, E.HADAMARD if g.edge_type(e) == E.SIMPLE else E.SIMPLE)
    with cut("extract_simple"):
        c = extract.extract_simple(g, up_to_perm=spec["perm"])
    judge(c, U, n, spec["perm"], rec, "extract_simple")

def shape(g, n):
    """Hadamards, phases, CZs, parity form from Z to X spiders, Hadamards, CZs, phases, Hadamards."""
    from pyzx.utils import VertexType, EdgeType
    vs, es = oracle.read_graph(g)
    adj = {v: [] for v in vs}
    for s, t, ty in es: adj[s].append((t, ty)); adj[t].append((s, ty))
    xs = [v for v in vs if vs[v][0] == "X"]
    if len(xs) != n: fail("normal form graph has %d X spiders for %d qubits", len(xs), n)
    for v in vs:
        if vs[v][0] in "ZX" and not oracle.phase_is_clifford(vs[v][1]): fail("normal form graph has a non-Clifford phase")
    for x in xs:
        if vs[x][1] != 0: fail("a parity spider of the normal form has a phase")
        zs = [(w, ty) for w, ty in adj[x]]
        had = [w for w, ty in zs if ty == "h"]
        if len(had) != 1: fail("an X spider of the normal form has %d Hadamard edges (one leads to its output layer)", len(had))
        for w, ty in zs:
            if vs[w][0] != "Z": fail("parity spiders of the normal form are not joined Z to X")
    if len(vs) > 8 * n: fail("normal form graph has %d vertices for %d qubits", len(vs), n)

LAYERS = ["H", "P", "CZ", "CN", "HALL", "CZ", "P", "H"]
def check_cliff(spec, rec):
    from pyzx import extract, simplify as s
    U = gens.unitary(spec["c"]); n = spec["c"]["n"]
    g = gens.build_circuit(spec["c"]).to_graph()
    if spec["nf"]:
        T0 = oracle.graph_matrix(g)
        with cut("to_clifford_normal_form_graph"):
            s.to_clifford_normal_form_graph(g)
        if not oracle.close(oracle.graph_matrix(g), T0): fail("to_clifford_normal_form_graph changed the map")
        shape(g, n)
        rec.nt(n > 1)
        return
    with cut("extract_clifford_normal_form"):
        c = extract.extract_clifford_normal_form(g)
    judge(c, U, n, False, rec, "extract_clifford_normal_form")
    # documented shape: Had-Phase-CZ-CNOT-Had-CZ-Phase-Had
    k = 0
    kind = {"HAD": ("H", "HALL"), "ZPhase": ("P",), "CZ": ("CZ",), "CNOT": ("CN",)}
    for name, qs, ph in oracle.read_circuit(c):
        if name not in kind: fail("normal form has a %s gate", name)
        while k < len(LAYERS) and LAYERS[k] not in kind[name]: k += 1
        if k == len(LAYERS): fail("gates of the normal form are not in the documented layer order")

def check_from_graph(spec, rec):
    import pyzx as zx
    U = gens.unitary(spec["c"]); n = spec["c"]["n"]
    cc = gens.build_circuit(spec["c"])
    g = cc.to_graph(compress_rows=spec["compress"], backend=spec["backend"])
    T = oracle.graph_matrix(g)
    with cut("Circuit.from_graph"):
        c = zx.Circuit.from_graph(g, split_phases=spec["split"])
    judge(c, U, n, False, rec, "Circuit.from_graph")
    if not oracle.close(oracle.graph_matrix(g), T): fail("from_graph changed the diagram")
    # the very same gates, up to the order of gates that act on different qubits: per-qubit sequences agree
    if all(x[0] in ("CNOT", "CZ", "HAD", "ZPhase", "Z", "S", "T", "S*", "T*", "XPhase", "NOT") for x in spec["c"]["gates"]) and not spec["split"]:
        def per_qubit(l):
            out = [[] for _ in range(n)]
            for nm, qs, ph in l:
                if nm == "CZ": qs = sorted(qs)
                if ph and ph[0] % 2 == 0: continue
                for q in qs: out[q].append((nm, tuple(qs), tuple(p % 2 for p in ph)))
            return out
        if per_qubit(oracle.read_circuit(c)) != per_qubit(oracle.read_circuit(cc)):
            fail("from_graph of an untouched circuit diagram gave other gates")

@st.composite
def laid_out(draw, lo, hi, rows):
    """A hand-made diagram laid out as a circuit: one horizontal path per qubit, any legal vertical wires within a row."""
    n = draw(st.integers(lo, hi))
    cols = []
    for _ in range(draw(st.integers(1, rows))):
        col = [[q, draw(st.sampled_from("ZX")), draw(gens.phase_any), draw(st.sampled_from("ssh"))] for q in range(n) if draw(st.integers(0, 3))]
        m = len(col)
        pairs = draw(st.lists(st.tuples(st.integers(0, m - 1), st.integers(0, m - 1)), max_size=m + 1)) if m > 1 else []
        cols.append([draw(st.permutations(col)), sorted({tuple(sorted(p)) for p in pairs if p[0] != p[1]})])
    return {"n": n, "cols": cols, "last": draw(st.lists(st.sampled_from("ssh"), min_size=n, max_size=n)), "split": draw(st.booleans()),
            "backend": draw(st.sampled_from([None, "simple", "multigraph"]))}

def check_laid_out(spec, rec):
    import pyzx as zx
    from fractions import Fraction
    from pyzx.utils import VertexType as V, EdgeType as E
    n = spec["n"]; ET = {"s": E.SIMPLE, "h": E.HADAMARD}
    g = zx.Graph(spec["backend"])
    ins = [g.add_vertex(V.BOUNDARY, q, 0) for q in range(n)]
    cur, several = list(ins), False
    for r, (col, pairs) in enumerate(spec["cols"]):
        vs = []
        for q, k, p, t in col:
            v = g.add_vertex(V.Z if k == "Z" else V.X, q, r + 1, Fraction(p)); vs.append(v)
            g.add_edge((cur[q], v), ET[t]); cur[q] = v
        for i, j in pairs: g.add_edge((vs[i], vs[j]), E.HADAMARD if col[i][1] == col[j][1] else E.SIMPLE)
        several |= any(sum(i in p for p in pairs) > 1 for i in range(len(col)))
    outs = [g.add_vertex(V.BOUNDARY, q, len(spec["cols"]) + 1) for q in range(n)]
    for q in range(n): g.add_edge((cur[q], outs[q]), ET[spec["last"][q]])
    g.set_inputs(tuple(ins)); g.set_outputs(tuple(outs))
    T = oracle.graph_matrix(g)
    with cut("Circuit.from_graph"): c = zx.Circuit.from_graph(g, split_phases=spec["split"])
    if c.qubits != n: fail("from_graph of a laid-out diagram on %d qubits gave %d", n, c.qubits)
    if not oracle.proportional(oracle.lib_circuit_unitary(c), T): fail("from_graph of a laid-out diagram gave another map")
    if not oracle.close(oracle.graph_matrix(g), T): fail("from_graph changed the diagram")
    rec.nt(several or any(p for _, p in spec["cols"]))

def widecircs(lo, hi, gmax=70):
    return st.one_of(gens.circuit(lo, hi, 10, gmax, names=tuple(gens.CLIFFORD_T), phases=gens.phase_t),
                     gens.circuit(lo, hi, 10, gmax, names=("CNOT", "CNOT", "CZ", "HAD", "S", "T"), phases=gens.phase_t),
                     gens.circuit(lo, hi, 10, 25, names=("CNOT", "SWAP", "CZ", "HAD", "CNOT", "ZPhase"), phases=gens.phase_red),
                     gadgety(lo, hi))
B = st.booleans()
FROMG = ("ZPhase", "XPhase", "Z", "S", "S*", "T", "T*", "NOT", "HAD", "CNOT", "CNOT", "CZ", "CZ", "XCX", "SX", "SX*")
SUBS = [
    Sub("extract", lambda: st.fixed_dictionaries({"c": circs(), "prep": st.sampled_from(PREPS), "cz": B, "cnot": st.integers(0, 3),
                                                  "perm": st.sampled_from([False, False, True])}), check_extract, 2400),
    Sub("lookahead", lambda: st.fixed_dictionaries({"c": circs(4, 30), "prep": st.sampled_from(["full", "full", "clifford", "full_norm"]),
                                                    "f": st.sampled_from(["lookahead_fast", "lookahead_fast", "lookahead_extract", "lookahead_full"]),
                                                    "depth": B, "perm": B}), check_look, 500),
    Sub("mid", lambda: st.fixed_dictionaries({"c": widecircs(6, 8), "prep": st.sampled_from(PREPS), "cz": B, "cnot": st.integers(0, 3),
                                              "perm": st.sampled_from([False, True, True])}), check_extract, 150),
    Sub("parity", lambda: st.fixed_dictionaries({"c": parity(), "prep": st.sampled_from(["full", "full", "clifford", "full_norm"]), "cz": B, "cnot": st.sampled_from([3, 3, 3, 2, 1, 0]),
                                                 "perm": st.just(False)}), check_extract, 150),
    Sub("wide", lambda: st.fixed_dictionaries({"c": widecircs(10, 12), "prep": st.sampled_from(PREPS), "cz": B, "cnot": st.sampled_from([0, 0, 1]),
                                               "perm": st.just(False)}), check_extract, 150),
    Sub("huge", lambda: st.fixed_dictionaries({"c": tableau.spec(14, 30), "prep": st.sampled_from(["full", "full", "clifford", "interior", "graph_like", "full_norm"]),
                                               "f": st.sampled_from(["extract_circuit"] * 4 + ["lookahead_fast", "extract_clifford_normal_form"]), "cz": B, "cnot": st.integers(0, 3), "perm": st.sampled_from([False, False, True])}), check_huge, 60),
    Sub("wide_cliff", lambda: st.fixed_dictionaries({"c": gens.circuit(10, 12, 10, 60, names=tuple(gens.CLIFFORD)), "nf": B}), check_cliff, 80),
    Sub("wide_from", lambda: st.fixed_dictionaries({"c": gens.circuit(10, 12, 5, 30, names=FROMG, phases=gens.phase_any), "compress": B,
                                                    "split": B, "backend": st.sampled_from([None, "simple", "multigraph"])}), check_from_graph, 80),
    Sub("simple", lambda: st.fixed_dictionaries({"c": gens.circuit(1, 5, 0, 25, names=tuple(gens.BASIC) + ("XCX", "NOT"), phases=gens.phase_any),
                                                 "prep": st.sampled_from(["raw", "spider", "id", "gh"]), "compress": B, "perm": B,
                                                 "flip": st.one_of(st.just([]), st.just([True]), st.lists(B, min_size=1, max_size=9))}), check_simple, 1500),
    Sub("clifford_nf", lambda: st.fixed_dictionaries({"c": gens.circuit(1, 5, 0, 30, names=tuple(gens.CLIFFORD)), "nf": B}), check_cliff, 1000),
    Sub("from_graph", lambda: st.fixed_dictionaries({"c": gens.circuit(1, 5, 0, 25, names=FROMG, phases=gens.phase_any), "compress": B,
                                                     "split": B, "backend": st.sampled_from([None, "simple", "multigraph"])}), check_from_graph, 1500),
    Sub("laid_out", lambda: laid_out(1, 5, 4), check_laid_out, 800),
]
