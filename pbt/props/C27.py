"""Architecture-constrained CNOT synthesis."""
import itertools
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, fail, cut, Reject

RULE = ("Invertible parity maps of 1-9 qubits (products of elementary operations and permutations, sparse to dense) on named and random connected coupling graphs in random labellings; "
        "every elimination mode with small populations. Oracle: CNOTs multiplied out with numpy. Non-trivial: at least one CNOT was needed and the coupling graph is not complete.")
ASSUMPTIONS = ["A coupling graph is connected; the default placement of qubits is used (other placements may be refused because the remaining graph is disconnected).",
               "Rows of the parity map are output qubits; the permutations reported by the permuting modes select rows and columns of the given map.",
               "steiner_gauss needs connected upper and lower parts of the labelled graph and may refuse otherwise."]

NAMED = ["line", "circle", "square", "fully_connected", "ibm_qx2", "ibm_qx4", "rigetti_8q_agave", "recursive_architecture"]
DYN = ("line", "circle", "fully_connected")

@st.composite
def arch(draw, nmin=1, nmax=8, named=True):
    if named and draw(st.booleans()):
        nm = draw(st.sampled_from(NAMED))
        if nm in DYN: return {"name": nm, "n": draw(st.integers(max(2, nmin, 3 if nm == "circle" else 2), nmax))}
        if nm == "square": return {"name": nm, "n": draw(st.sampled_from([4, 9]))}
        return {"name": nm, "n": {"ibm_qx2": 5, "ibm_qx4": 5, "rigetti_8q_agave": 8, "recursive_architecture": 9}[nm]}
    n = draw(st.integers(nmin, nmax))
    E = [(draw(st.integers(0, i - 1)), i) for i in range(1, n)]
    for a, b in draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)), max_size=n)):
        if a != b and (min(a, b), max(a, b)) not in E: E.append((min(a, b), max(a, b)))
    p = list(draw(st.permutations(range(n))))
    return {"name": "graph", "n": n, "edges": [[p[a], p[b]] for a, b in E], "how": draw(st.sampled_from(["graph", "matrix"]))}

def build_arch(a, **kw):
    import pyzx as zx
    from pyzx.routing import create_architecture, Architecture
    if a["name"] != "graph":
        with cut("create_architecture"):
            return create_architecture(a["name"], n_qubits=a["n"], **kw) if a["name"] in DYN + ("square",) else create_architecture(a["name"], **kw)
    if a["how"] == "matrix":
        m = np.zeros((a["n"], a["n"]), dtype=int)
        for x, y in a["edges"]: m[x, y] = m[y, x] = 1
        with cut("Architecture"): return Architecture("m", coupling_matrix=m, **kw)
    g = zx.Graph(); g.add_vertices(a["n"]); g.add_edges([tuple(e) for e in a["edges"]])
    with cut("Architecture"): return Architecture("g", coupling_graph=g, **kw)

def couplings(A):
    """Pairs of qubits that may interact."""
    m = {v: q for q, v in enumerate(A.qubit_map)}
    r = set()
    for e in A.graph.edges():
        a, b = A.graph.edge_st(e)
        r.add((m[a], m[b])); r.add((m[b], m[a]))
    return r

@st.composite
def invertible(draw, n):
    M = np.eye(n, dtype=int)
    for a, b in draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)), max_size=draw(st.sampled_from([2, n, 3 * n])))):
        if a != b: M[b] ^= M[a]
    if draw(st.booleans()): M = M[draw(st.permutations(range(n)))]
    return M.tolist()

def gates_of(c): return [(g.name, int(g.control), int(g.target)) for g in c.gates]
def parity_of(gs, n):
    M = np.eye(n, dtype=int)
    for nm, c, t in gs:
        if nm != "CNOT": fail("gate %s in a CNOT circuit", nm)
        if c == t or not (0 <= c < n and 0 <= t < n): fail("CNOT on %d, %d of %d qubits", c, t, n)
        M[t] ^= M[c]
    return M

def check_conn(A, gs, what):
    E = couplings(A)
    for nm, c, t in gs:
        if (c, t) not in E: fail("%s: CNOT(%d,%d) between qubits that are not connected", what, c, t)

def tracker_ok(T, gs, n):
    if np.array(T.matrix.data).tolist() != parity_of(gs, n).tolist(): fail("the tracker's matrix is not the map of its gates")

@st.composite
def one(draw, modes, nmax=8):
    a = draw(arch(nmax=nmax))
    return {"a": a, "m": draw(invertible(a["n"])), "mode": draw(st.sampled_from(modes)), "full": draw(st.sampled_from([True, True, True, False])), "x": draw(st.booleans())}

def check_gauss(spec, rec):
    from pyzx.linalg import Mat2
    from pyzx.routing import gauss, ElimMode, CNOT_tracker, rec_steiner_gauss
    A = build_arch(spec["a"]); n = spec["a"]["n"]
    if A.n_qubits != n: fail("architecture has %d qubits, expected %d", A.n_qubits, n)
    M = np.array(spec["m"])
    mat = Mat2(M.tolist())
    y = CNOT_tracker(n); x = CNOT_tracker(n) if spec["x"] else None
    with cut(spec["mode"]):
        if spec["mode"] == "rec": rec_steiner_gauss(mat, A, full_reduce=spec["full"], x=x, y=y)
        else: rank = gauss(ElimMode(spec["mode"]), mat, architecture=A, full_reduce=spec["full"], x=x, y=y)
    R = np.array(mat.data) % 2
    gy = gates_of(y)
    tracker_ok(y, gy, n)
    # y undoes the elimination: map(y) * result = given map
    if not ((parity_of(gy, n) @ R - M) % 2 == 0).all(): fail("%s: the CNOTs do not implement the map", spec["mode"])
    if spec["x"]:
        gx = gates_of(x); tracker_ok(x, gx, n)
        if not ((parity_of(gx, n) @ M - R) % 2 == 0).all(): fail("%s: the recorded row operations do not give the result", spec["mode"])
    if spec["full"] and (R != np.eye(n, dtype=int)).any(): fail("%s: the map was not reduced to the identity", spec["mode"])
    if (np.tril(R, -1) != 0).any(): fail("%s: the result is not upper triangular", spec["mode"])
    if spec["mode"] == "gauss" and rank != n: fail("rank %s of an invertible map of %d qubits", rank, n)
    if spec["mode"] != "gauss": check_conn(A, gy, spec["mode"])
    rec.nt(len(gy) > 0 and len(couplings(A)) < n * (n - 1)); rec.label(spec["a"]["name"])

@st.composite
def large(draw, old=False):
    """13-20 qubits; a sparse or dense invertible map and a coupling graph from a seed."""
    import random
    r = random.Random(draw(st.integers(0, 2 ** 30)))
    n = r.randint(13, 20)
    back = r.choice([1, 3, 20]); E = {(r.randint(max(0, i - back), i - 1), i) for i in range(1, n)}
    for _ in range(r.randint(0, n)): E.add(tuple(sorted(r.sample(range(n), 2))))
    p = list(range(n))
    if r.random() < .7: r.shuffle(p)
    M = np.eye(n, dtype=int)
    for _ in range(r.choice([n, n * n])):
        a, b = r.sample(range(n), 2); M[b] ^= M[a]
    a = {"name": draw(st.sampled_from(["line", "fully_connected"])), "n": n} if old else {"name": "graph", "n": n, "edges": sorted([p[a], p[b]] for a, b in E), "how": r.choice(["graph", "matrix"])}
    return {"a": a, "m": M.tolist(), "mode": draw(st.sampled_from(["old"] if old else ["gauss", "steiner", "rec"])), "full": draw(st.sampled_from([True, True, True, False])), "x": draw(st.booleans())}

def check_old(spec, rec):
    """steiner_gauss: any shape and rank, on lines and complete graphs; others may be refused."""
    from pyzx.linalg import Mat2
    from pyzx.routing import steiner_gauss, CNOT_tracker
    A = build_arch(spec["a"]); n = spec["a"]["n"]
    M = np.array(spec["m"]); mat = Mat2(M.tolist())
    y = CNOT_tracker(n); x = CNOT_tracker(n) if spec["x"] else None
    with cut("steiner_gauss", allow=() if spec["a"]["name"] == "fully_connected" or line_like(A) else (ValueError,)):
        try: rank = steiner_gauss(mat, A, full_reduce=spec["full"], x=x, y=y)
        except (ValueError,):
            if spec["a"]["name"] == "fully_connected" or line_like(A): raise
            raise Reject()
    R = np.array(mat.data) % 2; gy = gates_of(y)
    if not ((parity_of(gy, n) @ R - M) % 2 == 0).all(): fail("the CNOTs do not implement the map")
    tracker_ok(y, gy, n); check_conn(A, gy, "steiner_gauss")
    if spec["x"]:
        gx = gates_of(x); tracker_ok(x, gx, n)
        if not ((parity_of(gx, n) @ M - R) % 2 == 0).all(): fail("the recorded row operations do not give the result")
    if rank != n: fail("rank %s of an invertible map of %d qubits", rank, n)
    if spec["full"] and (R != np.eye(n, dtype=int)).any(): fail("the map was not reduced to the identity")
    if (np.tril(R, -1) != 0).any(): fail("the result is not upper triangular")
    rec.nt(len(gy) > 0)

def line_like(A):
    return list(A.qubit_map) == list(range(A.n_qubits)) and all((i, i + 1) in couplings(A) for i in range(A.n_qubits - 1))

@st.composite
def perm_spec(draw):
    a = draw(arch(nmin=3, nmax=5))
    return {"a": a, "m": draw(invertible(a["n"])), "mode": draw(st.sampled_from(["gauss", "steiner"])), "row": draw(st.booleans()), "col": draw(st.booleans()),
            "via": draw(st.sampled_from(["permuted", "gauss"])), "metric": draw(st.sampled_from(["combined", "depth", "count"]))}

SMALL = dict(population_size=4, n_iterations=1)
def check_perm(spec, rec):
    from pyzx.linalg import Mat2
    from pyzx.routing import permuted_gauss, gauss, ElimMode, CNOT_tracker, FitnessFunction, CostMetric
    A = build_arch(spec["a"]); n = spec["a"]["n"]; M = np.array(spec["m"])
    mode = ElimMode(spec["mode"]); mat = Mat2(M.tolist())
    y = CNOT_tracker(n)
    with cut("permuted_gauss"):
        if spec["via"] == "permuted":
            f = FitnessFunction(CostMetric(spec["metric"]), mat, mode, A, row=spec["row"], col=spec["col"])
            perm, c, rank = permuted_gauss(mat, mode, A, row=spec["row"], col=spec["col"], fitness_func=f, **SMALL)
        else:
            gauss(ElimMode("genetic_" + spec["mode"]), mat, architecture=A, full_reduce=True, y=y, row=spec["row"], col=spec["col"], **SMALL)
            c = y
    rp, cp = [int(i) for i in c.row_perm], [int(i) for i in c.col_perm]
    for nm, p, on in (("row", rp, spec["row"]), ("column", cp, spec["col"])):
        if sorted(p) != list(range(n)): fail("%s permutation %s", nm, p)
        if not on and p != list(range(n)): fail("%ss were permuted by %s although not allowed", nm, p)
    if spec["via"] == "permuted" and (spec["row"] or spec["col"]) and [int(i) for i in perm] != (rp if spec["row"] else cp): fail("returned permutation %s, used %s, %s", perm, rp, cp)
    gs = gates_of(c); tracker_ok(c, gs, n)
    if parity_of(gs, n).tolist() != M[rp][:, cp].tolist(): fail("the CNOTs do not implement the permuted map")
    if mat.data != M.tolist(): fail("the given map was changed")
    if spec["mode"] == "steiner": check_conn(A, gs, "permuted_gauss")
    rec.nt(len(gs) > 0)

@st.composite
def seq_spec(draw):
    a = draw(arch(nmin=3, nmax=5))
    k = draw(st.integers(1, 3))
    return {"a": a, "ms": [draw(invertible(a["n"])) for _ in range(k)], "mode": draw(st.sampled_from(["gauss", "steiner", "genetic_gauss", "genetic_steiner", "pso_gauss", "pso_steiner"])),
            "ip": draw(st.booleans()), "op": draw(st.booleans())}

def check_seq(spec, rec):
    from pyzx.linalg import Mat2
    from pyzx.routing import sequential_gauss, ElimMode
    A = build_arch(spec["a"]); n = spec["a"]["n"]; Ms = [np.array(m) for m in spec["ms"]]
    mode = spec["mode"]
    with cut("sequential_gauss"):
        circs, perms, score = sequential_gauss([Mat2(m.tolist()) for m in Ms], mode=ElimMode(mode), architecture=A, full_reduce=True, input_perm=spec["ip"], output_perm=spec["op"],
                                               n_steps=1, swarm_size=2, **({} if mode in ("gauss", "steiner") else SMALL))
    if len(circs) != len(Ms): fail("%d circuits for %d maps", len(circs), len(Ms))
    if len(perms) != len(Ms) + 1: fail("%d permutations for %d maps", len(perms), len(Ms))
    perms = [[int(i) for i in p] for p in perms]
    I = list(range(n))
    for p in perms:
        if sorted(p) != I: fail("not a permutation: %s", p)
    if mode in ("gauss", "steiner"):
        if any(p != I for p in perms): fail("permutations in a mode without any")
    else:
        if not spec["ip"] and perms[0] != I: fail("input permuted by %s although not allowed", perms[0])
        if not spec["op"] and perms[-1] != I: fail("output permuted by %s although not allowed", perms[-1])
    tot = 0
    for i, (c, m) in enumerate(zip(circs, Ms)):
        gs = gates_of(c); tot += len(gs)
        if parity_of(gs, n).tolist() != m[perms[i + 1]][:, perms[i]].tolist(): fail("%s: circuit %d does not implement its map under the permutations %s -> %s", mode, i, perms[i], perms[i + 1])
        if "steiner" in mode: check_conn(A, gs, mode)
    rec.nt(tot > 0); rec.label(mode)

# ------------------------------------------------------------------ the tracker itself
def check_tracker(spec, rec):
    from pyzx.routing import CNOT_tracker
    from pyzx import Circuit
    from pyzx.circuit import CNOT, ZPhase
    n = spec["n"]; T = CNOT_tracker(n); want = []
    for k, a, b in spec["ops"]:
        a %= n; b %= n
        if a == b: continue
        with cut(k):
            if k == "row_add": T.row_add(a, b); want.append((a, b))
            elif k == "col_add": T.col_add(a, b); want.insert(0, (b, a))
            elif k == "gate": T.add_gate(CNOT(a, b)); want.append((a, b))
            elif k == "name": T.add_gate("CNOT", a, b); want.append((a, b))
            elif k == "pre": T.prepend_gate(CNOT(a, b)); want.insert(0, (a, b))
            elif k == "prename": T.prepend_gate("CNOT", a, b); want.insert(0, (a, b))
    gs = gates_of(T)
    if [(c, t) for _, c, t in gs] != want: fail("gates %s, expected %s", gs, want)
    M = parity_of(gs, n).tolist()
    if np.array(T.matrix.data).tolist() != M: fail("the tracker's matrix is not the map of its gates")
    if T.count_cnots() != len(want) or T.gather_metrics()["n_cnots"] != len(want): fail("%d CNOTs counted of %d", T.count_cnots(), len(want))
    d = {}
    for a, b in want: d[a] = d[b] = max(d.get(a, 0), d.get(b, 0)) + 1
    if T.cnot_depth() != max(d.values(), default=0): fail("CNOT depth %d, expected %d", T.cnot_depth(), max(d.values(), default=0))
    if T.gather_metrics()["depth"] != T.cnot_depth(): fail("depth in the metrics is %s", T.gather_metrics())
    c = Circuit(n)
    for a, b in want: c.add_gate("CNOT", a, b)
    with cut("from_circuit"): U = CNOT_tracker.from_circuit(c)
    if np.array(U.matrix.data).tolist() != M: fail("from_circuit gives another matrix")
    U.add_gate(CNOT(0, 1)) if n > 1 else None
    if len(c.gates) != len(want): fail("adding a gate to the tracker changed the circuit it was made from")
    with cut("update_matrix"): T.update_matrix()
    if np.array(T.matrix.data).tolist() != M: fail("update_matrix gives another matrix")
    q = Circuit.from_qasm(T.to_qasm())
    if [(g.name, g.control, g.target) for g in q.gates] != gs: fail("printed program has other gates")
    # a resynthesised circuit is equal
    rec.nt(len(want) > 2)

# ------------------------------------------------------------------ coupling graphs
def check_arch(spec, rec):
    A = build_arch(spec["a"]); n = spec["a"]["n"]
    if A.n_qubits != n: fail("%d qubits, expected %d", A.n_qubits, n)
    if sorted(A.qubit_map) != list(range(n)): fail("qubit map %s", A.qubit_map)
    for q in range(n):
        if A.vertex2qubit(A.qubit2vertex(q)) != q: fail("qubit %d is placed on a vertex of qubit %d", q, A.vertex2qubit(A.qubit2vertex(q)))
    E = couplings(A)
    if spec["a"]["name"] == "graph":
        m = {v: q for q, v in enumerate(A.qubit_map)}
        want = {(m[a], m[b]) for a, b in spec["a"]["edges"]}; want |= {(b, a) for a, b in want}
        if want != E: fail("couplings %s, expected %s", sorted(E), sorted(want))
    nb = {q: {b for a, b in E if a == q} for q in range(n)}
    for q in range(n):
        if A.get_neighboring_qubits(q) != nb[q]: fail("neighbours of %d are %s, expected %s", q, A.get_neighboring_qubits(q), nb[q])
    def conn(S):
        S = set(S)
        if not S: return True
        seen = {next(iter(S))}; todo = list(seen)
        while todo:
            for y in nb[todo.pop()] & S - seen: seen.add(y); todo.append(y)
        return seen == S
    if not conn(range(n)): fail("coupling graph is not connected")
    if sorted(A.reduce_order) != list(range(n)): fail("reduce order %s", A.reduce_order)
    for i in range(n):
        if not conn(A.reduce_order[i:]): fail("removing %s disconnects the rest", A.reduce_order[:i])
        if not conn(range(i, n)): fail("qubits from %d on are not connected", i)
    # distances
    def dist(S, s):
        d = {s: 0}; todo = [s]
        for x in todo:
            for y in nb[x]:
                if y in S and y not in d: d[y] = d[x] + 1; todo.append(y)
        return d
    vs = sorted({v % n for v in spec["sub"]} or {0})
    with cut("floyd_warshall"): F = A.floyd_warshall([A.qubit2vertex(q) for q in vs], upper=True)
    for s in vs:
        d = dist(set(vs), s)
        for t in vs:
            r = F.get((A.qubit2vertex(s), A.qubit2vertex(t)))
            if (r is None) != (t not in d): fail("distance %d-%d is %s", s, t, r)
            if r is not None:
                if r[0] != d[t] or len(r[1]) != d[t]: fail("distance %d-%d is %s, expected %d", s, t, r, d[t])
                at = s
                for u, w in r[1]:
                    if A.vertex2qubit(u) != at or A.vertex2qubit(w) not in nb[at]: fail("path from %d to %d is %s", s, t, r[1])
                    at = A.vertex2qubit(w)
                if at != t: fail("path from %d ends in %d", s, at)
    with cut("shortest_path"): p = A.shortest_path(vs[0], vs[-1], vs if spec["use"] else None)
    d = dist(set(vs) if spec["use"] else set(range(n)), vs[0])
    if (p is None) != (vs[-1] not in d): fail("path %s", p)
    if p is not None:
        q = [A.vertex2qubit(v) for v in p]
        if q[0] != vs[0] or q[-1] != vs[-1] or any(b not in nb[a] for a, b in zip(q, q[1:])) or len(set(q)) != len(q) or (spec["use"] and not set(q) <= set(vs)): fail("path from %d to %d is %s", vs[0], vs[-1], q)
    if conn(vs):
        with cut("non_cutting_vertices"): nc = A.non_cutting_vertices([A.qubit2vertex(q) for q in vs])
        want = {A.qubit2vertex(q) for q in vs if conn([x for x in vs if x != q])}
        if set(nc) != want or len(nc) != len(want): fail("non-cutting vertices of %s are %s, expected %s", vs, nc, want)
    # steiner tree
    if conn(range(n)):
        root = vs[0]
        with cut("rec_steiner_tree"): it = list(A.rec_steiner_tree(root, list(vs), list(range(n)), [], True))
        k = it.index(None); down, up = it[:k], it[k + 1:-1]
        if it[-1] is not None or None in up: fail("steiner tree yields %s", it)
        seen = {root}
        for a, b in down:
            if a not in seen or b not in nb[a] or b in seen: fail("steiner tree edge (%s,%s) after %s", a, b, seen)
            seen.add(b)
        if not set(vs) <= seen: fail("steiner tree misses %s", set(vs) - seen)
        if sorted(up) != sorted(down): fail("tree walked with other edges back")
        left = set(down)
        for a, b in up:
            left.remove((a, b))
            if any(x == b for x, _ in left): fail("edge to %s removed before the edges below it", b)
    ar = A.arities()
    if sorted(ar) != sorted((i, len(nb[A.vertex2qubit(v)])) for i, v in enumerate(A.vertices)) or [x[1] for x in ar] != sorted((x[1] for x in ar), reverse=True): fail("arities %s", ar)
    rec.nt(n > 2 and len(E) < n * (n - 1))

def check_named(spec, rec):
    from pyzx.routing import create_architecture
    from pyzx.routing import architecture as ar
    nm = spec["name"]
    with cut("create_architecture"): A = create_architecture(nm, n_qubits=spec["n"]) if nm in ar.dynamic_size_architectures else create_architecture(nm)
    n = A.n_qubits
    if n != SIZES.get(nm, spec["n"]): fail("%s has %d qubits", nm, n)
    E = couplings(A)
    seen = {0}; todo = [0]
    while todo:
        x = todo.pop()
        for a, b in E:
            if a == x and b not in seen: seen.add(b); todo.append(b)
    if len(seen) != n: fail("%s is not connected", nm)
    if sorted(A.qubit_map) != list(range(n)) or sorted(A.reduce_order) != list(range(n)): fail("%s: placement %s, order %s", nm, A.qubit_map, A.reduce_order)
    if nm == "line" and len(E) != 2 * (n - 1): fail("line with %d couplings", len(E) // 2)
    if nm == "circle" and len(E) != (2 * n if n > 2 else 2 * (n - 1)): fail("circle with %d couplings", len(E) // 2)
    if nm == "square":
        k = int(n ** 0.5)
        if len(E) != 4 * k * (k - 1): fail("square with %d couplings", len(E) // 2)
    if nm == "fully_connected" and len(E) != n * (n - 1): fail("complete graph with %d couplings", len(E) // 2)
    if nm in ar.hamiltonian_path_architectures and nm not in ("rigetti_19q_acorn",):
        pass
    rec.nt(n > 2)
SIZES = {"ibm_qx2": 5, "ibm_qx3": 16, "ibm_qx4": 5, "ibm_qx5": 16, "ibm_q20_tokyo": 20, "rigetti_16q_aspen": 16, "rigetti_8q_agave": 8, "recursive_architecture": 9,
         "sycamore_like": 20, "ibmq_poughkeepsie": 20, "ibmq_singapore": 20, "ibmq_boeblingen": 20, "rigetti_19q_acorn": 20, "google_sycamore": 53, "ibm_rochester": 53}
@st.composite
def named_spec(draw):
    nm = draw(st.sampled_from(sorted(SIZES) + ["line", "circle", "square", "fully_connected", "dynamic_density"]))
    return {"name": nm, "n": draw(st.sampled_from([1, 4, 9, 16])) if nm == "square" else draw(st.integers(3 if nm == "circle" else 2, 14))}

SUBS = [
    Sub("steiner", lambda: one(["steiner", "rec"]), check_gauss, 1200),
    Sub("gauss", lambda: one(["gauss"]), check_gauss, 300),
    Sub("steiner_gauss", lambda: one(["old"]), check_old, 600),
    Sub("large", large, check_gauss, 150),
    Sub("large_old", lambda: large(True), check_old, 80),
    Sub("permuted", perm_spec, check_perm, 200),
    Sub("sequential", seq_spec, check_seq, 250),
    Sub("tracker", lambda: st.fixed_dictionaries({"n": st.integers(2, 6), "ops": st.lists(st.tuples(st.sampled_from(["row_add", "col_add", "gate", "name", "pre", "prename"]), st.integers(0, 5), st.integers(0, 5)), max_size=20).map(lambda l: [list(x) for x in l])}), check_tracker, 600),
    Sub("arch", lambda: st.fixed_dictionaries({"a": arch(nmax=9), "sub": st.lists(st.integers(0, 8), min_size=1, max_size=9, unique=True), "use": st.booleans()}), check_arch, 800),
    Sub("named", named_spec, check_named, 120),
]
