"""Architectures: named topologies, placements, and the queries routing relies on."""
import itertools
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, fail, cut, Reject
from .C27 import arch, build_arch, couplings

RULE = ("Every named architecture (dynamic ones with 1-25 qubits and random densities), and random connected coupling graphs of 1-9 qubits with random vertex order, "
        "random placements and both constructors; every query (neighbours, distances in full, upper and recursive form, shortest paths, cut vertices, arities, Steiner trees) "
        "on random subsets of qubits against breadth-first search and definitions. Non-trivial: the coupling graph is not complete and the query is not about a single qubit.")
ASSUMPTIONS = ["Steiner trees are approximations: judged to be trees of couplings within the allowed qubits that reach all terminals, with no more edges than the shortest paths to the terminals together.",
               "Coupling graphs are connected; a subset of qubits may be disconnected, then Steiner trees may be refused."]

# The couplings of the fixed devices: number of qubits; for each qubit its higher-numbered neighbours.
DEVICES = {
    "ibm_qx2": (5, "0 1 2; 1 2; 2 3 4; 3 4"),
    "ibm_qx3": (16, "0 1 5; 1 2 4; 2 3; 3 4; 4 5; 5 6; 6 7 15; 7 8 14; 8 9 13; 9 10; 10 11; 11 12; 12 13; 13 14; 14 15"),
    "ibm_qx4": (5, "0 1 2; 1 2; 2 3 4; 3 4"),
    "ibm_qx5": (16, "0 1 15; 1 2 14; 2 3 13; 3 4 12; 4 5 11; 5 6 10; 6 7 9; 7 8; 8 9; 9 10; 10 11; 11 12; 12 13; 13 14; 14 15"),
    "ibm_q20_tokyo": (20, "0 1 9; 1 2 7 8; 2 3 7 8; 3 4 5 6; 4 5 6; 5 6 14; 6 7 12 13; 7 8 12 13; 8 9 10 11; 9 10 11; 10 11 19; 11 12 17 18; 12 13 17 18; 13 14 15 16; 14 15 16; 15 16; 16 17; 17 18; 18 19"),
    "ibmq_poughkeepsie": (20, "0 1 5; 1 2 7; 2 3; 3 4; 4 5; 5 6 14; 6 7; 7 8; 8 9; 9 10; 10 11 19; 11 12; 12 13; 13 14; 14 15; 15 16; 16 17; 17 18; 18 19"),
    "ibmq_singapore": (20, "0 1; 1 2 11; 2 4; 3 4; 4 5; 5 6 10; 6 7; 7 8; 8 9 18; 9 10 14; 10 11; 11 12; 12 13; 13 14; 14 16; 15 16; 16 17; 17 18; 18 19"),
    "ibmq_boeblingen": (20, "0 1; 1 2 11; 2 4; 3 4; 4 5; 5 6 10; 6 7; 7 8; 8 9 18; 9 10 14; 10 11; 11 12; 12 13; 13 14; 14 16; 15 16; 16 17; 17 18; 18 19"),
    "rigetti_19q_acorn": (20, "0 1 18; 1 2; 2 3 16; 3 4; 4 5 14; 5 6; 6 7 12; 7 9; 8 9; 9 10; 10 11; 11 12; 12 13; 13 14; 14 15; 15 16; 16 17; 17 18; 18 19"),
    "rigetti_16q_aspen": (16, "0 1 7 15; 1 2; 2 3; 3 4; 4 5; 5 6; 6 7; 7 8; 8 9 15; 9 10; 10 11; 11 12; 12 13; 13 14; 14 15"),
    "sycamore_like": (20, "0 2; 1 2; 2 3 6; 3 5; 4 5 14; 5 6 12; 6 7 11; 7 8 10; 8 9; 9 10; 10 11 17; 11 12 18; 12 14 16; 13 14; 14 15; 15 16; 16 18; 17 18; 18 19"),
    "rigetti_8q_agave": (8, "0 1 7; 1 2; 2 3; 3 4; 4 5; 5 6; 6 7"),
    "recursive_architecture": (9, "0 2; 1 2; 2 7; 3 5; 4 5; 5 7; 6 7; 7 8"),
    "ibm_rochester": (53, "0 1 22; 1 2; 2 3; 3 4; 4 5; 5 6; 6 8; 7 8 20; 8 9; 9 10; 10 11; 11 12; 12 13; 13 15; 14 15 44; 15 16; 16 18; 17 18 28; 18 19; 19 20; 20 21; 21 22; 22 23; 23 24; 24 25; 25 26; 26 27; 27 28; 28 29; 29 31; 30 31 42; 31 32; 32 33; 33 34; 34 35; 35 36; 36 38; 37 38; 38 39; 39 41; 40 41 51; 41 42; 42 43; 43 44; 44 45; 45 46; 46 47; 47 48; 48 49; 49 50; 50 51; 51 52"),
    "google_sycamore": (53, "0 1 10; 1 2 4 9; 2 3; 3 4; 4 5 8; 5 7; 6 7 18; 7 8 17; 8 9 16; 9 10 15; 10 11 14; 11 13; 12 13 29; 13 14 28; 14 15 27; 15 16 26; 16 17 25; 17 18 24; 18 19 21; 19 20; 20 21; 21 22 24; 22 23; 23 24; 24 25; 25 26 38; 26 27 37; 27 28 36; 28 29 35; 29 30 34; 30 33; 31 33; 32 33 43; 33 34 38; 34 35 43; 35 36 42; 36 37 41; 37 38 40; 38 39; 39 40 47; 40 41 48; 41 42 46; 42 43 45; 43 44; 44 45; 45 46 50; 46 48 51; 47 48; 48 49; 49 51; 50 51; 51 52"),
}
SIZES = {k: v[0] for k, v in DEVICES.items()}
def couplings(nm):
    r = set()
    for part in DEVICES[nm][1].split(";"):
        a, *bs = map(int, part.split())
        r |= {(a, b) for b in bs}
    return r

def adj(A):
    m = {v: set() for v in A.graph.vertices()}
    for e in A.graph.edges():
        a, b = A.graph.edge_st(e)
        m[a].add(b); m[b].add(a)
    return m

def bfs(nb, start, allowed, step=lambda a, b: True):
    d = {start: 0}; q = [start]
    for x in q:
        for y in nb[x]:
            if y in allowed and y not in d and step(x, y): d[y] = d[x] + 1; q.append(y)
    return d

def connected(nb, vs):
    vs = set(vs)
    return not vs or len(bfs(nb, next(iter(vs)), vs)) == len(vs)

def basics(A, n, simple=True):
    nb = adj(A)
    vs = list(A.vertices)
    if n is not None and (A.n_qubits != n or len(nb) != n): fail("%s has %d qubits, expected %d", A.name, A.n_qubits, n)
    n = A.n_qubits
    if set(vs) != set(nb): fail("vertices are %s", vs)
    if any(v in nb[v] for v in vs): fail("%s couples a qubit with itself", A.name)
    if not connected(nb, vs): fail("%s is not connected", A.name)
    if sorted(A.qubit_map) != sorted(vs): fail("%s: qubit_map %s is not a placement on %s", A.name, A.qubit_map, vs)
    for q in range(n):
        if A.vertex2qubit(A.qubit2vertex(q)) != q: fail("%s: qubit %d is on vertex %s, which holds qubit %s", A.name, q, A.qubit2vertex(q), A.vertex2qubit(A.qubit2vertex(q)))
    if sorted(A.reduce_order) != list(range(n)): fail("%s: reduce order %s", A.name, A.reduce_order)
    rest = set(range(n))
    for q in A.reduce_order:
        rest.discard(q)
        if not connected(nb, [A.qubit2vertex(x) for x in rest]): fail("%s: removing qubits in the order %s disconnects the rest at %d", A.name, A.reduce_order, q)
    return nb

def check_named(spec, rec):
    from pyzx.routing import create_architecture, architectures
    from pyzx.routing.architecture import hamiltonian_path_architectures, dynamic_size_architectures
    nm, n = spec["name"], spec["n"]
    np.random.seed(spec["seed"])
    kw = {}
    if nm in dynamic_size_architectures: kw["n_qubits"] = n
    if nm == "dynamic_density": kw["density_prob"] = spec["density"]
    if nm not in architectures: fail("%s is not listed", nm)
    with cut("create_architecture"): A = create_architecture(nm, **kw)
    nb = basics(A, n if kw else SIZES.get(nm))
    m = sum(len(x) for x in nb.values()) // 2
    want = {"line": n - 1, "circle": n if n > 2 else n - 1, "fully_connected": n * (n - 1) // 2}.get(nm)
    if nm == "square": k = round(n ** .5); want = 2 * k * (k - 1)
    if nm == "dynamic_density": want = max(n - 1, int(spec["density"] * n * (n - 1) / 2))
    if want is not None and m != want: fail("%s on %d qubits has %d couplings, expected %d", nm, n, m, want)
    dmax = {"line": 2, "circle": 2, "square": 4}.get(nm)
    if dmax and max(len(x) for x in nb.values()) > dmax: fail("%s has a qubit with %d neighbours", nm, max(len(x) for x in nb.values()))
    if nm == "square" and n > 1:
        k = round(n ** .5)
        if max(bfs(nb, A.vertices[0], set(nb)).values()) != 2 * (k - 1): fail("opposite corners of the square are at the wrong distance")
    if nm in hamiltonian_path_architectures and not ham(nb): fail("%s is listed as having a Hamiltonian path", nm)
    if nm in DEVICES:
        pos = {v: k for k, v in enumerate(A.vertices)}
        got = {tuple(sorted((pos[a], pos[b]))) for a in nb for b in nb[a]}
        if got != couplings(nm): fail("%s: couplings %s are extra, %s are missing", nm, sorted(got - couplings(nm)), sorted(couplings(nm) - got))
    with cut("create_architecture"):
        if create_architecture(A) is not A: fail("an architecture is not returned as it is")
    rec.nt(A.n_qubits > 3); rec.label(nm)

def check_density(spec, rec):
    """The random architecture around a line: that line, and as many couplings as asked for."""
    from pyzx.routing.architecture import create_dynamic_density_hamiltonian_architecture
    n, p = spec["n"], spec["density"]
    np.random.seed(spec["seed"])
    with cut("create_dynamic_density_hamiltonian_architecture"): A = create_dynamic_density_hamiltonian_architecture(n, p)
    nb = basics(A, n)
    m = sum(len(x) for x in nb.values()) // 2; want = max(n - 1, int(p * n * (n - 1) / 2))
    if m != want: fail("%d couplings instead of %d", m, want)
    vs = list(A.vertices)
    if any(b not in nb[a] for a, b in zip(vs, vs[1:])): fail("the line is not part of the architecture")
    rec.nt(n > 3 and m > n - 1)

def ham(nb):
    n = len(nb)
    best = [200000]
    def go(v, seen):
        if len(seen) == n: return True
        best[0] -= 1
        if best[0] < 0: return True   # undecided: not judged
        for w in sorted(nb[v] - seen, key=lambda x: len(nb[x] - seen)):
            if go(w, seen | {w}): return True
        return False
    return any(go(v, frozenset([v])) for v in sorted(nb, key=lambda v: len(nb[v])))

def place(spec):
    """The architecture of the spec, possibly with a placement of its own."""
    kw = {}
    if spec["place"]: kw["qubit_map"] = list(spec["place"])
    return build_arch(spec["a"], **kw)

def path_ok(nb, p, a, b, allowed):
    return p[0] == a and p[-1] == b and len(set(p)) == len(p) and set(p) <= set(allowed) and all(y in nb[x] for x, y in zip(p, p[1:]))

def check_queries(spec, rec):
    A = place(spec); n = spec["a"]["n"]
    if spec["place"]:
        nb = adj(A)
        if list(A.qubit_map) != list(spec["place"]): fail("the given placement was not used")
        for q in range(n):
            if A.vertex2qubit(A.qubit2vertex(q)) != q: fail("qubit %d is not where it was placed", q)
    else: nb = basics(A, n)
    Q = {v: q for q, v in enumerate(A.qubit_map)}
    sub = sorted({i % n for i in spec["sub"]}) or [0]
    vsub = [A.qubit2vertex(q) for q in sub]
    with cut("neighbours"):
        for q in range(n):
            if A.get_neighboring_qubits(q) != {Q[w] for w in nb[A.qubit2vertex(q)]}: fail("neighbours of qubit %d are %s", q, A.get_neighboring_qubits(q))
        for v in nb:
            if A.get_neighboring_vertices(v) != nb[v]: fail("neighbours of vertex %d are %s", v, A.get_neighboring_vertices(v))
        ar = A.arities()
    if sorted(i for i, _ in ar) != list(range(n)) or any(len(nb[A.vertices[i]]) != k for i, k in ar) or [k for _, k in ar] != sorted((k for _, k in ar), reverse=True): fail("arities() gives %s", ar)
    order = [A.vertices.index(v) for v in vsub]
    with cut("non_cutting_vertices"): nc = A.non_cutting_vertices(list(order))
    ncomp = comps(nb, vsub)
    want = [i for i in order if comps(nb, [v for v in vsub if v != A.vertices[i]]) <= ncomp]
    if sorted(nc) != sorted(want): fail("non-cutting vertices of %s are %s, expected %s", order, nc, want)
    rec_q = [q for q in sub if q in {i % n for i in spec["rec"]}]; rec_v = {A.qubit2vertex(q) for q in rec_q}
    with cut("floyd_warshall"):
        up = A.floyd_warshall(list(vsub), upper=True)
        dn = A.floyd_warshall(list(vsub), upper=False, rec_vertices=list(rec_v))
    down = lambda a, b: Q[a] > Q[b] or (a in rec_v and b in rec_v)
    for D, step, what in ((up, lambda a, b: True, "undirected"), (dn, down, "downward")):
        for a in vsub:
            d = bfs(nb, a, set(vsub), step)
            for b in vsub:
                if (b in d) != ((a, b) in D): fail("%s: a path from %d to %d is %sreported", what, a, b, "" if (a, b) in D else "not ")
                if b not in d: continue
                k, p = D[(a, b)]
                if k != d[b]: fail("%s distance of %d and %d is %s, expected %d", what, a, b, k, d[b])
                pts = [a] + [y for _, y in p]
                if len(p) != k or (p and (p[0][0] != a or any(x[1] != y[0] for x, y in zip(p, p[1:])))) or not path_ok(nb, pts, a, b, vsub) or not all(step(x, y) for x, y in p):
                    fail("%s path from %d to %d is %s", what, a, b, p)
    use = None if spec["all"] else list(sub)
    allowed = list(nb) if use is None else vsub
    with cut("shortest_path"):
        for a, b in itertools.product(sub, sub):
            p = A.shortest_path(a, b, use)
            va, vb = A.qubit2vertex(a), A.qubit2vertex(b)
            d = bfs(nb, va, set(allowed))
            if (p is None) != (vb not in d): fail("shortest_path(%d, %d, %s) is %s", a, b, use, p)
            if p is None: continue
            if not path_ok(nb, p, va, vb, allowed): fail("shortest_path(%d, %d, %s) is %s, not a path", a, b, use, p)
            if len(p) - 1 != d[vb]: fail("shortest_path(%d, %d, %s) has length %d, the distance is %d", a, b, use, len(p) - 1, d[vb])
    rec.nt(len(sub) > 1 and any(len(x) < n - 1 for x in nb.values())); rec.label("placed" if spec["place"] else "default")

def comps(nb, vs):
    vs, k = set(vs), 0
    while vs: vs -= set(bfs(nb, next(iter(vs)), vs)); k += 1
    return k

def check_tree(spec, rec):
    A = place(spec); n = spec["a"]["n"]; nb = adj(A); Q = {v: q for q, v in enumerate(A.qubit_map)}
    root = spec["root"] % n; upper = spec["upper"]; kind = spec["kind"]
    terms = sorted({i % n for i in spec["sub"]})
    if kind == "steiner":
        terms = [t for t in terms if (t >= root if upper else t <= root)]
        allowed = set(range(root, n)) if upper else set(range(root + 1))
        recq = []
    else:
        allowed = {i % n for i in spec["use"]} | {root} | set(terms)
        recq = [q for q in allowed if q in {i % n for i in spec["rec"]}]
    if spec["shuffle"]: terms = terms[::-1]
    V = A.qubit2vertex
    step = lambda a, b: upper or Q[a] > Q[b] or (Q[a] in recq and Q[b] in recq)
    d = bfs(nb, V(root), {V(q) for q in allowed}, step)
    reach = all(V(t) in d for t in terms)
    try:
        if kind == "steiner": it = A.steiner_tree(root, list(terms), upper)
        else: it = A.rec_steiner_tree(root, list(terms), sorted(allowed), list(recq), upper)
        out = []
        for x in it:
            out.append(x)
            if len(out) > 400: fail("the Steiner tree does not end")
    except ValueError:
        if reach: fail("Steiner tree of %s from %d refused although all terminals can be reached", terms, root)
        rec.label("refused"); return
    if not reach: fail("Steiner tree from %d to %s although not all terminals can be reached", root, terms)
    if out.count(None) != 2 or out[-1] is not None: fail("Steiner tree walk is %s", out)
    k = out.index(None); down, up = out[:k], out[k + 1:-1]
    seen = {root}
    for a, b in down:
        if a not in seen: fail("edge %s comes before its parent in %s", (a, b), down)
        if b in seen: fail("qubit %d is reached twice in %s", b, down)
        if b not in allowed or V(b) not in nb[V(a)] or not step(V(a), V(b)): fail("edge %s is not allowed", (a, b))
        seen.add(b)
    if not set(terms) <= seen: fail("terminals %s are not in the tree %s", terms, down)
    if len(down) > sum(d[V(t)] for t in terms): fail("the tree %s is larger than the shortest paths to %s together", down, terms)
    if sorted(up) != sorted(down): fail("the way up %s does not have the edges of the way down %s", up, down)
    done = set()
    for a, b in up:
        if a in done: fail("edge %s comes after the edge into %d on the way up %s", (a, b), a, up)
        done.add(b)
    rec.nt(len(down) > 1 and len(down) > len(set(terms) - {root})); rec.label(kind)

ints = lambda m: st.lists(st.integers(0, 11), max_size=m)
@st.composite
def one(draw, **kw):
    a = draw(arch(nmin=draw(st.sampled_from([1, 4, 4])), nmax=9))
    pl = list(draw(st.permutations(range(a["n"])))) if draw(st.integers(0, 3)) == 0 else None
    return {"a": a, "place": pl, **{k: draw(v) for k, v in kw.items()}}

def named_specs():
    r = [{"name": nm, "n": 0, "seed": 0, "density": 0.0} for nm in list(SIZES)]
    for nm in ("line", "circle", "fully_connected", "dynamic_density"):
        r += [{"name": nm, "n": n, "seed": n, "density": 0.3} for n in range(3 if nm == "circle" else 1, 13)]
    return r + [{"name": "square", "n": k * k, "seed": 0, "density": 0.0} for k in (1, 2, 3, 4, 5)]

SUBS = [
    Sub("named", lambda: st.fixed_dictionaries({"name": st.sampled_from(["line", "circle", "fully_connected", "dynamic_density", "dynamic_density"]), "n": st.integers(3, 25),
                                                "seed": st.integers(0, 10 ** 6), "density": st.sampled_from([0.0, 0.1, 0.3, 0.5, 0.8, 1.0])}), check_named, 300, fixed=named_specs()),
    Sub("density", lambda: st.fixed_dictionaries({"n": st.integers(1, 20), "seed": st.integers(0, 10 ** 6), "density": st.floats(0, 1)}), check_density, 200),
    Sub("queries", lambda: one(sub=ints(9), rec=ints(5), all=st.booleans()), check_queries, 1500),
    Sub("trees", lambda: one(sub=ints(6), use=ints(11), rec=ints(6), root=st.integers(0, 8), upper=st.booleans(), kind=st.sampled_from(["steiner", "rec"]), shuffle=st.booleans()), check_tree, 2500),
]
