"""Stabilizer decompositions, post-selection, path sums, sampling."""
import itertools, random
from fractions import Fraction
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, fail, cut, Reject
from .. import gens, oracle, graphs

RULE = ("Graph-like Clifford+T diagrams (core, gadgets, twins, leaves; 0-10 T spiders, up to 2+2 open wires) and scalar diagrams made of Clifford+T circuits with states and effects plugged in; "
        "every number of T spiders and random choices of spiders; post-selections of any outputs with any effects. "
        "Oracle: independent contraction of every term, summed. Non-trivial: at least two terms or one post-selected wire.")
ASSUMPTIONS = ["Decompositions are judged on diagrams with Z spiders and Hadamard edges between them only (spiders fused), phases multiples of pi/4, as documented.",
               "The number of terms of find_stabilizer_decomp is judged for closed diagrams; open ones for the sum only.",
               "Sampling is judged for format and for outcomes of probability zero; estimates only through single random effects, which must be equatorial."]

phase_T = st.sampled_from(["0", "1/2", "1", "3/2", "1/4", "3/4", "5/4", "7/4", "1/4", "7/4"])

def tc(g): return oracle.nonclifford_count(g)

@st.composite
def tspec(draw, open_=True, bmax=6, gmax=2, many=None):
    d = draw(gens.gl_diagram(bmax=bmax, gmax=gmax, phases=phase_T, recolour=False, imax=2 if open_ else 0, omax=2 if open_ else 0))
    # graph-like: simple edges only at boundaries
    n = len(d["verts"])
    for e in d["edges"]:
        if e[0] < n and e[1] < n: e[2] = "h"
    for v in d["verts"]:
        if Fraction(v[1]).denominator not in (1, 2, 4): v[1] = "1/4"
    k = draw(st.integers(0, 10)) if many is None else draw(st.integers(*many))
    # choose which spiders are T spiders: k of them if there are that many
    n0 = list(draw(st.permutations(range(n))))
    if many is not None or draw(st.booleans()):
        while len(n0) < (many[0] if many else 0): n0.append(len(n0)); d["verts"].append(["Z", "0"])
        new = len(n0) - n
        if new: d["edges"] = [[a if a < n else a + new, b if b < n else b + new, t] for a, b, t in d["edges"]]; d["in"] = [x + new for x in d["in"]]; d["out"] = [x + new for x in d["out"]]
        for i in range(n, len(n0)): d["edges"].append([draw(st.integers(0, n - 1)), i, "h"])
        for i, v in enumerate(n0):
            den = Fraction(d["verts"][v][1]).denominator
            if i < k and den != 4: d["verts"][v][1] = draw(st.sampled_from(["1/4", "7/4", "3/4", "5/4"]))
            elif i >= k and den == 4: d["verts"][v][1] = draw(st.sampled_from(["0", "1", "1/2", "3/2"]))
    return {"d": d, "seed": draw(st.integers(0, 999)), "pick": draw(st.booleans())}

def total(graphs_, shape):
    t = np.zeros(shape, dtype=complex)
    for h in graphs_: t = t + oracle.graph_tensor(h)
    return t

def check_replace(spec, rec):
    from pyzx import simulate
    g = gens.build_diagram(spec["d"]); before = graphs.snapshot(g)
    T = oracle.graph_tensor(g); k = tc(g)
    random.seed(spec["seed"])
    if k == 0:
        try: simulate.replace_magic_states(g)
        except Exception: return
        fail("a diagram without T spiders was decomposed")
    with cut("replace_magic_states"): s = simulate.replace_magic_states(g, spec["pick"])
    df = graphs.diff(before, graphs.snapshot(g))
    if df: fail("the diagram was changed: %s", df)
    want = 7 if k >= 6 else 2
    if len(s.graphs) != want: fail("%d terms for %d T spiders, expected %d", len(s.graphs), k, want)
    less = 6 if k >= 6 else 2 if k > 1 else 1
    for h in s.graphs:
        if tc(h) != k - less: fail("a term has %d T spiders, expected %d", tc(h), k - less)
        if h.num_inputs() != g.num_inputs() or h.num_outputs() != g.num_outputs(): fail("a term has other open wires")
    if not oracle.close(total(s.graphs, T.shape), T): fail("%d T spiders: the terms do not add up to the diagram", k)
    with cut("to_tensor"): t = s.to_tensor()
    if not oracle.close(t, T): fail("SumGraph.to_tensor is not the sum")
    if spec["seed"] % 3 == 0:
        with cut("to_matrix"): m = s.to_matrix()
        a = T.reshape(2 ** g.num_outputs(), 2 ** g.num_inputs())
        if not oracle.close(m, a): fail("SumGraph.to_matrix is not the matrix of the sum")
    rec.label("T%d" % min(k, 9))
    # simplify the terms
    with cut("reduce"):
        if spec["seed"] % 2 or g.num_inputs() + g.num_outputs(): s.full_reduce()
        else: s.reduce_scalar()
    if not oracle.close(total(s.graphs, T.shape), T): fail("%d T spiders: the simplified terms do not add up to the diagram", k)
    for h in s.graphs:
        if tc(h) > k - less: fail("simplifying a term added T spiders")
    rec.nt()

# each replacement function is one identity on its own vertices, in any order
def check_six(spec, rec):
    from pyzx import simulate
    g = gens.build_diagram(spec["d"])
    ts = [v for v in g.vertices() if not oracle.phase_is_clifford(g.phase(v))]
    random.seed(spec["seed"]); random.shuffle(ts)
    if len(ts) < 6: raise Reject()
    T = oracle.graph_tensor(g)
    fs = ["B60", "B66", "E6", "O6", "K6", "phi1", "phi2"]
    out = []
    for f in fs:
        h = g.copy()
        m = dict(zip(sorted(g.vertices()), sorted(h.vertices())))
        with cut("replace_" + f): h2 = getattr(simulate, "replace_" + f)(h, [m[v] for v in ts[:6]])
        if h2 is not h: fail("replace_%s returns another graph", f)
        h.scalar.add_float(simulate.MAGIC_GLOBAL)
        out.append(h)
    if not oracle.close(total(out, T.shape), T): fail("the seven replacements do not add up")
    rec.nt()

def bound(k):
    return 7 ** (k // 6) * [1, 2, 2, 4, 4, 8][k % 6]

@st.composite
def dec_spec(draw):
    if draw(st.booleans()):
        s = draw(tspec(open_=draw(st.integers(0, 3)) == 0, bmax=7)); s["src"] = "diagram"
        return s
    n = draw(st.integers(1, 4))
    c = draw(gens.circuit(n, n, 2, 26, names=("T", "T", "T*", "HAD", "HAD", "CNOT", "CZ", "S", "T"), phases=phase_T))
    return {"src": "circuit", "c": c, "st": draw(st.lists(st.sampled_from("01+-"), min_size=n, max_size=n)), "ef": draw(st.lists(st.sampled_from("01+-"), min_size=n, max_size=n)), "seed": draw(st.integers(0, 999))}

def closed(spec):
    import pyzx as zx
    if spec["src"] == "diagram": return gens.build_diagram(spec["d"])
    g = gens.build_circuit(spec["c"]).to_graph()
    g.apply_state("".join(spec["st"])); g.apply_effect("".join(spec["ef"]))
    return g

def check_decomp(spec, rec):
    import pyzx as zx
    from pyzx import simulate
    g = closed(spec); T = oracle.graph_tensor(g)
    random.seed(spec["seed"])
    isopen = g.num_inputs() + g.num_outputs() > 0
    if spec["src"] == "circuit":
        with cut("full_reduce"): zx.full_reduce(g) if spec["seed"] % 2 else zx.simplify.to_gh(g) or zx.simplify.spider_simp(g, quiet=True)
        if not oracle.close(oracle.graph_tensor(g), T): raise Reject()       # judged elsewhere
        if any(k[0] not in 'ZB' for k in oracle.read_graph(g)[0].values()): raise Reject()
    k = tc(g)
    if k > 12: raise Reject()
    unit = [1.0, 1.0, 1e-6, 1e5][spec["seed"] % 4]       # the whole diagram in other units
    g.scalar.add_float(unit)
    with cut("max_terms_needed"): mx = simulate.max_terms_needed(g)
    with cut("find_stabilizer_decomp"): terms = simulate.find_stabilizer_decomp(g)
    for h in terms:
        if tc(h): fail("a term still has %d non-Clifford phases", tc(h))
    if not oracle.close(total(terms, T.shape) / unit, T): fail("%d terms do not add up to the diagram with %d T spiders", len(terms), k)
    if not isopen and len(terms) > mx: fail("%d terms for %d T spiders, announced %d", len(terms), k, mx)
    if mx < bound(k): rec.label("fewer announced")
    rec.nt(len(terms) > 1); rec.label("T%d" % k)

# ------------------------------------------------------------------ post-selection
@st.composite
def post_spec(draw):
    if draw(st.booleans()):
        d = {"src": "diagram", "d": draw(gens.diagram(vmax=5, imax=1, omax=4, iomin=0))}
    else:
        d = {"src": "circuit", "c": draw(gens.circuit(1, 4, 0, 12))}
    return {"g": d, "sel": draw(st.lists(st.sampled_from(["", "0", "1", "+", "-"]), min_size=4, max_size=4)), "n": draw(st.integers(1, 3))}

EFF = {"0": np.array([1, 0]), "1": np.array([0, 1]), "+": np.array([1, 1]) / 2 ** .5, "-": np.array([1, -1]) / 2 ** .5}
def check_post(spec, rec):
    from pyzx import simulate
    gs = [gens.build_source(spec["g"]) for _ in range(spec["n"])]
    for i, g in enumerate(gs): g.scalar.add_phase(Fraction(i, 3))
    s = simulate.SumGraph(gs)
    before = [graphs.snapshot(g) for g in gs]
    no = gs[0].num_outputs()
    sel = {i: e for i, e in enumerate(spec["sel"][:no]) if e}
    T = sum(oracle.graph_tensor(g) for g in gs)
    want = T
    for i in sorted(sel, reverse=True): want = np.tensordot(want, EFF[sel[i]], axes=([i], [0]))
    with cut("post_select"): r = s.post_select(sel)
    for b, g in zip(before, gs):
        df = graphs.diff(b, graphs.snapshot(g))
        if df: fail("post-selection changed the original: %s", df)
    if s.graphs != gs: fail("post-selection replaced the terms")
    if any(h.num_outputs() != no - len(sel) or h.num_inputs() != gs[0].num_inputs() for h in r.graphs): fail("open wires after post-selection")
    got = total(r.graphs, want.shape)
    if not oracle.close(got, want): fail("post-selection %s gives another map", sel)
    rec.nt(len(sel) > 0)

# ------------------------------------------------------------------ path sums
@st.composite
def path_spec(draw):
    if draw(st.booleans()):
        s = draw(tspec(open_=False, bmax=6)); s["src"] = "diagram"; return s
    n = draw(st.integers(2, 5))
    c = draw(gens.circuit(n, n, 4, 30, names=("T", "T", "T*", "HAD", "HAD", "CNOT", "CZ", "S", "T", "CCZ") if n > 2 else ("T", "HAD", "CNOT", "CZ", "T"), phases=phase_T))
    return {"src": "circuit", "c": c, "st": draw(st.lists(st.sampled_from("01++"), min_size=n, max_size=n)), "ef": draw(st.lists(st.sampled_from("01++"), min_size=n, max_size=n)), "seed": draw(st.integers(0, 99))}

@st.composite
def gadget_spec(draw):
    """A reduced scalar diagram: phased spiders, phase gadgets on different subsets of them, Hadamard edges; in any vertex order."""
    n = draw(st.integers(1, 7))
    nz = st.sampled_from(["1/4", "1/2", "3/4", "1", "5/4", "3/2", "7/4"])
    sets = draw(st.lists(st.lists(st.integers(0, n - 1), min_size=2, max_size=n, unique=True).map(sorted), max_size=5, unique_by=tuple)) if n > 1 else []
    return {"n": n, "ph": draw(st.lists(nz, min_size=n, max_size=n)), "gad": [[s, draw(nz)] for s in sets],
            "cz": draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)), max_size=8)), "order": draw(st.integers(0, 10 ** 6))}

def check_gadgets(spec, rec):
    import pyzx as zx
    from pyzx import simulate
    n = spec["n"]; items = [("v", i) for i in range(n)] + [(k, j) for j in range(len(spec["gad"])) for k in "al"]
    random.Random(spec["order"]).shuffle(items)
    g = zx.Graph(); num = {x: g.add_vertex(1) for x in items}
    for i in range(n): g.set_phase(num["v", i], Fraction(spec["ph"][i]))
    cz = {(min(a, b), max(a, b)) for a, b in map(tuple, spec["cz"]) if a != b}
    for a, b in cz: g.add_edge((num["v", a], num["v", b]), graphs.et("h"))
    for j, (s, p) in enumerate(spec["gad"]):
        g.set_phase(num["l", j], Fraction(p)); g.add_edge((num["a", j], num["l", j]), graphs.et("h"))
        for i in s: g.add_edge((num["a", j], num["v", i]), graphs.et("h"))
    # a phased spider whose only neighbour is phaseless reads as a gadget: outside this generator
    for i in range(n):
        if g.vertex_degree(num["v", i]) == 1 and not g.phase(list(g.neighbors(num["v", i]))[0]): raise Reject()
    want = 0
    for x in range(2 ** n):
        b = [x >> i & 1 for i in range(n)]
        a = sum(Fraction(p) * y for p, y in zip(spec["ph"], b)) + sum(b[i] & b[j] for i, j in cz) + sum(Fraction(p) * (sum(b[i] for i in s) % 2) for s, p in spec["gad"])
        want += np.exp(1j * np.pi * float(a % 2))
    want *= 2 ** (-.5 * len(cz)) * np.prod([2 ** (-.5 * (len(s) - 1)) for s, _ in spec["gad"]])
    with cut("calculate_path_sum"): x = simulate.calculate_path_sum(g)
    if not oracle.close(np.array([x]), np.array([want])): fail("path sum %s, the diagram is %s", x, want)
    rec.nt(bool(spec["gad"]) and n > 2)

def check_path(spec, rec):
    import pyzx as zx
    from pyzx import simulate
    g = closed(spec); T = oracle.graph_tensor(g)
    with cut("simplify"):
        if spec["seed"] % 2 or spec["src"] == "circuit": zx.full_reduce(g)
        if spec["seed"] % 2 == 0: zx.simplify.reduce_scalar(g)
        g.remove_isolated_vertices()
    T2 = oracle.graph_tensor(g)
    if not oracle.close(T2, T): raise Reject()                  # judged elsewhere
    nv = g.num_vertices()
    before = graphs.snapshot(g)
    with cut("calculate_path_sum"): x = simulate.calculate_path_sum(g)
    if not oracle.close(np.array([x]), T.reshape(1)): fail("path sum of %d vertices is %s, the diagram is %s", nv, x, T.reshape(1)[0])
    df = graphs.diff(before, graphs.snapshot(g))
    if df: fail("the path sum changed the diagram: %s", df)
    rec.nt(nv > 1)

# ------------------------------------------------------------------ random effects and sampling
@st.composite
def rand_spec(draw):
    n = draw(st.integers(1, 3))
    return {"terms": [draw(gens.circuit(n, n, 0, 12, names=gens.CLIFFORD[:6])) for _ in range(draw(st.integers(1, 2)))], "seed": draw(st.integers(0, 10 ** 6)), "red": draw(st.booleans())}

def states(spec):
    import pyzx as zx
    out = []
    for c in spec["terms"]:
        g = gens.build_circuit(c).to_graph(); g.apply_state("0" * c["n"]); out.append(g)
    return out

def check_random(spec, rec):
    from pyzx import simulate
    n = spec["terms"][0]["n"]
    s = simulate.SumGraph(states(spec))
    psi = sum(oracle.graph_tensor(g) for g in s.graphs).reshape(-1)
    if spec["red"]:
        with cut("full_reduce"): s.full_reduce()
    before = [graphs.snapshot(g) for g in s.graphs]
    pairs = list(itertools.combinations(range(n), 2))
    vals = []
    for ph in itertools.product(range(4), repeat=n):
        for cz in itertools.product((0, 1), repeat=len(pairs)):
            z = 0
            for x in range(2 ** n):
                b = [(x >> (n - 1 - i)) & 1 for i in range(n)]
                z += psi[x] * 1j ** sum(p * y for p, y in zip(ph, b)) * (-1) ** sum(c for c, (i, j) in zip(cz, pairs) if b[i] and b[j])
            vals.append(z)
    vals = np.array(vals)
    if not np.isclose(np.mean(abs(vals) ** 2), np.sum(abs(psi) ** 2)): raise AssertionError("harness")
    random.seed(spec["seed"])
    for _ in range(6):
        with cut("inner_product_with_random_state"): v = s.inner_product_with_random_state()
        if np.min(abs(vals - v)) > 1e-6: fail("inner product %s with no equatorial effect", v)
    for b, g in zip(before, s.graphs):
        df = graphs.diff(b, graphs.snapshot(g))
        if df: fail("the states were changed: %s", df)
    if spec["seed"] % 4 == 0:
        # 400 samples: the mean of the squared inner products is the norm squared (10 standard deviations)
        with cut("estimate_norm"): e = s.estimate_norm(0.1)
        mu, sd = np.mean(abs(vals) ** 2), np.std(abs(vals) ** 2) / 20
        if abs(e - mu) > 10 * sd + 1e-6: fail("norm estimate %s from 400 samples, the norm is %s with standard deviation %s", e, mu, sd)
    with cut("estimate_norm"): e = s.estimate_norm(0.4)
    if not np.isfinite(e) or e < -1e-9 or e > np.max(abs(vals)) ** 2 + 1e-6: fail("norm estimate %s", e)
    if np.sum(abs(psi) ** 2) < 1e-9 and e > 1e-9: fail("norm estimate %s of the zero state", e)
    rec.nt(n > 1)

@st.composite
def samp_spec(draw):
    n = draw(st.integers(1, 5))
    c = draw(gens.circuit(n, n, 0, 10, names=("HAD", "CNOT", "CZ", "NOT", "S", "CNOT")))
    q = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True))
    rest = [i for i in range(n) if i not in q]
    return {"terms": [c], "q": sorted(q) if draw(st.booleans()) else q, "ps": {str(i): draw(st.sampled_from("01+-")) for i in rest if draw(st.booleans())}, "seed": draw(st.integers(0, 10 ** 6)), "amount": draw(st.integers(1, 3))}

def check_sample(spec, rec):
    from pyzx import simulate
    s = simulate.SumGraph(states(spec)); n = spec["terms"][0]["n"]
    psi = oracle.graph_tensor(s.graphs[0])
    ps = {int(k): v for k, v in spec["ps"].items()}
    proj = psi
    for i in sorted(ps, reverse=True): proj = np.tensordot(proj, EFF[ps[i]], axes=([i], [0]))
    if np.sum(abs(proj) ** 2) < 1e-9: raise Reject()            # conditioned on an impossible event
    left = [i for i in range(n) if i not in ps]
    random.seed(spec["seed"])
    with cut("sample"): out = s.sample(list(spec["q"]), ps or None, amount=spec["amount"], epsilon=0.5)
    if len(out) != spec["amount"]: fail("%d samples of %d", len(out), spec["amount"])
    for o in out:
        if [q for q, _ in o] != list(spec["q"]): fail("sampled qubits %s, asked for %s", o, spec["q"])
        if any(b not in (0, 1) for _, b in o): fail("outcomes %s", o)
        # a definite outcome 1 has no chance of being sampled as 0 (the converse is only estimated)
        ix = [slice(None)] * len(left)
        for q, b in o:
            a = left.index(q)
            ix0 = list(ix); ix0[a] = 0
            if np.sum(abs(proj[tuple(ix0)]) ** 2) < 1e-12 and b == 0: fail("qubit %d was sampled as 0 after %s, which is impossible", q, o)
            if np.sum(abs(proj[tuple(ix[:a] + [b] + ix[a + 1:])]) ** 2) < 1e-12: break   # an estimate went astray
            ix[a] = b
    rec.nt(len(spec["q"]) > 1)

SUBS = [
    Sub("replace", tspec, check_replace, 400),
    Sub("six", lambda: tspec(bmax=5, gmax=1, many=(6, 8)), check_six, 200),
    Sub("decomp", dec_spec, check_decomp, 250),
    Sub("post", post_spec, check_post, 800),
    Sub("path", path_spec, check_path, 500),
    Sub("gadgets", gadget_spec, check_gadgets, 500),
    Sub("random", rand_spec, check_random, 200),
    Sub("sample", samp_spec, check_sample, 100),
]
