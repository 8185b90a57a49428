"""Phase polynomials: routing, synthesis, parity networks."""
import json
from fractions import Fraction
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, fail, cut, Reject
from .C27 import arch, build_arch, couplings, invertible

RULE = ("Phase polynomials of 1-7 qubits with 0-10 distinct non-empty parities, arbitrary rational phases and an arbitrary invertible output map, on named and random connected coupling graphs, "
        "with every routing method, elimination mode and heuristic; CNOT+Z-phase circuits for the conversion. Oracle: the circuit is executed on parities (numpy over GF(2)), collecting the phase of every parity. "
        "Non-trivial: at least two parities of weight over one.")
ASSUMPTIONS = ["Non-zero phases only and at least one qubit; a polynomial without phases is included.",
               "The permuting modes of the matroid method report placements: the circuit read from input wires permuted by the first and output wires by the second is the polynomial."]

PH = ["1/4", "-1/4", "1/2", "1", "3/4", "1/3", "-2/5", "7/8"]

@st.composite
def poly(draw, n, maxp=10):
    ps = draw(st.lists(st.integers(1, 2 ** n - 1), max_size=maxp, unique=True))
    return [[[(p >> i) & 1 for i in range(n)], draw(st.sampled_from(PH))] for p in ps]

def build_poly(spec):
    from pyzx.routing.phase_poly import PhasePoly, Parity
    d = {Parity(p): Fraction(x) for p, x in spec["poly"]}
    return PhasePoly(d, [Parity(r) for r in spec["out"]])

def execute(gates, n, start=None):
    """(phases by parity, output parities) of CNOT / ZPhase gates, by definition."""
    cur = [list(r) for r in (start if start is not None else np.eye(n, dtype=int).tolist())]
    ph = {}
    for g in gates:
        if g.name == "CNOT":
            c, t = int(g.control), int(g.target)
            if c == t: fail("CNOT on one qubit")
            cur[t] = [a ^ b for a, b in zip(cur[t], cur[c])]
        elif g.name == "ZPhase":
            k = tuple(cur[int(g.target)]); ph[k] = (ph.get(k, 0) + Fraction(g.phase)) % 2
        else: fail("gate %s in the routed circuit", g.name)
    return {k: v for k, v in ph.items() if v}, cur

def compare(circ, spec, n, what, start=None, out=None):
    ph, cur = execute(circ.gates, n, start)
    want = {}
    for p, x in spec["poly"]: want[tuple(p)] = Fraction(x) % 2
    want = {k: v for k, v in want.items() if v}
    if ph != want:
        k = next(k for k in list(want) + list(ph) if ph.get(k) != want.get(k))
        fail("%s: parity %s gets phase %s, expected %s", what, k, ph.get(k, 0), want.get(k, 0))
    if cur != (out if out is not None else spec["out"]): fail("%s: output parities %s, expected %s", what, cur, spec["out"])

def conn(A, circ, what):
    E = couplings(A)
    for g in circ.gates:
        if g.name == "CNOT" and (int(g.control), int(g.target)) not in E: fail("%s: CNOT(%s,%s) between qubits that are not connected", what, g.control, g.target)

@st.composite
def route_spec(draw):
    a = draw(arch(nmin=2, nmax=6)); n = a["n"]
    m = draw(st.sampled_from(["MATROID", "GRAY", "MEIJER", "GRAY_MEIJER"]))
    if m == "MATROID" and n > 5: a = {"name": "line", "n": 4}; n = 4
    kw = {}
    if m == "MEIJER": kw = {k: draw(st.booleans()) for k in ("zeroes_rec", "neighbour_path", "tie_break")}
    if m == "MATROID": kw = {k: draw(st.booleans()) for k in ("optimize_parity_order", "optimize_partition_order")}
    return {"a": a, "poly": draw(poly(n)), "out": draw(invertible(n)), "method": m, "mode": draw(st.sampled_from(["gauss", "steiner", "steiner"])),
            "root": draw(st.sampled_from(["RANDOM", "EXHAUSTIVE", "ARITY", "RECURSIVE"])), "split": draw(st.sampled_from(["RANDOM", "ARITY", "COUNT"])),
            "kw": kw, "seed": draw(st.integers(0, 99)), "circ": draw(st.booleans())}

def check_route(spec, rec):
    from pyzx.routing import ElimMode, route_phase_poly, RoutingMethod, RootHeuristic, SplitHeuristic
    from pyzx import Circuit
    A = build_arch(spec["a"]); n = spec["a"]["n"]
    P = build_poly(spec)
    before = (dict(P.zphases), list(P.out_par))
    np.random.seed(spec["seed"])
    what = "%s/%s" % (spec["method"], spec["mode"])
    with cut(what):
        c = route_phase_poly(P, A, RoutingMethod[spec["method"]], ElimMode(spec["mode"]), RootHeuristic[spec["root"]], SplitHeuristic[spec["split"]], **spec["kw"])
    if not isinstance(c, Circuit) or c.qubits != n: fail("%s: result %s", what, c)
    compare(c, spec, n, what)
    if spec["mode"] == "steiner": conn(A, c, what)
    if (P.zphases, P.out_par) != before: fail("%s changed the polynomial", what)
    if spec["circ"]:
        # routing the routed circuit again: same polynomial
        with cut(what + " of a circuit"): d = route_phase_poly(c, A, RoutingMethod[spec["method"]], ElimMode(spec["mode"]), RootHeuristic[spec["root"]], SplitHeuristic[spec["split"]], **spec["kw"])
        compare(d, spec, n, what + " of a circuit")
        if spec["mode"] == "steiner": conn(A, d, what)
    rec.nt(sum(sum(p) > 1 for p, _ in spec["poly"]) >= 2); rec.label(what)

@st.composite
def synth_spec(draw):
    a = draw(arch(nmin=2, nmax=5)); n = a["n"]
    fn = draw(st.sampled_from(["gray", "gray_none", "rec_none", "ariannes_none", "matroid"]))
    if n > 5: a = {"name": "circle", "n": 4}; n = 4
    return {"a": a, "poly": draw(poly(n, 8)), "out": draw(invertible(n)), "fn": fn, "mode": draw(st.sampled_from(["gauss", "steiner"] + (["genetic_gauss", "genetic_steiner"] if fn == "matroid" else []))),
            "ip": draw(st.booleans()), "op": draw(st.booleans()), "seed": draw(st.integers(0, 99))}

def check_synth(spec, rec):
    from pyzx.routing import ElimMode
    A = build_arch(spec["a"]); n = spec["a"]["n"]; fn, mode = spec["fn"], spec["mode"]
    P = build_poly(spec)
    if fn.endswith("none"): mode = "gauss"
    what = "%s/%s" % (fn, mode); M = ElimMode(mode)
    np.random.seed(spec["seed"])
    with cut(what):
        if fn == "gray": c, p0, p1 = P.gray_synth(M, A)
        elif fn == "gray_none": c, p0, p1 = P.gray_synth(M, None)
        elif fn == "rec_none": c, p0, p1 = P.rec_gray_synth(M, None)
        elif fn == "ariannes_none": c, p0, p1 = P.Ariannes_synth(M, None)
        else:
            kw = dict(population_size=4, n_iterations=1, n_steps=1, input_perm=spec["ip"], output_perm=spec["op"]) if "genetic" in mode else {}
            c, p0, p1 = P.matroid_synth(M, A, **kw)
    p0, p1 = [int(i) for i in p0], [int(i) for i in p1]
    I = list(range(n))
    if sorted(p0) != I or sorted(p1) != I: fail("%s: placements %s, %s", what, p0, p1)
    if "genetic" not in mode or not spec["ip"]:
        if p0 != I: fail("%s: input placement %s", what, p0)
    if "genetic" not in mode or not spec["op"]:
        if p1 != I: fail("%s: output placement %s", what, p1)
    # wire i of the circuit starts as qubit p0[i] and ends as output p1[i]
    start = [[int(j == p0[i]) for j in range(n)] for i in range(n)]
    compare(c, spec, n, what, start, [spec["out"][p1[i]] for i in range(n)])
    if "steiner" in mode and not fn.endswith("none"): conn(A, c, what)
    rec.nt(sum(sum(p) > 1 for p, _ in spec["poly"]) >= 2); rec.label(what)

# ------------------------------------------------------------------ partitions
@st.composite
def part_spec(draw):
    n = draw(st.integers(1, 5))
    return {"n": n, "poly": draw(poly(n, 8)), "out": draw(invertible(n)), "skip": draw(st.booleans()), "opt": draw(st.booleans())}

def rank(rows):
    rows = [int("".join(map(str, r)), 2) for r in rows]; r = 0
    while rows:
        p = rows.pop()
        if p:
            r += 1; b = p & -p
            rows = [x ^ p if x & b else x for x in rows]
    return r

def check_part(spec, rec):
    P = build_poly(spec); n = spec["n"]
    with cut("partition"): ps = P.partition(skip_output_parities=spec["skip"], optimize_parity_order=spec["opt"])
    seen = []
    for p in ps:
        rows = [[int(b) for b in x] for x in p]
        if len(rows) != n or rank(rows) != n: fail("part %s is not a basis", rows)
        seen += rows
    out = [list(r) for r in spec["out"]]
    for p, _ in spec["poly"]:
        if p not in seen and not (spec["skip"] and p in out): fail("parity %s is in no part", p)
    # matroid partitioning uses the least number of parts: Edmonds' bound |S| <= k rank(S) for all S
    todo = [p for p, _ in spec["poly"] if not (spec["skip"] and p in out)]
    k = 0
    for m in range(1, 1 << len(todo)):
        S = [todo[i] for i in range(len(todo)) if m >> i & 1]
        k = max(k, -(-len(S) // rank(S)))
    if len(ps) < k: fail("%d parts, at least %d are needed", len(ps), k)
    if len(ps) > k: rec.label("more parts than needed")
    rec.nt(len(todo) > n)

# ------------------------------------------------------------------ conversion
@st.composite
def conv_spec(draw):
    n = draw(st.integers(1, 5))
    gs = draw(st.lists(st.tuples(st.sampled_from(["CNOT", "CNOT", "ZPhase", "T", "S", "Z", "Sdg"]), st.integers(0, n - 1), st.integers(0, n - 1), st.sampled_from(PH + ["5/3", "9/4"])), max_size=25))
    return {"n": n, "gates": [list(g) for g in gs], "ip": draw(st.none() | st.permutations(range(n)).map(list)), "op": draw(st.none() | st.permutations(range(n)).map(list))}

def check_conv(spec, rec):
    from pyzx import Circuit
    from pyzx.routing.phase_poly import PhasePoly
    n = spec["n"]; c = Circuit(n)
    cur = np.eye(n, dtype=int).tolist()
    for nm, a, b, ph in spec["gates"]:
        if nm == "CNOT":
            if a != b: c.add_gate("CNOT", a, b)
        elif nm == "ZPhase": c.add_gate("ZPhase", a, phase=Fraction(ph))
        elif nm == "Sdg": c.add_gate("S", a, adjoint=True)
        else: c.add_gate(nm, a)
    with cut("fromCircuit"): P = PhasePoly.fromCircuit(c, spec["ip"], spec["op"])
    if spec["ip"]: cur = [[r[i] for i in spec["ip"]] for r in cur]
    want = {}
    for nm, a, b, ph in spec["gates"]:
        if nm == "CNOT":
            if a != b: cur[b] = [x ^ y for x, y in zip(cur[a], cur[b])]
        else:
            x = {"T": Fraction(1, 4), "S": Fraction(1, 2), "Z": Fraction(1), "Sdg": Fraction(-1, 2), "ZPhase": Fraction(ph)}[nm]
            want[tuple(cur[a])] = (want.get(tuple(cur[a]), 0) + x) % 2
    want = {k: v for k, v in want.items() if v}
    if spec["op"]: cur = [cur[i] for i in spec["op"]]
    got = {tuple(int(b) for b in p): Fraction(v) % 2 for p, v in P.zphases.items()}
    if got != want: fail("phases %s, expected %s", got, want)
    if [[int(b) for b in p] for p in P.out_par] != cur: fail("outputs %s, expected %s", P.out_par, cur)
    if P.n_qubits != n: fail("%d qubits", P.n_qubits)
    rec.nt(len(want) > 1)

def check_refuse(spec, rec):
    from pyzx import Circuit
    from pyzx.routing.phase_poly import PhasePoly
    c = Circuit(2)
    c.add_gate("T", 0); c.add_gate("CNOT", 0, 1); c.add_gate(spec["g"], *spec["q"], **({"phase": Fraction(1, 4)} if spec["g"] in ("XPhase", "YPhase") else {}))
    try: PhasePoly.fromCircuit(c)
    except Exception: rec.nt(True); return
    fail("a circuit with a %s gate became a phase polynomial", spec["g"])

# ------------------------------------------------------------------ parity network
@st.composite
def net_spec(draw):
    n = draw(st.integers(1, 6))
    return {"n": n, "S": [[(p >> i) & 1 for i in range(n)] for p in draw(st.lists(st.integers(0, 2 ** n - 1), max_size=12))]}

@st.composite
def big_net(draw):
    n = draw(st.integers(7, 11))
    S = draw(st.lists(st.integers(0, 2 ** n - 1), min_size=10, max_size=60))
    return {"n": n, "S": [[(p >> i) & 1 for i in range(n)] for p in S]}

def check_net(spec, rec):
    from pyzx.parity_network import parity_network
    n = spec["n"]
    with cut("parity_network"): cs = parity_network(n, [list(p) for p in spec["S"]])
    cur = np.eye(n, dtype=int).tolist(); seen = {tuple(r) for r in cur}
    for g in cs:
        if g.name != "CNOT" or g.control == g.target or not (0 <= g.control < n and 0 <= g.target < n): fail("gate %s", g)
        cur[g.target] = [a ^ b for a, b in zip(cur[g.target], cur[g.control])]; seen.add(tuple(cur[g.target]))
    for p in spec["S"]:
        if any(p) and tuple(p) not in seen: fail("parity %s never appears", p)
    rec.nt(len(set(map(tuple, spec["S"]))) > 2)

SUBS = [
    Sub("route", route_spec, check_route, 1200),
    Sub("synth", synth_spec, check_synth, 500),
    Sub("partition", part_spec, check_part, 400),
    Sub("convert", conv_spec, check_conv, 800),
    Sub("refuse", lambda: st.sampled_from([{"g": "HAD", "q": [0]}, {"g": "XPhase", "q": [1]}, {"g": "NOT", "q": [0]}, {"g": "CZ", "q": [0, 1]}, {"g": "SWAP", "q": [0, 1]}, {"g": "YPhase", "q": [0]}, {"g": "HAD", "q": [1]}]), check_refuse, 20),
    Sub("network", net_spec, check_net, 1500),
    Sub("network_big", big_net, check_net, 100),
]
