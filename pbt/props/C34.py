"""Random and structured generators."""
import math, random
from fractions import Fraction
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, fail, cut
from .. import gens, oracle, graphs

RULE = ("Sizes 0-6 qubits (0-70 for phase gadgets), depths 0-12 (400 for frequencies), all probability settings including those that add up to 1 only up to rounding, both backends, seeds. "
        "Oracle: independent contraction (exact unitary or unitary up to a factor), gates read off the picture, gate-by-gate parity bookkeeping, reference spider tensors, frequencies within 7 standard deviations. "
        "Non-trivial: at least two gates or a spider with two legs.")
ASSUMPTIONS = ["A two-qubit gate requested on fewer than two qubits may be refused.",
               "spider('H', ...) without a phase is not judged (the documentation names no default).",
               "'Reproducible' means: same values after seeding Python's and numpy's global generators alike."]

def seed(s):
    random.seed(s); np.random.seed(s)

def run(what, f, s, may_refuse):
    """Result of f after seeding; None when it was refused and may be."""
    seed(s)
    if may_refuse:
        try: return f()
        except (ValueError, IndexError): return None
    with cut(what): return f()

def same(what, a, b):
    d = graphs.diff(graphs.snapshot(a), graphs.snapshot(b))
    if d: fail("%s: the same seed gave two different diagrams: %s", what, d)

def wellformed(g, n, what):
    if g.num_inputs() != n or g.num_outputs() != n: fail("%s: %d inputs, %d outputs, asked for %d qubits", what, g.num_inputs(), g.num_outputs(), n)
    B = graphs.vt("B")
    bs = [v for v in g.vertices() if g.type(v) == B]
    if sorted(bs) != sorted(set(g.inputs()) | set(g.outputs())) or len(bs) != 2 * n: fail("%s: boundaries %s, inputs %s, outputs %s", what, bs, g.inputs(), g.outputs())
    for v in bs:
        if g.vertex_degree(v) != 1: fail("%s: boundary %s has degree %d", what, v, g.vertex_degree(v))
    for i, v in enumerate(g.inputs()):
        if g.qubit(v) != i: fail("%s: input %d lies on line %s", what, i, g.qubit(v))
    for i, v in enumerate(g.outputs()):
        if g.qubit(v) != i: fail("%s: output %d lies on line %s", what, i, g.qubit(v))
    if n and max(g.row(v) for v in g.vertices() if v not in g.outputs()) >= min(g.row(v) for v in g.outputs()): fail("%s: something lies behind the outputs", what)

def read_lines(g, what):
    """Gates of a circuit drawn on lines, read off rows and lines: list of [name, qubits, phases]; phase spiders without phase and single wires give nothing."""
    Z, X, B = graphs.vt("Z"), graphs.vt("X"), graphs.vt("B")
    out = []
    vs = sorted((v for v in g.vertices() if g.type(v) != B), key=lambda v: (g.row(v), v))
    done = set()
    ins = {v for v in g.inputs()}
    for v in vs:
        q = g.qubit(v)
        for e in g.incident_edges(v):
            a, b = g.edge_st(e); w = b if a == v else a
            if g.qubit(w) == q and g.row(w) < g.row(v) and g.edge_type(e) == graphs.et("h"): out.append(["HAD", [q], []])
    # order: per row, wires into the row first, then phases, then two-qubit gates
    out = []
    rows = sorted({g.row(v) for v in vs})
    for r in rows:
        here = [v for v in vs if g.row(v) == r]
        for v in here:
            for e in g.incident_edges(v):
                a, b = g.edge_st(e); w = b if a == v else a
                if g.qubit(w) == g.qubit(v) and g.row(w) < r and g.edge_type(e) == graphs.et("h"): out.append(["HAD", [g.qubit(v)], []])
                if g.row(w) != r and g.qubit(w) != g.qubit(v): fail("%s: an edge between two lines that is not vertical", what)
        for v in here:
            if g.phase(v): out.append(["ZPhase" if g.type(v) == Z else "XPhase", [g.qubit(v)], [str(g.phase(v))]])
        for v in here:
            for e in g.incident_edges(v):
                a, b = g.edge_st(e); w = b if a == v else a
                if g.row(w) == r and v < w:
                    if g.edge_type(e) == graphs.et("h"): out.append(["CZ" if g.type(v) == Z else "XCX", [g.qubit(v), g.qubit(w)], []])
                    elif g.type(v) == Z: out.append(["CNOT", [g.qubit(v), g.qubit(w)], []])
                    else: out.append(["CNOT", [g.qubit(w), g.qubit(v)], []])
    return out

def judge_lines(g, n, what, exact):
    wellformed(g, n, what)
    gates = read_lines(g, what)
    if n > 5: return gates
    U = oracle.circuit_unitary(n, gates)
    T = oracle.graph_matrix(g)
    if exact:
        if not oracle.close(T, U): fail("%s: the diagram is not the unitary of its gates", what)
    elif not oracle.proportional(T, U): fail("%s: the diagram is not proportional to the unitary of its gates", what)
    return gates

# ---------------------------------------------------------------- graphs
backend = st.sampled_from([None, None, "simple", "multigraph"])
sz = st.fixed_dictionaries({"n": st.integers(0, 5), "depth": st.integers(0, 12), "seed": st.integers(0, 10 ** 6), "backend": backend})

def check_identity(s, rec):
    from pyzx import generate
    d = s["depth"] + 1 if s["seed"] % 2 else s["depth"] + 0.5
    with cut("identity"): g = generate.identity(s["n"], d, s["backend"])
    wellformed(g, s["n"], "identity")
    if any(g.row(v) != d for v in g.outputs()): fail("identity: outputs at rows %s, asked for %s", [g.row(v) for v in g.outputs()], d)
    if not oracle.close(oracle.graph_matrix(g), np.eye(2 ** s["n"])): fail("identity(%d) is not the identity", s["n"])
    if s["n"] > 1: rec.nt()

def check_cnots(s, rec):
    from pyzx import generate
    n, d = s["n"], s["depth"]
    f = lambda: generate.cnots(n, d, s["backend"])
    g = run("cnots(%d,%d)" % (n, d), f, s["seed"], n < 2 and d > 0)
    if g is None: return
    gates = judge_lines(g, n, "cnots", True)
    if len(gates) != d or any(x[0] != "CNOT" for x in gates): fail("cnots(%d, %d) has the gates %s", n, d, gates)
    seed(s["seed"]); same("cnots", g, f())
    if s["backend"] is None and not isinstance(g, type(__import__("pyzx").Graph())): fail("cnots: wrong backend")
    if s["backend"] == "multigraph" and type(g).__name__ != "Multigraph": fail("cnots: wrong backend")
    if d >= 2: rec.nt()

def check_cliffords(s, rec):
    from pyzx import generate
    n, d = s["n"], s["depth"]
    nh, tg = bool(s["seed"] % 2), bool(s["seed"] // 2 % 2)
    f = lambda: generate.cliffords(n, d, nh, tg, s["backend"])
    g = run("cliffords(%d,%d)" % (n, d), f, s["seed"], n < 2 and d > 0)
    if g is None: return
    gates = judge_lines(g, n, "cliffords", False)
    for name, qs, ph in gates:
        if name not in ("CNOT", "CZ", "XCX", "ZPhase", "XPhase", "HAD"): fail("cliffords: gate %s", name)
        if nh and name in ("HAD", "CZ", "XCX"): fail("cliffords(no_hadamard=True) has Hadamards")
        if ph and not (Fraction(ph[0]) * (4 if tg else 2)).denominator == 1: fail("cliffords(t_gates=%s) has the phase %s", tg, ph[0])
    if g.num_vertices() != 4 * n + 2 * d: fail("cliffords(%d, %d) has %d vertices", n, d, g.num_vertices())
    seed(s["seed"]); same("cliffords", g, f())
    if len(gates) >= 2: rec.nt()

prob = st.sampled_from([None, None, 0, 0.1, 0.2, 0.3, 0.4, 0.15, 0.25, 1 / 3, 0.5])
@st.composite
def ct(draw):
    s = draw(sz)
    k = draw(st.integers(0, 3))
    if k == 0:
        p = [draw(prob) for _ in range(5)]
    elif k == 1:   # all given, add up to 1 up to rounding
        w = [draw(st.integers(0, 9)) for _ in range(5)]
        if not sum(w): w[0] = 1
        t = sum(w); p = [x / t for x in w]
    elif k == 2:
        p = [0] * 5; p[draw(st.integers(0, 4))] = 1
    else:
        w = [draw(st.integers(0, 9)) / 10 for _ in range(5)]
        p = w
    for i in range(5):
        if p[i] is not None and k != 1 and draw(st.integers(0, 4)) == 0: p[i] = None
    s["p"] = p; s["meas"] = draw(st.booleans())
    if not s["meas"]: s["p"][4] = 0
    return s

def kinds(g, n, depth, what):
    """Kind of every gate of cliffordTmeas, read off rows 2.. ."""
    rows = sorted({g.row(v) for v in g.vertices()})
    out = []
    Z, X = graphs.vt("Z"), graphs.vt("X")
    bs = set(g.inputs()) | set(g.outputs())
    first, last = {}, {}
    for v in g.vertices():
        if v in bs: continue
        q = g.qubit(v)
        if q not in first or g.row(v) < g.row(first[q]): first[q] = v
        if q not in last or g.row(v) > g.row(last[q]): last[q] = v
    skip = set(first.values()) | set(last.values())
    for r in rows:
        here = [v for v in g.vertices() if g.row(v) == r and v not in bs and v not in skip]
        if not here: continue
        if len(here) == 2:
            if {g.type(v) for v in here} != {Z, X} or any(g.phase(v) or g.is_ground(v) for v in here) or not g.connected(*here): fail("%s: not a CNOT in row %s", what, r)
            out.append("cnot")
        elif len(here) == 1:
            v = here[0]
            t, p, gr = g.type(v), g.phase(v), g.is_ground(v)
            k = {(Z, Fraction(1, 4), False): "t", (Z, Fraction(1, 2), False): "s", (X, Fraction(1, 2), False): "hsh", (Z, 0, True): "meas"}.get((t, p, gr))
            if k is None: fail("%s: gate %s phase %s ground %s", what, t, p, gr)
            out.append(k)
        else: fail("%s: %d spiders in row %s", what, len(here), r)
    if len(out) != depth: fail("%s: %d gates, asked for %d", what, len(out), depth)
    return out

def expected(p):
    """Probabilities of t, s, hsh, cnot, meas, or None when they are too large, or 'open' when the docs do not say."""
    given = [x for x in p if x is not None]
    rest = 1 - math.fsum(given)
    if rest < -1e-6: return None
    none = p.count(None)
    if none == 0: return p if abs(rest) < 1e-9 else "open"
    return [max(rest, 0) / none if x is None else x for x in p]

def check_cliffordT(s, rec):
    from pyzx import generate
    n, d, p = s["n"], s["depth"], s["p"]
    e = expected(p)
    if s["meas"]: f = lambda: generate.cliffordTmeas(n, d, *p, backend=s["backend"])
    else: f = lambda: generate.cliffordT(n, d, *p[:4], backend=s["backend"])
    what = "cliffordT%s(%d,%d,%s)" % ("meas" if s["meas"] else "", n, d, p)
    if e is None:
        seed(s["seed"])
        try: f()
        except ValueError: return
        fail("%s: probabilities larger than 1 were accepted", what)
    cn = 0 if e == "open" else e[3]
    g = run(what, f, s["seed"], d > 0 and (n == 0 or (n == 1 and (e == "open" or cn > 0))))
    if g is None: return
    wellformed(g, n, what)
    ks = kinds(g, n, d, what)
    if e != "open":
        for k, x in zip(("t", "s", "hsh", "cnot", "meas"), e):
            if x < 1e-12 and k in ks: fail("%s has a %s, which has probability 0", what, k)
    elif not s["meas"] and "meas" in ks: fail("%s has a measurement", what)
    if "meas" not in ks: judge_lines(g, n, what, True)
    seed(s["seed"]); same(what, g, f())
    if d >= 2 and n: rec.nt(); rec.label('+'.join(sorted(set(ks))))

def within(what, count, total, p):
    sd = math.sqrt(total * p * (1 - p)) + 1
    if abs(count - total * p) > 7 * sd: fail("%s: %d of %d, expected about %.1f", what, count, total, total * p)

freqspec = st.fixed_dictionaries({"n": st.integers(2, 4), "w": st.lists(st.integers(0, 6), min_size=5, max_size=5).filter(lambda l: sum(l) > 0), "seed": st.integers(0, 10 ** 6), "none": st.booleans()})
def check_freq(s, rec):
    """Gate kinds and places occur as often as asked for."""
    from pyzx import generate
    N = 600
    t = sum(s["w"]); p = [x / t for x in s["w"]]
    a = list(p)
    if s["none"]:
        m = [i for i in range(5) if p[i] == min(p)]
        for i in m: a[i] = None
    n = s["n"]
    g = run("cliffordTmeas", lambda: generate.cliffordTmeas(n, N, *a), s["seed"], False)
    ks = kinds(g, n, N, "cliffordTmeas")
    for k, x in zip(("t", "s", "hsh", "cnot", "meas"), p): within("cliffordTmeas(%s): %s" % (a, k), ks.count(k), N, x)
    ph, pt = p[0] * 0.7, p[1] * 0.7
    cl = bool(s["seed"] % 2)
    c = run("CNOT_HAD_PHASE_circuit", lambda: generate.CNOT_HAD_PHASE_circuit(n, N, ph, pt, cl), s["seed"], False)
    gs = [oracle.read_gate(x) for x in c.gates]
    within("CNOT_HAD_PHASE_circuit: Hadamards", sum(x[0] == "HAD" for x in gs), N, ph)
    within("CNOT_HAD_PHASE_circuit: phase gates", sum(x[0] == "ZPhase" for x in gs), N, pt)
    cs = [x for x in gs if x[0] == "CNOT"]
    if len(cs) > 300:
        for i in range(n):
            for j in range(n):
                if i != j: within("CNOT_HAD_PHASE_circuit: CNOTs from %d to %d" % (i, j), sum(x[1] == [i, j] for x in cs), len(cs), 1 / (n * (n - 1)))
    cg = read_lines(run("cnots", lambda: generate.cnots(n, N), s["seed"], False), "cnots")
    for i in range(n):
        for j in range(n):
            if i != j: within("cnots: CNOTs from %d to %d" % (i, j), sum(x[1] == [i, j] for x in cg), N, 1 / (n * (n - 1)))
    rec.nt()

@st.composite
def chp(draw):
    s = draw(sz)
    k = draw(st.integers(0, 2))
    a, b = [(0.2, 0.2), (1, 0), (0, 1)][k] if draw(st.booleans()) else [(draw(st.integers(0, 10)) / 10, 0), (0.5, 0.5), (0, 0)][k]
    s.update(p_had=a, p_t=b, clifford=draw(st.booleans()))
    return s
def check_chp(s, rec):
    from pyzx import generate
    n, d = s["n"], s["depth"]
    pc = 1 - s["p_had"] - s["p_t"]
    f = lambda: generate.CNOT_HAD_PHASE_circuit(n, d, s["p_had"], s["p_t"], s["clifford"])
    c = run("CNOT_HAD_PHASE_circuit(%d,%d,%s,%s)" % (n, d, s["p_had"], s["p_t"]), f, s["seed"], d > 0 and (n == 0 or (n == 1 and pc > 1e-12)))
    if c is None: return
    if c.qubits != n or len(c.gates) != d: fail("CNOT_HAD_PHASE_circuit(%d, %d) has %d qubits, %d gates", n, d, c.qubits, len(c.gates))
    want = {"CNOT"} if pc > 1e-12 else set()
    if s["p_had"]: want.add("HAD")
    if s["p_t"]: want.add("ZPhase")
    ok = [[1, 2]] if s["clifford"] else [[1, 4]]
    gs = [oracle.read_gate(x) for x in c.gates]
    for name, qs, ph in gs:
        if name not in want: fail("CNOT_HAD_PHASE_circuit(p_had=%s, p_t=%s) has a %s", s["p_had"], s["p_t"], name)
        if ph and Fraction(ph[0]) != Fraction(1, 2 if s["clifford"] else 4): fail("CNOT_HAD_PHASE_circuit(clifford=%s) has the phase %s", s["clifford"], ph[0])
        if len(set(qs)) != len(qs) or not all(0 <= q < n for q in qs): fail("CNOT_HAD_PHASE_circuit: gate on qubits %s", qs)
    seed(s["seed"])
    if [oracle.read_gate(x) for x in f().gates] != gs: fail("CNOT_HAD_PHASE_circuit: the same seed gave two circuits")
    if d >= 2: rec.nt(); rec.label('+'.join(sorted({x[0] for x in gs})))

# ---------------------------------------------------------------- single spiders
ph = st.sampled_from(["0", "1/2", "1", "3/2", "1/4", "7/4", "9/4", "-1/4", "2/3"])
spid = st.fixed_dictionaries({"ty": st.sampled_from(["Z", "X", "H", "W", "ZBox"]), "enum": st.booleans(), "i": st.integers(0, 4), "o": st.integers(0, 4),
                              "ph": st.one_of(st.none(), ph), "lab": st.sampled_from([[0.5, 1], [0, 0], [-1, 0], [1, 0], [2, -0.25]])})
def check_spider(s, rec):
    from pyzx import generate
    from pyzx.utils import VertexType as V
    ty, i, o = s["ty"], s["i"], s["o"]
    if i + o > 7: o = 7 - i
    arg = {"Z": V.Z, "X": V.X, "H": V.H_BOX, "W": V.W_OUTPUT, "ZBox": V.Z_BOX}[ty] if s["enum"] else ty
    p = s["ph"]
    if ty == "H" and p is None: p = "1"
    phase = None if p is None else Fraction(p)
    if ty == "W": phase = None
    if ty == "ZBox" and p is not None: phase = complex(*s["lab"])
    if ty == "W" and i != 1:
        try: generate.spider(arg, i, o)
        except ValueError: return
        fail("a W node with %d inputs was made", i)
    with cut("spider"): g = generate.spider(arg, i, o) if phase is None else generate.spider(arg, i, o, phase)
    if g.num_inputs() != i or g.num_outputs() != o: fail("spider(%s,%d,%d) has %d inputs and %d outputs", ty, i, o, g.num_inputs(), g.num_outputs())
    k = i + o
    T = np.zeros([2] * k, dtype=complex)
    if ty in ("Z", "ZBox"):
        T[(0,) * k] += 1; T[(1,) * k] += (complex(phase) if ty == "ZBox" and phase is not None else 1 if ty == "ZBox" else np.exp(1j * math.pi * float(phase or 0)))
    elif ty == "X":
        # sum of |+..+><+..+| and phase times |-..-><-..-|
        a = np.exp(1j * math.pi * float(phase or 0))
        for idx in np.ndindex(*T.shape): T[idx] = (1 + a * (-1) ** sum(idx)) / 2 ** (k / 2)
    elif ty == "H":
        T[...] = 1; T[(1,) * k] = np.exp(1j * math.pi * float(phase))
    else:
        # W: input 0 -> all outputs 0, input 1 -> exactly one output 1
        for idx in np.ndindex(*T.shape): T[idx] = 1 if sum(idx[1:]) == idx[0] else 0
    # outputs first in a matrix; here axes: inputs then outputs
    M = T.reshape(2 ** i, 2 ** o).T
    if not oracle.close(oracle.graph_matrix(g), M): fail("spider(%s, %d, %d, %s) is another map", ty, i, o, phase)
    if k >= 2: rec.nt(); rec.label(ty)

# ---------------------------------------------------------------- identities
ang = st.fractions(0, 2, max_denominator=8).map(str)
def check_ids(s, rec):
    from pyzx import generate
    which = s["which"]
    f = {"pp": generate.circuit_identity_phasepoly, "t1": generate.circuit_identity_two_qubit1, "t2": generate.circuit_identity_two_qubit2,
         "cc": lambda: generate.circuit_identity_commuting_controls(Fraction(s["a"]), Fraction(s["b"]))}[which]
    with cut(which): c = f()
    U = oracle.circuit_unitary(c.qubits, [[n, q, [str(x) for x in p]] for n, q, p in map(oracle.read_gate, c.gates)])
    if not oracle.proportional(U, np.eye(2 ** c.qubits)): fail("circuit_identity %s(%s, %s) is not the identity", which, s["a"], s["b"])
    if c.qubits != (4 if which == "pp" else 2): fail("wrong number of qubits")
    rec.nt(); rec.label(which)

# ---------------------------------------------------------------- phase polynomials
def track(c, n):
    """Parities of CNOT + ZPhase circuits: (list of (parity bit mask, phase), final masks)."""
    par = [1 << i for i in range(n)]
    out = []
    for g in c.gates:
        name, qs, ph_ = oracle.read_gate(g)
        if name == "CNOT":
            if qs[0] == qs[1] or not all(0 <= q < n for q in qs): fail("CNOT on %s", qs)
            par[qs[1]] ^= par[qs[0]]
        elif name == "ZPhase": out.append((par[qs[0]], Fraction(ph_[0])))
        else: fail("gate %s in a phase polynomial circuit", name)
    return out, par

ppspec = st.fixed_dictionaries({"n": st.integers(1, 6), "layers": st.integers(0, 4), "cn": st.integers(0, 8), "k": st.integers(0, 12), "seed": st.integers(0, 10 ** 6)})
OKPH = {Fraction(a, b) for a in (1, -1) for b in (1, 2, 4)}
def sig(c): return [(x[0], tuple(map(int, x[1])), tuple(map(Fraction, x[2]))) for x in map(oracle.read_gate, c.gates)]

def check_phasepoly(s, rec):
    from pyzx import generate
    n, L, cn = s["n"], s["layers"], s["cn"]
    f = lambda: generate.phase_poly(n, L, cn)
    c = run("phase_poly(%d,%d,%d)" % (n, L, cn), f, s["seed"], n < 2 and cn > 0)
    if c is not None:
        if c.qubits != n: fail("phase_poly: %d qubits", c.qubits)
        names = [oracle.read_gate(g) for g in c.gates]
        if sum(x[0] == "CNOT" for x in names) != L * cn: fail("phase_poly(%d,%d,%d) has %d CNOTs", n, L, cn, sum(x[0] == "CNOT" for x in names))
        # layers: cn CNOTs, then one phase on each qubit
        for l in range(L):
            part = names[l * (cn + n):(l + 1) * (cn + n)]
            if any(x[0] != "CNOT" for x in part[:cn]) or sorted(x[1][0] for x in part[cn:]) != list(range(n)) or any(x[0] != "ZPhase" or Fraction(x[2][0]) not in OKPH for x in part[cn:]):
                fail("phase_poly(%d,%d,%d): layer %d is %s", n, L, cn, l, part)
        _, par = track(c, n)
        if hasattr(c, "matrix"):
            for i in range(n):
                row = sum(1 << j for j in range(n) if c.matrix.data[i][j])
                if row != par[i]: fail("phase_poly: the tracked matrix is not the linear map of the CNOTs")
        seed(s["seed"])
        if sig(f()) != sig(c): fail("phase_poly: the same seed gave two circuits")
    # approximate: exact number of CNOTs
    k = s["k"]
    if cn + k:
        f = lambda: generate.phase_poly_approximate(n, cn, k)
        a = run("phase_poly_approximate(%d,%d,%d)" % (n, cn, k), f, s["seed"], n < 2 and cn > 0)
        if a is not None:
            ps, _ = track(a, n)
            if sum(oracle.read_gate(g)[0] == "CNOT" for g in a.gates) != cn: fail("phase_poly_approximate(%d,%d,%d): wrong number of CNOTs", n, cn, k)
            if any(p not in OKPH for _, p in ps): fail("phase_poly_approximate: phases %s", ps)
            if k == 0 and ps: fail("phase_poly_approximate without phases has %d", len(ps))
            seed(s["seed"])
            if sig(f()) != sig(a): fail("phase_poly_approximate: the same seed gave two circuits")
    if L * (cn + n) >= 2: rec.nt()

gadspec = st.one_of(
    st.fixed_dictionaries({"n": st.integers(1, 5), "k": st.integers(0, 40), "seed": st.integers(0, 10 ** 6)}),
    st.fixed_dictionaries({"n": st.sampled_from([8, 25, 26, 40, 62, 63, 64, 70]), "k": st.integers(0, 4), "seed": st.integers(0, 10 ** 6)}))
def check_gadgets(s, rec):
    from pyzx import generate
    n, k = s["n"], s["k"]
    if n >= 25 and k > 2: k = 2
    if n == 25: n = 20   # sampling without replacement enumerates 2**n numbers
    f = lambda: generate.phase_poly_from_gadgets(n, k)
    c = run("phase_poly_from_gadgets(%d,%d)" % (n, k), f, s["seed"], False)
    if c.qubits != n: fail("phase_poly_from_gadgets: %d qubits", c.qubits)
    ps, par = track(c, n)
    if par != [1 << i for i in range(n)]: fail("phase_poly_from_gadgets(%d,%d): the qubits end in other parities", n, k)
    tot = {}
    for m, p in ps: tot[m] = (tot.get(m, 0) + p) % 2
    tot = {m: p for m, p in tot.items() if p}
    want = min(k, 2 ** n - 1)
    if len(tot) != want or any(p != Fraction(1, 4) for p in tot.values()): fail("phase_poly_from_gadgets(%d,%d): %d parities with phases %s, expected %d with phase 1/4", n, k, len(tot), sorted(set(tot.values())), want)
    seed(s["seed"])
    if sig(f()) != sig(c): fail("phase_poly_from_gadgets: the same seed gave two circuits")
    if want >= 2: rec.nt()

def check_parity_map(s, rec):
    from pyzx import generate
    from pyzx.linalg import Mat2
    from pyzx.routing.parity_maps import CNOT_tracker
    n, cn = s["n"], s["cn"]
    t1, t2 = CNOT_tracker(n), CNOT_tracker(n)
    how = s["seed"] % 3
    arg = [None, t1, [t1, t2]][how]
    m = run("build_random_parity_map(%d,%d)" % (n, cn), lambda: generate.build_random_parity_map(n, cn, arg) if arg is not None else generate.build_random_parity_map(n, cn), s["seed"], n < 2 and cn > 0)
    if m is None: return
    rows = [sum(1 << j for j in range(n) if r[j]) for r in m]
    if len(rows) != n: fail("build_random_parity_map: %d rows", len(rows))
    for t in [[], [t1], [t1, t2]][how]:
        ps, par = track(t, n)
        if len(t.gates) != cn: fail("build_random_parity_map(%d,%d) added %d gates", n, cn, len(t.gates))
        if par != rows: fail("build_random_parity_map: the matrix is not the linear map of the CNOTs it added")
    # invertible
    r, rank = list(rows), 0
    for j in range(n):
        pv = next((i for i in range(rank, n) if r[i] >> j & 1), None)
        if pv is None: fail("build_random_parity_map: singular matrix")
        r[rank], r[pv] = r[pv], r[rank]
        for i in range(n):
            if i != rank and r[i] >> j & 1: r[i] ^= r[rank]
        rank += 1
    if cn >= 2: rec.nt()

SUBS = [
    Sub("identity", lambda: sz, check_identity, 150),
    Sub("cnots", lambda: sz, check_cnots, 500),
    Sub("cliffords", lambda: sz, check_cliffords, 600),
    Sub("cliffordT", lambda: ct(), check_cliffordT, 900, fixed=[
        {"n": 2, "depth": 4, "seed": 1, "backend": None, "p": [0.1, 0.2, 0.3, 0.4, 0], "meas": False}]),
    Sub("circuit", lambda: chp(), check_chp, 500, fixed=[{"n": 1, "depth": 3, "seed": 0, "backend": None, "p_had": 0.2, "p_t": 0.2, "clifford": False}]),
    Sub("frequency", lambda: freqspec, check_freq, 40),
    Sub("spider", lambda: spid, check_spider, 500),
    Sub("identities", lambda: st.fixed_dictionaries({"which": st.sampled_from(["pp", "t1", "t2", "cc", "cc", "cc"]), "a": ang, "b": ang}), check_ids, 100),
    Sub("phase_poly", lambda: ppspec, check_phasepoly, 500),
    Sub("gadgets", lambda: gadspec, check_gadgets, 250, fixed=[{"n": 3, "k": 7, "seed": 1}, {"n": 3, "k": 9, "seed": 1}, {"n": 4, "k": 5, "seed": 2}]),
    Sub("parity_map", lambda: ppspec, check_parity_map, 400),
]
