"""Independent oracles.  Nothing here calls the evaluation code of the repository: circuits are
evaluated with textbook gate matrices, diagrams by variable elimination on the standard
interpretation, read through the public graph API only."""
import cmath, math
from fractions import Fraction
import numpy as np
from .core import fail, HarnessError

PI = math.pi
SQ = 1 / math.sqrt(2)

# ---------------------------------------------------------------- textbook gates (phases in units of pi)
def Zp(a): return np.diag([1, cmath.exp(1j * PI * float(a))]).astype(complex)
H1 = SQ * np.array([[1, 1], [1, -1]], dtype=complex)
def Xp(a): return H1 @ Zp(a) @ H1
def Ry(a):
    c, s = math.cos(PI * float(a) / 2), math.sin(PI * float(a) / 2)
    return np.array([[c, -s], [s, c]], dtype=complex)
def Rx(a):
    c, s = math.cos(PI * float(a) / 2), math.sin(PI * float(a) / 2)
    return np.array([[c, -1j * s], [-1j * s, c]], dtype=complex)
def Rz(a):
    return np.diag([cmath.exp(-1j * PI * float(a) / 2), cmath.exp(1j * PI * float(a) / 2)])
def U3m(t, p, l):
    t, p, l = PI * float(t), PI * float(p), PI * float(l)
    c, s = math.cos(t / 2), math.sin(t / 2)
    return np.array([[c, -cmath.exp(1j * l) * s], [cmath.exp(1j * p) * s, cmath.exp(1j * (p + l)) * c]])
def ctrl(u):
    d = u.shape[0]
    m = np.eye(2 * d, dtype=complex)
    m[d:, d:] = u
    return m
X1 = np.array([[0, 1], [1, 0]], dtype=complex)
Y1 = np.array([[0, -1j], [1j, 0]])
Z1 = np.diag([1, -1]).astype(complex)
S1 = np.diag([1, 1j]); T1 = Zp(0.25)
SX1 = 0.5 * np.array([[1 + 1j, 1 - 1j], [1 - 1j, 1 + 1j]])
SWAPm = np.eye(4, dtype=complex)[[0, 2, 1, 3]]
def rzz(a):
    return np.diag([cmath.exp(1j * PI * float(a) * s / 2) for s in (-1, 1, 1, -1)])
def rxx(a):
    hh = np.kron(H1, H1)
    return hh @ rzz(a) @ hh
def parity_phase(a, n):
    d = [cmath.exp(1j * PI * float(a)) if bin(i).count("1") % 2 else 1 for i in range(2 ** n)]
    return np.diag(d).astype(complex)
def fsim(theta, phi):
    # Cirq's FSimGate(theta, phi)
    t, p = PI * float(theta), PI * float(phi)
    m = np.zeros((4, 4), dtype=complex)
    m[0, 0] = 1; m[3, 3] = cmath.exp(-1j * p)
    m[1, 1] = m[2, 2] = math.cos(t); m[1, 2] = m[2, 1] = -1j * math.sin(t)
    return m

# name -> (number of qubits, number of phases, matrix function)
GATES = {
    "ZPhase": (1, 1, Zp), "XPhase": (1, 1, Xp), "YPhase": (1, 1, Ry),
    "Z": (1, 0, lambda: Z1), "S": (1, 0, lambda: S1), "S*": (1, 0, lambda: S1.conj()),
    "T": (1, 0, lambda: T1), "T*": (1, 0, lambda: T1.conj()),
    "NOT": (1, 0, lambda: X1), "Y": (1, 0, lambda: Y1), "HAD": (1, 0, lambda: H1),
    "SX": (1, 0, lambda: SX1), "SX*": (1, 0, lambda: SX1.conj().T),
    "CNOT": (2, 0, lambda: ctrl(X1)), "CZ": (2, 0, lambda: ctrl(Z1)), "CY": (2, 0, lambda: ctrl(Y1)),
    "XCX": (2, 0, lambda: np.kron(H1, np.eye(2)) @ ctrl(X1) @ np.kron(H1, np.eye(2))),
    "SWAP": (2, 0, lambda: SWAPm), "CHAD": (2, 0, lambda: ctrl(H1)), "CSX": (2, 0, lambda: ctrl(SX1)),
    "CSX*": (2, 0, lambda: ctrl(SX1.conj().T)),
    "CRX": (2, 1, lambda a: ctrl(Rx(a))), "CRY": (2, 1, lambda a: ctrl(Ry(a))),
    "CRZ": (2, 1, lambda a: ctrl(Rz(a))), "CPhase": (2, 1, lambda a: ctrl(Zp(a))),
    "RXX": (2, 1, rxx), "RZZ": (2, 1, rzz),
    "CCZ": (3, 0, lambda: ctrl(ctrl(Z1))), "TOF": (3, 0, lambda: ctrl(ctrl(X1))),
    "CSWAP": (3, 0, lambda: ctrl(SWAPm)),
    "U2": (1, 2, lambda p, l: U3m(0.5, p, l)), "U3": (1, 3, U3m),
    "CU3": (2, 3, lambda t, p, l: ctrl(np.exp(0j) * U3m(t, p, l))),
    "CU": (2, 4, lambda t, p, l, g: ctrl(cmath.exp(1j * PI * float(g)) * U3m(t, p, l))),
    "FSim": (2, 2, fsim),
}
# gates whose diagram the library promises without any global phase
EXACT = {"ZPhase", "XPhase", "Z", "S", "S*", "T", "T*", "NOT", "HAD", "SX", "SX*", "CNOT", "CZ", "XCX",
         "SWAP", "CCZ", "TOF", "CSWAP", "CPhase", "ParityPhase", "CY"}


def gate_matrix(name, phases, n):
    if name == "ParityPhase":
        return parity_phase(phases[0], n)
    return np.asarray(GATES[name][2](*phases), dtype=complex)


def apply_matrix(U, m, qubits, n):
    """U: (2**n, K) -> (m on qubits) @ U; qubit 0 is the most significant."""
    k = len(qubits)
    K = U.shape[1]
    t = U.reshape([2] * n + [K])
    t = np.tensordot(m.reshape([2] * (2 * k)), t, axes=(list(range(k, 2 * k)), list(qubits)))
    t = np.moveaxis(t, list(range(k)), list(qubits))
    return t.reshape(2 ** n, K)


WIDE = 9   # circuits on more qubits are judged by their action on three generic product states

def wide_labels(n, k): return [cmath.exp(1j * (0.7 + 1.3 * k + 2.1 * q * (k + 1))) * (0.6 + 0.07 * ((5 * q + 3 * k) % 9)) for q in range(n)]

def start(n):
    """What gates are applied to: the identity, or (wide circuits) a few generic product states."""
    if n <= WIDE: return np.eye(2 ** n, dtype=complex)
    cols = []
    for k in range(3):
        v = np.ones(1, dtype=complex)
        for a in wide_labels(n, k): v = np.kron(v, np.array([1, a]))
        cols.append(v)
    return np.array(cols).T

def circuit_unitary(n, gates):
    """gates: list of [name, qubits, phases] (spec form)."""
    U = start(n)
    for name, qs, ph in gates:
        U = apply_gate(U, name, [Fraction(p) for p in ph], qs, n)
    return U

def apply_gate(U, name, ph, qs, n):
    if name == "ParityPhase" and len(qs) > 4:
        i = np.arange(2 ** n); par = np.zeros(2 ** n, dtype=int)
        for q in qs: par ^= (i >> (n - 1 - q)) & 1
        return U * np.where(par, cmath.exp(1j * PI * float(ph[0])), 1.0)[:, None]
    return apply_matrix(U, gate_matrix(name, ph, len(qs)), qs, n)


# ---------------------------------------------------------------- reading gate objects of the library
_CLS = {"Tofolli": "TOF"}

def read_gate(g):
    """Gate object -> [name, qubits, phases] through its public attributes."""
    cls = type(g).__name__
    name = _CLS.get(cls, cls)
    adj = bool(getattr(g, "adjoint", False))
    if cls in ("ParityPhase", "RZZ"):
        return ["RZZ" if cls == "RZZ" else "ParityPhase", [int(t) for t in g.targets], [g.phase]]
    if cls in ("CCZ", "Tofolli", "CSWAP"):
        return [name, [g.ctrl1, g.ctrl2, g.target], []]
    if cls in ("Z", "S", "T", "NOT", "SX", "Y", "ZPhase", "XPhase", "YPhase"):
        base = {"Z": "ZPhase", "S": "ZPhase", "T": "ZPhase", "ZPhase": "ZPhase", "NOT": "XPhase",
                "SX": "XPhase", "XPhase": "XPhase", "Y": "YPhase", "YPhase": "YPhase"}[cls]
        return [base, [g.target], [g.phase]]
    if cls == "HAD":
        return ["HAD", [g.target], []]
    if cls == "CSX":
        return ["CSX*" if adj else "CSX", [g.control, g.target], []]
    if cls in ("CNOT", "CZ", "CY", "XCX", "SWAP", "CHAD"):
        return [name, [g.control, g.target], []]
    if cls in ("CRX", "CRY", "CRZ", "CPhase", "RXX"):
        return [name, [g.control, g.target], [g.phase]]
    if cls == "U2":
        return [name, [g.target], [g.theta, g.phi]]
    if cls == "U3":
        return [name, [g.target], [g.theta, g.phi, g.rho]]
    if cls == "CU3":
        return [name, [g.control, g.target], [g.theta, g.phi, g.rho]]
    if cls == "CU":
        return [name, [g.control, g.target], [g.theta, g.phi, g.rho, g.gamma]]
    if cls == "FSim":
        return [name, [g.control, g.target], [g.theta, g.phi]]
    fail("circuit contains a gate that is not a unitary gate of the library: %s", g)


def read_circuit(c):
    return [read_gate(g) for g in c.gates]


def lib_circuit_unitary(c):
    n = c.qubits
    U = start(n)
    for name, qs, ph in read_circuit(c):
        for q in qs:
            if not (0 <= int(q) < n):
                fail("gate %s acts on qubit %r of a %d-qubit circuit", name, q, n)
        if len(set(qs)) != len(qs):
            fail("gate %s acts twice on one qubit: %r", name, qs)
        U = apply_gate(U, name, ph, [int(q) for q in qs], n)
    return U


# ---------------------------------------------------------------- comparison
def close(a, b, tol=1e-7):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape: return False
    scale = max(1.0, float(np.abs(b).max()) if b.size else 1.0)
    d = np.abs(a - b).max() if a.size else 0.0
    return bool(d <= tol * scale)   # NaN compares false

def plug_ok(g, M):
    """Plugging |0> into every open wire of g gives the corner of its tensor M (only tried where a wire end carries a phase)."""
    io = list(g.inputs()) + list(g.outputs())
    if not any(g.type(v) == 0 and g.phase(v) for v in io): return True
    h = g.copy()
    h.apply_state("0" * len(h.inputs())); h.apply_effect("0" * len(h.outputs()))
    return close(graph_tensor(h), M[(0,) * M.ndim], 1e-6)

def proportional(a, b, tol=1e-7):
    """a = c*b with c != 0 (both zero counts)."""
    a, b = np.asarray(a).ravel(), np.asarray(b).ravel()
    if a.shape != b.shape: return False
    na, nb = np.abs(a).max(), np.abs(b).max()
    if not (np.isfinite(na) and np.isfinite(nb)): return False
    if na < 1e-12 and nb < 1e-12: return True
    if na < 1e-12 or nb < 1e-12: return False
    i = int(np.abs(b).argmax())
    if abs(a[i]) < 1e-12: return False
    c = a[i] / b[i]
    return bool(np.abs(a - c * b).max() <= tol * max(na, 1e-12))

def same_up_to_phase(a, b, tol=1e-7):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape: return False
    i = int(np.abs(b).argmax())
    x, y = a.ravel()[i], b.ravel()[i]
    if abs(y) < 1e-12: return close(a, b, tol)
    c = x / y
    if abs(abs(c) - 1) > 1e-6: return False
    return close(a, c * b, tol)


# ---------------------------------------------------------------- diagrams
HADM = H1

def zbox_label(g, v):
    return complex(g.vdata(v, "label", 1))


def vertex_list(g):
    return list(g.vertices())


def edge_list(g):
    """[(s, t, type)] with multiplicity, from the public API."""
    out = []
    if g.multigraph():
        seen = set()
        for e in g.edges():
            out.append((e[0], e[1], g.edge_type(e)))
        return out
    for e in g.edges():
        s, t = g.edge_st(e)
        out.append((s, t, g.edge_type(e)))
    return out


def contract(vertices, edges, inputs, outputs, scalar, ground=()):
    """Evaluate a diagram given as plain data.

    vertices: {v: (kind, value)} kind in B,Z,X,H,W,ZB;  value phase (float, in pi) or label
    edges: [(s,t,'s'|'h'|'w')].   Returns tensor with axes outputs..., inputs..., ground legs...
    """
    factors = []          # (vars tuple, array)
    nv = 0
    wires = {v: [] for v in vertices}      # v -> list of vars
    def fresh():
        nonlocal nv
        nv += 1
        return nv - 1
    spider = {}
    for v, (k, val) in vertices.items():
        if k in ("Z", "X", "ZB"):
            spider[v] = fresh()
            if k == "ZB": factors.append(((spider[v],), np.array([1, val], dtype=complex)))
            else: factors.append(((spider[v],), np.array([1, cmath.exp(1j * PI * float(val))], dtype=complex)))
    def leg(v):
        """returns (var, hadamard?) for one end of an edge"""
        k = vertices[v][0]
        if k in ("Z", "ZB"): return spider[v], 0
        if k == "X": return spider[v], 1
        x = fresh()
        wires[v].append(x)
        return x, 0
    EQ = np.eye(2, dtype=complex)
    for s, t, ty in edges:
        a, ha = leg(s)
        b, hb = leg(t)
        h = (ha + hb + (1 if ty == "h" else 0)) % 2
        m = HADM if h else EQ
        if a == b:
            factors.append(((a,), np.diag(m).copy()))
        else:
            factors.append(((a, b), m))
    gl = []
    for v in ground:
        x = fresh()
        a, ha = leg(v)
        gl.append(x)
        factors.append(((a, x), HADM if ha else EQ))
    for v, (k, val) in vertices.items():
        ws = wires[v]
        if k == "H":
            if len(ws) > 20: raise HarnessError("H-box too large for the oracle")
            m = np.ones([2] * len(ws), dtype=complex)
            m[(1,) * len(ws)] = cmath.exp(1j * PI * float(val)) if len(ws) or True else 1
            factors.append((tuple(ws), m))
        elif k == "W":
            m = np.zeros([2] * len(ws), dtype=complex)
            for i in range(len(ws)):
                idx = [0] * len(ws); idx[i] = 1
                m[tuple(idx)] = 1
            factors.append((tuple(ws), m))
    # open legs
    open_vars = []
    io = list(outputs) + list(inputs)
    used = {}
    for v in io:
        if vertices[v][0] != "B": fail("input/output %s is not a boundary vertex", v)
        ws = wires[v]
        pos = used.get(v, 0)
        used[v] = pos + 1
        if len(ws) == 1 and pos == 0:
            open_vars.append(ws[0])
        elif len(ws) == 0 and io.count(v) == 2 and v in inputs and v in outputs:
            # a boundary that is both input and output: an identity wire
            if pos == 0: x = fresh(); wires[v] = [x]; open_vars.append(x)
        elif len(ws) == 1 and pos == 1:
            x = fresh(); factors.append(((ws[0], x), EQ)); open_vars.append(x)
        else:
            fail("boundary vertex %s has degree %d", v, len(ws))
    for v, (k, val) in vertices.items():
        if k == "B" and v not in used:
            fail("boundary vertex %s is neither input nor output", v)
    # make open variables distinct and only ever appear once
    final = []
    for x in open_vars + gl:
        y = fresh()
        factors.append(((x, y), EQ))
        final.append(y)
    keep = set(final)
    t = eliminate(factors, nv, keep, final)
    return t * scalar


def _mul(fs):
    """einsum-free product of factors by broadcasting; returns (vars, array)."""
    vs = []
    for f in fs:
        for x in f[0]:
            if x not in vs: vs.append(x)
    if len(vs) > 26: raise HarnessError("oracle contraction too wide (%d)" % len(vs))
    out = np.ones([1] * len(vs), dtype=complex)
    for x, a in fs:
        order = sorted(range(len(x)), key=lambda i: vs.index(x[i]))
        b = a.transpose(order) if len(x) else a
        shape = [1] * len(vs)
        for i in order: shape[vs.index(x[i])] = 2
        out = out * b.reshape(shape)
    return vs, out


def eliminate(factors, nv, keep, final):
    factors = list(factors)
    byvar = {}
    live = {}
    for i, f in enumerate(factors):
        live[i] = f
        for x in f[0]: byvar.setdefault(x, set()).add(i)
    nxt = len(factors)
    const = 1.0 + 0j
    todo = set(range(nv)) - set(keep)
    free = 0
    for x in list(todo):
        if x not in byvar:
            todo.discard(x); free += 1
    const *= 2.0 ** free
    # drop scalar factors
    for i in list(live):
        if not live[i][0]:
            const *= complex(live[i][1]); del live[i]
    nb = {x: set().union(*[set(live[i][0]) for i in byvar[x]]) - {x} for x in byvar}
    while todo:
        x = min(todo, key=lambda y: (len(nb[y]), y))
        todo.discard(x)
        ids = sorted(byvar[x])
        vs, arr = _mul([live[i] for i in ids])
        ax = vs.index(x)
        arr = arr.sum(axis=ax)
        rest = vs[:ax] + vs[ax + 1:]
        for i in ids:
            for y in live[i][0]: byvar[y].discard(i)
            del live[i]
        for y in rest: nb[y].discard(x)
        if not rest:
            const *= complex(arr)
            continue
        live[nxt] = (tuple(rest), arr)
        for y in rest:
            byvar[y].add(nxt)
            nb[y].update(z for z in rest if z != y)
        nxt += 1
    vs, arr = _mul([live[i] for i in sorted(live)]) if live else ([], np.array(1.0 + 0j))
    if set(vs) != set(final): raise HarnessError("oracle lost a leg")
    if final:
        arr = arr.transpose([vs.index(x) for x in final])
    return const * arr


def read_graph(g, with_ground=False):
    """Library graph -> plain data for contract()."""
    from pyzx.utils import VertexType, EdgeType
    km = {VertexType.BOUNDARY: "B", VertexType.Z: "Z", VertexType.X: "X", VertexType.H_BOX: "H",
          VertexType.W_INPUT: "W", VertexType.W_OUTPUT: "W", VertexType.Z_BOX: "ZB"}
    em = {EdgeType.SIMPLE: "s", EdgeType.HADAMARD: "h", EdgeType.W_IO: "s"}
    vs = {}
    for v in g.vertices():
        k = km[g.type(v)]
        vs[v] = (k, zbox_label(g, v) if k == "ZB" else g.phase(v))
    es = [(s, t, em[ty]) for s, t, ty in edge_list(g)]
    return vs, es


def graph_tensor(g, preserve_scalar=True):
    """Tensor of a library graph: axes outputs then inputs."""
    vs, es = read_graph(g)
    sc = complex(g.scalar.to_number()) if preserve_scalar else 1.0
    return contract(vs, es, list(g.inputs()), list(g.outputs()), sc)


def graph_matrix(g, preserve_scalar=True):
    n = len(g.inputs())
    if n > WIDE: # see start()
        vs, es = read_graph(g)
        if set(g.inputs()) & set(g.outputs()): raise HarnessError("a wide diagram whose inputs are outputs")
        sc = complex(g.scalar.to_number()) if preserve_scalar else 1.0
        cols = []
        for k in range(3):
            w = dict(vs)
            for v, a in zip(g.inputs(), wide_labels(n, k)): w[v] = ("ZB", a)
            cols.append(contract(w, es, [], list(g.outputs()), sc).ravel())
        return np.array(cols).T
    t = graph_tensor(g, preserve_scalar)
    return t.reshape(2 ** len(g.outputs()), 2 ** len(g.inputs()))


def graph_cpmap(g):
    """Completely positive map of a diagram with ground vertices: M (outputs, inputs, ground legs) ->
    sum over ground legs of M (x) conj(M)."""
    vs, es = read_graph(g)
    gr = sorted(g.grounds())
    no, ni = len(g.outputs()), len(g.inputs())
    t = contract(vs, es, list(g.inputs()), list(g.outputs()), 1.0, gr)
    m = t.reshape(2 ** (no + ni), 2 ** len(gr))
    sc = complex(g.scalar.to_number())
    return (m @ m.conj().T) * abs(sc) ** 2


# ---------------------------------------------------------------- phases
def phase_is_clifford(p):
    return (2 * Fraction(p)).denominator == 1

def nonclifford_count(g):
    n = 0
    from pyzx.utils import VertexType
    for v in g.vertices():
        if g.type(v) in (VertexType.Z, VertexType.X) and not phase_is_clifford(g.phase(v)): n += 1
    return n
