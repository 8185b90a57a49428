"""The other circuit text formats: .qc, Quipper ASCII, qsim, sQASM, emoji; file loading."""
import math, os, re, shutil, tempfile
from fractions import Fraction
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, fail, cut
from .. import gens, oracle, qasm
from . import C15

RULE = ("Circuits of 1-4 qubits (10-12 in part) over every gate kind written as .qc / Quipper / emoji and read back (library reader, independent reader for emoji); generated .qc, "
        "Quipper and qsim programs with comments, labels, case variation, negative and multiple controls; files of every format with and without extension. "
        "Non-trivial: at least three gates.")
ASSUMPTIONS = [".qc files follow the T-par format (tof/t1..t7, Z with controls, H, S/P, T, X, Y, swap); helper qubits added for many controls start as zero.",
               "Quipper's \"X\" and \"not\" are the Pauli X; QRot exp(-i%P) with angle t is exp(-i t P).",
               "qsim: x_1_2, y_1_2 and hz_1_2 are the square roots of X, Y and (X+Y)/sqrt 2; fs is Cirq's FSimGate.",
               "A format that cannot express a gate may refuse with an exception."]

def dump(c): return [(type(g).__name__, oracle.read_gate(g), getattr(g, "adjoint", None)) for g in c.gates]
def quarter(ph): return all(Fraction(p).denominator in (1, 2, 4) for p in ph)
QC_MUST = {"ZPhase", "XPhase", "Z", "S", "S*", "T", "T*", "NOT", "Y", "HAD", "SX", "SX*", "CNOT", "CZ", "CY", "XCX", "SWAP", "CCZ", "TOF", "CSWAP", "ParityPhase"}

def check_rt(spec, rec):
    import pyzx as zx
    f = spec["f"]; U = gens.unitary(spec["c"]); c = gens.build_circuit(spec["c"]); d0 = dump(c); n = c.qubits
    if spec["adj"]:
        c = c.adjoint(); U = U.conj().T; d0 = dump(c)
    gs = spec["c"]["gates"]
    must = f == "quipper" or all(g[0] in QC_MUST and quarter(g[2]) for g in gs)
    try:
        text = c.to_qc() if f == "qc" else c.to_quipper()
    except Exception as e:
        if must: fail("to_%s refused an expressible circuit: %s: %s", f, type(e).__name__, e)
        rec.label("refused")
        return
    if dump(c) != d0: fail("to_%s changed the circuit", f)
    with cut("from_" + f):
        c2 = zx.Circuit.from_qc(text) if f == "qc" else zx.Circuit.from_quipper(text)
    if c2.qubits != n: fail("%s round trip gave %d qubits instead of %d", f, c2.qubits, n)
    if not oracle.same_up_to_phase(oracle.lib_circuit_unitary(c2), U, 1e-6): fail("%s round trip changed the unitary", f)
    rec.nt(len(gs) >= 3); rec.label(f)

def check_file(spec, rec):
    import pyzx as zx
    U = gens.unitary(spec["c"]); c = gens.build_circuit(spec["c"]); n = c.qubits
    f, ext = spec["f"]
    with cut("to_" + f):
        text = {"qasm": c.to_qasm, "qasm3": lambda: c.to_qasm(3), "qc": c.to_qc, "quipper": c.to_quipper}[f]()
    d = tempfile.mkdtemp(prefix="pbt16")
    try:
        p = os.path.join(d, spec["name"] + ext)
        with open(p, "w") as fh: fh.write(text)
        with cut("load"):
            c2 = zx.Circuit.load(p) if not spec["direct"] else \
                {"qasm": zx.Circuit.from_qasm_file, "qasm3": zx.Circuit.from_qasm_file, "qc": zx.Circuit.from_qc_file, "quipper": zx.Circuit.from_quipper_file}[f](p)
    finally:
        shutil.rmtree(d)
    if c2.qubits != n or not oracle.same_up_to_phase(oracle.lib_circuit_unitary(c2), U, 1e-6): fail("a %s file with extension %r was loaded as another circuit", f, ext)
    if c2.name != spec["name"] + ext: fail("loaded circuit is called %r", c2.name)
    rec.nt(len(spec["c"]["gates"]) >= 3); rec.label(f + ext)

# ---------------------------------------------------------------- .qc programs
ONEQ = {"tof": "NOT", "t1": "NOT", "not": "NOT", "X": "NOT", "x": "NOT", "Z": "Z", "z": "Z", "S": "S", "s": "S", "P": "S", "p": "S", "S*": "S*", "P*": "S*", "p*": "S*",
        "T": "T", "t": "T", "T*": "T*", "t*": "T*", "H": "HAD", "h": "HAD", "Y": "Y"}
@st.composite
def qc_program(draw, wide=False):
    n = draw(st.integers(1, 6))
    if wide: n = draw(st.integers(10, 12))
    labs = draw(st.permutations(["a", "b", "c0", "x1", "q7", "s", "t", "H"] + (["q10", "q1", "x12", "11"] if wide else [])))[:n]
    lines = []
    for _ in range(draw(st.integers(0, 8))):
        k = draw(st.integers(0, 9))
        qs = draw(st.permutations(range(n)))
        if k <= 2 or n == 1: lines.append([draw(st.sampled_from(sorted(ONEQ))), qs[:1]])
        elif k <= 5 or n == 2: lines.append([draw(st.sampled_from(["tof", "t2", "cnot", "Tof", "T2", "Z", "cz", "CZ", "swap", "SWAP"])), qs[:2]])
        elif k <= 7 or n == 3 or wide: lines.append([draw(st.sampled_from(["tof", "t3", "Tof", "Z", "ccz"])), qs[:3]])
        else: m = draw(st.integers(4, n)); lines.append([draw(st.sampled_from(["tof", "t%d" % m])), qs[:m]])
    return {"labels": list(labs), "lines": lines, "style": draw(st.lists(st.integers(0, 5), min_size=8, max_size=8)), "io": draw(st.integers(0, 2))}

def mcx(k):
    m = np.eye(2 ** k, dtype=complex); m[[-1, -2]] = m[[-2, -1]]; return m

def check_qc(spec, rec):
    import pyzx as zx
    labs = spec["labels"]; n = len(labs); s = spec["style"]; i = [0]
    def nx(m): i[0] += 1; return s[i[0] % len(s)] % m
    text = ["", "# a comment\n"][nx(2)] + ".v " + [" ", ","][nx(2)].join(labs) + "\n"
    if spec["io"]: text += ".i " + " ".join(labs[::-1]) + "\n" + [".o " + " ".join(labs) + "\n", ""][nx(2)]
    text += ["", "\n"][nx(2)] + "BEGIN\n"
    U = oracle.start(n); anc = 0
    for g, qs in spec["lines"]:
        text += ["", "", "# H a\n", "\n", "  "][nx(5)] + g + " " + [" ", ",", ", ", "  "][nx(4)].join(labs[q] for q in qs) + "\n"
        k = len(qs); gl = g.lower()
        if k == 1: U = oracle.apply_matrix(U, oracle.gate_matrix(ONEQ[g], [], 1), qs, n)
        elif gl == "swap": U = oracle.apply_matrix(U, oracle.SWAPm, qs, n)
        elif gl in ("z", "cz", "ccz"):
            m = np.eye(2 ** k, dtype=complex); m[-1, -1] = -1
            U = oracle.apply_matrix(U, m, qs, n)
        else: U = oracle.apply_matrix(U, mcx(k), qs, n)
        anc = max(anc, k - 3) if k > 3 else anc
    text += "END" + ["", "\n"][nx(2)]
    with cut("from_qc"):
        c = zx.Circuit.from_qc(text)
    if c.qubits != n + anc: fail("read %d qubits, expected %d and %d helpers", c.qubits, n, anc)
    V = oracle.lib_circuit_unitary(c)
    if not anc:
        if not oracle.same_up_to_phase(V, U): fail(".qc program read as another circuit: %r", text)
        rec.nt(len(spec["lines"]) >= 3)
        return
    # helpers are the last qubits: start and end as zero
    V = V.reshape(2 ** n, 2 ** anc, 2 ** n, 2 ** anc)[:, :, :, 0]
    if np.abs(V[:, 1:, :]).max(initial=0) > 1e-7: fail("helper qubits do not return to zero")
    if not oracle.same_up_to_phase(V[:, 0, :], U): fail(".qc program read as another circuit: %r", text)
    rec.nt(len(spec["lines"]) >= 3)
    if anc: rec.label("helpers%d" % anc)

@st.composite
def qc_many(draw):
    """Not gates with four to six controls: helpers are shared between lines."""
    n = draw(st.integers(5, 7))
    lines = []
    for i in range(draw(st.integers(1, 3))):
        qs = list(draw(st.permutations(range(n)))); m = draw(st.integers(5, n)) if i == 0 else draw(st.integers(4, n))
        lines.append([draw(st.sampled_from(["tof", "t%d" % m])), qs[:m]])
        if draw(st.booleans()): lines.append([draw(st.sampled_from(["H", "T", "X", "S"])), qs[:1]])
    return {"labels": list(draw(st.permutations(["a", "b", "c0", "x1", "q7", "s", "t"])))[:n], "lines": lines}

def check_qc_many(spec, rec):
    """Helpers start at zero; only those columns are followed."""
    import pyzx as zx
    labs = spec["labels"]; n = len(labs); most = max(len(qs) - 1 for _, qs in spec["lines"])
    text = ".v " + " ".join(labs) + "\n\nBEGIN\n" + "".join("%s %s\n" % (g, " ".join(labs[q] for q in qs)) for g, qs in spec["lines"]) + "END\n"
    with cut("from_qc"):
        c = zx.Circuit.from_qc(text)
    anc = c.qubits - n
    if anc != max(0, most - 2): fail("read %d qubits for %d wires and %d controls", c.qubits, n, most)
    U = np.eye(2 ** n, dtype=complex)
    for g, qs in spec["lines"]:
        U = oracle.apply_matrix(U, mcx(len(qs)) if len(qs) > 1 else oracle.gate_matrix(ONEQ[g], [], 1), qs, n)
    V = np.zeros((2 ** n, 2 ** anc, 2 ** n), dtype=complex); V[:, 0, :] = np.eye(2 ** n); V = V.reshape(2 ** (n + anc), 2 ** n)
    for name, qs, ph in oracle.read_circuit(c):
        V = oracle.apply_matrix(V, oracle.gate_matrix(name, ph, len(qs)), [int(q) for q in qs], n + anc)
    V = V.reshape(2 ** n, 2 ** anc, 2 ** n)
    if np.abs(V[:, 1:, :]).max(initial=0) > 1e-7: fail("helper qubits do not return to zero: %r", text)
    if not oracle.same_up_to_phase(V[:, 0, :], U, 1e-6): fail(".qc program read as another circuit: %r", text)
    rec.nt(most > 3 and sum(len(qs) > 3 for _, qs in spec["lines"]) > 1); rec.label("controls%d" % most)

# ---------------------------------------------------------------- Quipper programs
@st.composite
def quip_program(draw, lo=1, hi=4):
    n = draw(st.integers(lo, hi)); lines = []
    for _ in range(draw(st.integers(0, 8))):
        qs = draw(st.permutations(range(n)))
        k = draw(st.sampled_from(["g", "g", "rot", "c", "c", "cc", "skip"]))
        if k == "g" or (n == 1 and k in ("c", "cc")):
            nm = draw(st.sampled_from(["H", "not", "Z", "S", "T", "X", "Y"])); lines.append([k[:1] if k == "g" else "g", nm, qs[:1], draw(st.booleans()), draw(st.integers(0, 1))])
        elif k == "rot": lines.append(["rot", draw(st.sampled_from(["Z", "X", "Y"])), qs[:1], draw(st.sampled_from(["0.7853981633974483", "-0.39269908169872414", "1.5", "0", "3.0e-1"])), 0])
        elif k == "c" or n == 2: lines.append(["c", draw(st.sampled_from(["not", "Z", "X"])), qs[:2], True, draw(st.integers(0, 1))])
        elif k == "cc": lines.append(["cc", draw(st.sampled_from(["not", "Z"])), qs[:3], [draw(st.booleans()), draw(st.booleans())], draw(st.integers(0, 1))])
        else: lines.append(["skip", draw(st.sampled_from(["Comment[\"hello\"](0:\"q\")", "QTerm0(0)", "QInit0(0)", "QDiscard(0)", "QMeas(0)"])), [], 0, 0])
    return {"n": n, "lines": lines, "comma": draw(st.booleans())}

ROT = {"Z": oracle.Rz, "X": oracle.Rx, "Y": oracle.Ry}
def check_quip(spec, rec):
    import pyzx as zx
    n = spec["n"]
    text = "Inputs: " + ", ".join("%d:Qbit" % i for i in range(n)) + ("," if spec["comma"] else "") + "\n"
    U = oracle.start(n)
    for k, nm, qs, a, tail in spec["lines"]:
        end = " with nocontrol" if tail else ""
        if k == "skip": text += nm + "\n"; continue
        if k == "g":
            adj = a and nm in ("S", "T")
            text += 'QGate["%s"]%s(%d)%s\n' % (nm, "*" if adj else "", qs[0], end)
            m = {"H": oracle.H1, "not": oracle.X1, "X": oracle.X1, "Y": oracle.Y1, "Z": oracle.Z1, "S": oracle.S1, "T": oracle.T1}[nm]
            if adj: m = m.conj()
        elif k == "rot":
            text += 'QRot["exp(-i%%%s)",%s](%d)\n' % (nm, a, qs[0])
            m = ROT[nm](2 * float(a) / math.pi)
        elif k == "c":
            text += 'QGate["%s"](%d) with controls=[+%d]%s\n' % (nm, qs[1], qs[0], end)
            m = oracle.ctrl(oracle.Z1 if nm == "Z" else oracle.X1)
        else:
            text += 'QGate["%s"](%d) with controls=[%s%d, %s%d]%s\n' % (nm, qs[2], "+-"[a[0]], qs[0], "+-"[a[1]], qs[1], end)
            m = np.eye(8, dtype=complex); b = (0 if a[0] else 4) + (0 if a[1] else 2)
            m[b:b + 2, b:b + 2] = oracle.Z1 if nm == "Z" else oracle.X1
        U = oracle.apply_matrix(U, m, qs, n)
    text += "Outputs: " + ", ".join("%d:Qbit" % i for i in range(n))
    with cut("from_quipper"):
        c = zx.Circuit.from_quipper(text)
    if c.qubits != n: fail("read %d qubits instead of %d", c.qubits, n)
    if not oracle.same_up_to_phase(oracle.lib_circuit_unitary(c), U, 1e-6): fail("Quipper program read as another circuit: %r", text)
    rec.nt(len(spec["lines"]) >= 3)

def check_refuse(spec, rec):
    """Lines that a reader does not know are refused."""
    import pyzx as zx
    f, line = spec["bad"]
    if f == "qc": text = ".v a b c\n\nBEGIN\nH a\n%s\nT b\nEND\n" % line; rd = zx.Circuit.from_qc
    elif f == "quipper": text = "Inputs: 0:Qbit, 1:Qbit, 2:Qbit\nQGate[\"H\"](0)\n%s\nOutputs: 0:Qbit, 1:Qbit, 2:Qbit" % line; rd = zx.Circuit.from_quipper
    else:
        from pyzx.circuit.qsimparser import parse_qsim
        text = "3\n0 x_1_2 0\n%s\n2 y_1_2 1\n" % line; rd = parse_qsim
    rec.nt(); rec.label(f)
    try: c = rd(text)
    except Exception: return
    fail("%s line %r is not refused: %s", f, line, c.gates)

BAD = [["qc", x] for x in ("foo a", "H d", "H", "cnot a b c", "H a b", "S a b c", "V a", "swap a", "T a b", "X a b c d", "tof", "H a b c d")] + \
      [["quipper", x] for x in ('QGate["V"](0)', 'QRot["exp(-i%W)",0.3](0)', 'QRot["exp(-i%Z)",x](0)', 'QGate["not"](0) with controls=[-1]', 'QGate["H"](0) with controls=[+1]',
                                'QGate["S"](0) with controls=[+1, +2]', 'Subroutine["f"](0)', 'QGate["iX"](0)', 'CGate["not"](0)')] + \
      [["qsim", x] for x in ("1 foo 0", "1 cx 0 1", "1 rzz 0 0.3", "1 t 0", "x", "1 fs 0", "1 rz 0", "1 swap 0 1")]

# ---------------------------------------------------------------- qsim
W = (oracle.X1 + oracle.Y1) / math.sqrt(2)
def root(m):  # principal square root of an involution
    return (1 + 1j) / 2 * np.eye(2) + (1 - 1j) / 2 * m
@st.composite
def qsim_program(draw, lo=1, hi=4):
    n = draw(st.integers(lo, hi)); lines = []
    for _ in range(draw(st.integers(0, 10))):
        qs = draw(st.permutations(range(n)))
        k = draw(st.sampled_from(["rz", "hz_1_2", "x_1_2", "y_1_2", "fs"]))
        if k == "fs" and n == 1: k = "rz"
        ps = [draw(st.sampled_from([0.3, -1.2, 0.7853981633974483, 1.5707963267948966, 3.0])) for _ in range({"rz": 1, "fs": 2}.get(k, 0))]
        if k == "fs": ps[0] = draw(st.sampled_from([1.5707963267948966, -1.5707963267948966]))  # other angles are refused
        lines.append([k, qs[:2] if k == "fs" else qs[:1], ps])
    return {"n": n, "lines": lines, "blank": draw(st.booleans())}

def check_qsim(spec, rec):
    from pyzx.circuit.qsimparser import parse_qsim
    n = spec["n"]; text = "%d\n" % n; U = oracle.start(n)
    for t, (k, qs, ps) in enumerate(spec["lines"]):
        text += "%d %s %s\n" % (t, k, " ".join([str(q) for q in qs] + [repr(p) for p in ps]))
        if spec["blank"] and t % 2: text += "\n"
        m = {"rz": lambda: oracle.Rz(ps[0] / math.pi), "x_1_2": lambda: root(oracle.X1), "y_1_2": lambda: root(oracle.Y1), "hz_1_2": lambda: root(W),
             "fs": lambda: oracle.fsim(ps[0] / math.pi, ps[1] / math.pi)}[k]()
        U = oracle.apply_matrix(U, m, qs, n)
    with cut("parse_qsim"):
        c = parse_qsim(text)
    if c.qubits != n: fail("read %d qubits instead of %d", c.qubits, n)
    if not oracle.same_up_to_phase(oracle.lib_circuit_unitary(c), U, 1e-6): fail("qsim program read as another circuit: %r", text)
    rec.nt(len(spec["lines"]) >= 3)

# ---------------------------------------------------------------- sQASM
def check_sqasm(spec, rec):
    from pyzx.circuit.sqasm import sqasm
    s = dict(spec["p"], style=dict(spec["p"]["style"], v=2)); text = C15.render(s).split("\n", 2)[2]; n, U = C15.meaning(s)
    with cut("sqasm"):
        try: g = sqasm(text, simplify=spec["simplify"])
        except ValueError as e:  # diagrams with H-boxes may need parallel edges, which the storage refuses
            if "unreducible parallel edge" in str(e) and (s["defs"] or any(b[0] in ("ccx", "ccz", "cswap") for b in s["body"])): rec.label("refused"); return
            raise
    M = oracle.graph_matrix(g)
    if not oracle.proportional(M, U): fail("sqasm with plain registers gives another map")
    rec.nt(len(s["body"]) >= 3)

def check_sqasm2(spec, rec):
    """Registers with special names: simplifying or not gives the same map, on the documented number of wires."""
    from pyzx.circuit.sqasm import sqasm
    s = dict(spec["p"], style=dict(spec["p"]["style"], v=2))
    ren = {r: (spec["up"][i % len(spec["up"])] + "_%d" % i if spec["up"][i % len(spec["up"])] != "-" else r) for i, (r, _) in enumerate(s["regs"])}
    s["regs"] = [[ren[r], k] for r, k in s["regs"]]
    s["body"] = [b if len(b) != 3 else [b[0], b[1], [[ren[r], i] for r, i in b[2]]] for b in s["body"]]
    text = C15.render(s).split("\n", 2)[2]
    with cut("sqasm"):
        g = sqasm(text, simplify=False)
        try: h = sqasm(text, simplify=True)
        except ValueError as e:
            if "unreducible parallel edge" in str(e) and (s["defs"] or any(b[0] in ("ccx", "ccz", "cswap") for b in s["body"])): rec.label("refused"); return
            raise
    ni = sum(k for r, k in s["regs"] if not r[0].isupper() or r[0] == "Z")
    no = sum(k for r, k in s["regs"] if not r[0].isupper() or r[0] == "A")
    for x in (g, h):
        if len(x.inputs()) != ni or len(x.outputs()) != no: fail("sqasm gave %d inputs and %d outputs, expected %d and %d", len(x.inputs()), len(x.outputs()), ni, no)
    if not oracle.close(oracle.graph_matrix(g), oracle.graph_matrix(h)): fail("sqasm: simplifying changed the map")
    rec.nt(ni < n_of(s) or no < n_of(s))
def n_of(s): return sum(k for _, k in s["regs"])

# ---------------------------------------------------------------- emoji
PH = {"p4": Fraction(1, 4), "p2": Fraction(1, 2), "3p4": Fraction(3, 4), "p": Fraction(1), "5p4": Fraction(5, 4), "3p2": Fraction(3, 2), "7p4": Fraction(7, 4)}
def check_emoji(spec, rec):
    U = gens.unitary(spec["c"]); c = gens.build_circuit(spec["c"]); n = c.qubits
    from pyzx.circuit.emojiparser import circuit_to_emoji
    try:
        t = circuit_to_emoji(c, compress_rows=spec["compress"])
    except Exception:
        if all(g[0] in ("HAD", "CNOT", "CZ", "NOT", "Z", "S", "T", "S*", "T*") for g in spec["c"]["gates"]): fail("to_emoji refused an expressible circuit")
        rec.label("refused"); return
    rows = [re.findall(r":([A-Za-z0-9_]+):", l) for l in t.split("\n")]
    if len(rows) != n or len({len(r) for r in rows}) > 1: fail("emoji grid is not rectangular")
    V = np.eye(2 ** n, dtype=complex)
    for col in range(len(rows[0])):
        up = None
        for q in range(n):
            e = rows[q][col]
            if up is not None:
                if e == "Wud": continue
                if e not in ("Xu", "Zu"): fail("emoji wire runs into %s", e)
                a, ka = up; up = None
                if ka == e[0]: fail("emoji spiders of the same colour joined")
                V = oracle.apply_matrix(V, oracle.ctrl(oracle.X1), [a, q] if ka == "Z" else [q, a], n)
            elif e in ("Zd", "Xd"): up = (q, e[0])
            elif e == "H_": V = oracle.apply_matrix(V, oracle.H1, [q], n)
            elif e == "W_": pass
            elif e[0] in "ZX" and e[1:] in PH: V = oracle.apply_matrix(V, (oracle.Zp if e[0] == "Z" else oracle.Xp)(PH[e[1:]]), [q], n)
            else: fail("unknown emoji %s", e)
        if up is not None: fail("emoji wire leaves the grid")
    if not oracle.same_up_to_phase(V, U): fail("emoji form shows another circuit")
    rec.nt(len(spec["c"]["gates"]) >= 3)

B = st.booleans()
QTR = st.sampled_from(gens.CLIFF + gens.T_ONLY + ["-1/4", "-1", "2", "9/4", "-1/2", "0"])
ALLQ = tuple(x for x in gens.ALL)
SUBS = [
    Sub("qc_must", lambda: st.fixed_dictionaries({"c": gens.circuit(1, 4, 0, 12, names=tuple(sorted(QC_MUST)), phases=QTR), "f": st.just("qc"), "adj": B}), check_rt, 1500),
    Sub("qc_any", lambda: st.fixed_dictionaries({"c": gens.circuit(1, 4, 0, 4), "f": st.just("qc"), "adj": st.just(False)}), check_rt, 800),
    Sub("quipper_rt", lambda: st.fixed_dictionaries({"c": gens.circuit(1, 4, 0, 12, names=ALLQ), "f": st.just("quipper"), "adj": B}), check_rt, 1500),
    Sub("files", lambda: st.fixed_dictionaries({"c": gens.circuit(1, 3, 0, 8, names=("HAD", "T", "S*", "CNOT", "CZ", "TOF", "NOT", "Z", "CCZ")),
                                                "f": st.sampled_from([["qasm", ".qasm"], ["qasm", ""], ["qasm", ".txt"], ["qasm3", ".qasm"], ["qasm3", ""], ["qc", ".qc"], ["qc", ".tfc"], ["qc", ""],
                                                                      ["quipper", ".quipper"], ["quipper", ""], ["quipper", ".quip"], ["quipper", ".circuit"]]),
                                                "direct": B, "name": st.sampled_from(["c", "my.circuit1", "x-y"])}), check_file, 600),
    Sub("qc_program", qc_program, check_qc, 1200),
    Sub("wide_qc", lambda: st.fixed_dictionaries({"c": gens.circuit(10, 12, 3, 14, names=tuple(sorted(QC_MUST)), phases=QTR), "f": st.just("qc"), "adj": st.just(False)}), check_rt, 120),
    Sub("wide_quipper", lambda: st.fixed_dictionaries({"c": gens.circuit(10, 12, 3, 14, names=ALLQ), "f": st.just("quipper"), "adj": st.just(False)}), check_rt, 120),
    Sub("wide_qc_program", lambda: qc_program(wide=True), check_qc, 120),
    Sub("wide_quipper_program", lambda: quip_program(10, 12), check_quip, 120),
    Sub("wide_qsim", lambda: qsim_program(10, 12), check_qsim, 100),
    Sub("qc_many", qc_many, check_qc_many, 120),
    Sub("quipper_program", quip_program, check_quip, 1200),
    Sub("refusals", lambda: st.fixed_dictionaries({"bad": st.sampled_from(BAD)}), check_refuse, 120, thorough=200, fixed=[{"bad": b} for b in BAD]),
    Sub("qsim", qsim_program, check_qsim, 800),
    Sub("sqasm", lambda: st.fixed_dictionaries({"p": C15.program(6), "simplify": B}), check_sqasm, 500),
    Sub("sqasm_ancilla", lambda: st.fixed_dictionaries({"p": C15.program(5), "up": st.lists(st.sampled_from(["A", "Z", "B", "-"]), min_size=1, max_size=3)}), check_sqasm2, 400),
    Sub("emoji", lambda: st.fixed_dictionaries({"c": gens.circuit(1, 4, 0, 10, names=("HAD", "CNOT", "CZ", "NOT", "Z", "S", "T", "S*", "T*", "SWAP", "XCX", "ZPhase", "XPhase", "SX"), phases=gens.phase_t), "compress": B}), check_emoji, 800),
]
