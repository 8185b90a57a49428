"""An independent reading of OpenQASM: gate semantics by QASM name, rendering of program trees to text
and a tiny reader for the flat programs the exporter writes."""
import math, re
import numpy as np
from . import oracle as o

# name -> (qubits, parameters, matrix(params in units of pi))
Q = {
    "x": (1, 0, lambda: o.X1), "y": (1, 0, lambda: o.Y1), "z": (1, 0, lambda: o.Z1), "h": (1, 0, lambda: o.H1),
    "s": (1, 0, lambda: o.S1), "sdg": (1, 0, lambda: o.S1.conj()), "t": (1, 0, lambda: o.T1), "tdg": (1, 0, lambda: o.T1.conj()),
    "sx": (1, 0, lambda: o.SX1), "sxdg": (1, 0, lambda: o.SX1.conj().T), "id": (1, 0, lambda: np.eye(2)),
    "rx": (1, 1, o.Rx), "ry": (1, 1, o.Ry), "rz": (1, 1, o.Rz), "p": (1, 1, o.Zp), "u1": (1, 1, o.Zp),
    "u2": (1, 2, lambda p, l: o.U3m(0.5, p, l)), "u3": (1, 3, o.U3m), "u": (1, 3, o.U3m), "U": (1, 3, o.U3m),
    "cx": (2, 0, lambda: o.ctrl(o.X1)), "CX": (2, 0, lambda: o.ctrl(o.X1)), "cy": (2, 0, lambda: o.ctrl(o.Y1)),
    "cz": (2, 0, lambda: o.ctrl(o.Z1)), "ch": (2, 0, lambda: o.ctrl(o.H1)), "csx": (2, 0, lambda: o.ctrl(o.SX1)),
    "swap": (2, 0, lambda: o.SWAPm),
    "crx": (2, 1, lambda a: o.ctrl(o.Rx(a))), "cry": (2, 1, lambda a: o.ctrl(o.Ry(a))), "crz": (2, 1, lambda a: o.ctrl(o.Rz(a))),
    "cp": (2, 1, lambda a: o.ctrl(o.Zp(a))), "cphase": (2, 1, lambda a: o.ctrl(o.Zp(a))), "cu1": (2, 1, lambda a: o.ctrl(o.Zp(a))),
    "rxx": (2, 1, o.rxx), "rzz": (2, 1, o.rzz),
    "cu3": (2, 3, lambda t, p, l: o.ctrl(o.U3m(t, p, l))),
    "cu": (2, 4, lambda t, p, l, g: o.ctrl(np.exp(1j * math.pi * float(g)) * o.U3m(t, p, l))),
    "ccx": (3, 0, lambda: o.ctrl(o.ctrl(o.X1))), "ccz": (3, 0, lambda: o.ctrl(o.ctrl(o.Z1))), "cswap": (3, 0, lambda: o.ctrl(o.SWAPm)),
}

def apply(U, name, params, qs, n):
    return o.apply_matrix(U, np.asarray(Q[name][2](*params), dtype=complex), qs, n)

LINE = re.compile(r"([A-Za-z]\w*)(?:\(([^)]*)\))? (q\[\d+\](?:, q\[\d+\])*);")

def read_flat(text, version):
    """The exporter's output -> (n, U, [(name, params, qubits)]).  Returns a string on malformed text."""
    lines = text.splitlines()
    head = ["OPENQASM 2.0;", 'include "qelib1.inc";'] if version == 2 else ["OPENQASM 3;", 'include "stdgates.inc";']
    if lines[:2] != head: return "wrong header %r" % lines[:2]
    m = re.fullmatch(r"qreg q\[(\d+)\];" if version == 2 else r"qubit\[(\d+)\] q;", lines[2])
    if not m: return "wrong register declaration %r" % lines[2]
    n = int(m.group(1)); U = o.start(n); ops = []
    for l in lines[3:]:
        if not l.strip(): continue
        m = LINE.fullmatch(l.strip())
        if not m: return "malformed line %r" % l
        name, ps, qs = m.group(1), m.group(2), [int(x) for x in re.findall(r"q\[(\d+)\]", m.group(3))]
        if name not in Q: return "unknown gate %r" % l
        params = []
        for p in (ps.split(",") if ps is not None else []):
            mm = re.fullmatch(r"\s*(-?[\d.]+(?:e-?\d+)?)\*pi\s*", p)
            if not mm: return "malformed parameter %r" % l
            params.append(float(mm.group(1)))
        k, np_, _ = Q[name]
        if len(qs) != k or len(params) != np_ or len(set(qs)) != k or max(qs) >= n: return "bad arguments %r" % l
        U = apply(U, name, params, qs, n); ops.append((name, params, qs))
    return n, U, ops
