"""Circuit algebra as a history over a pool of circuits, modelled by unitaries."""
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, fail, cut
from .. import gens, oracle

RULE = ("Histories of up to 10 construction operations (append, prepend, in-place and pure composition, masked composition, "
        "tensor, adjoint, copy, mutation of a gate) over a pool of circuits (1-4 qubits, in part 2-12 judged on product states); every circuit in the pool is compared with its "
        "model unitary after every step. Non-trivial: at least two binary/adjoint operations on non-empty circuits.")
ASSUMPTIONS = ["Equality up to a global phase.", "Modifying means calling methods of a circuit or changing a phase gate that belongs to it."]
NQ = 4

@st.composite
def history(draw, nq=NQ, sizes=((1, 3),)):
    """nq: largest number of qubits; sizes: ranges of the sizes of the first circuits (each range at least once)."""
    pool = draw(st.lists(gens.circuit(*sizes[0], 0, 6), min_size=2, max_size=3))
    for a, b in sizes[1:]: pool += draw(st.lists(gens.circuit(a, b, 1, 6), min_size=1, max_size=2))
    ops = []
    g3 = gens.gate(nq, gens.ALL, gens.phase_any)
    m = draw(st.integers(1, 10))
    for _ in range(m):
        k = draw(st.sampled_from(["append", "prepend", "add", "iadd", "mask", "tensor", "matmul", "adjoint", "adjoint", "copy",
                                  "mutate", "mutate", "addgate", "rowadd", "iaddgate", "addgates"]))
        op = [k, draw(st.integers(0, 7)), draw(st.integers(0, 7))]
        if k in ("append", "prepend", "addgate", "iaddgate"): op.append(draw(g3))
        if k == "addgates": op.append(draw(st.lists(st.sampled_from(["S", "T", "HAD", "Z", "NOT", "H", "SX", "Y"]), min_size=1, max_size=5)))
        if k == "mask": op.append(draw(st.permutations(list(range(nq)))))
        if k == "mutate": op.append(draw(gens.phase_red))
        ops.append(op)
    return {"pool": pool, "ops": ops} if nq == NQ else {"pool": pool, "ops": ops, "nq": nq}

class Bounded(list):
    """Gate list of a circuit that is added to itself: must not grow for ever."""
    def append(self, x):
        if len(self) > 200: raise RuntimeError("adding a circuit to itself does not end")
        super().append(x)

def fit(g, n):
    """Squeeze a gate drawn for NQ qubits into n qubits (drop if impossible)."""
    nm, qs, ph = g
    if max(qs) < n: return g
    k = len(qs)
    if k > n: return None
    order = sorted(qs)
    return [nm, [order.index(q) for q in qs], ph]

def check(spec, rec):
    import pyzx as zx
    pool = [(gens.build_circuit(c), [list(g) for g in c["gates"]]) for c in spec["pool"]]
    # model: list of [name, qubits, phases] kept by us, independent of the gate objects
    binops = 0
    def verify(i, when):
        c, m = pool[i]
        for g in c.gates:
            if type(g).__name__ == "RZZ" and (tuple(g.targets) != (g.control, g.target)):
                fail("after %s: RZZ gate with targets %r but control/target %r", when, tuple(g.targets), (g.control, g.target))
        n = c.qubits
        if len(c) != len(m) or [id(x) for x in c] != [id(x) for x in c.gates]: fail("after %s: circuit %d has length %d and lists %d gates, not %d", when, i, len(c), len(list(c)), len(m))
        U = model_unitary(n, m)
        if not oracle.same_up_to_phase(oracle.lib_circuit_unitary(c), U):
            fail("after %s: circuit %d implements the wrong unitary", when, i)
    def model_unitary(n, m):
        U = oracle.start(n)
        for g in m:
            nm, qs, ph = g[:3]
            M = oracle.gate_matrix(nm, [gens.P(p) for p in ph], len(qs))
            if len(g) > 3 and g[3]: M = M.conj().T
            U = oracle.apply_matrix(U, M, qs, n)
        return U
    def madj(m): return [[g[0], g[1], g[2], not (len(g) > 3 and g[3])] for g in reversed(m)]
    def mshift(m, f): return [[g[0], [f[q] for q in g[1]]] + list(g[2:]) for g in m]
    def push(c, m):
        pool.append((c, m))
    for op in spec["ops"]:
        k = op[0]
        i = op[1] % len(pool); j = op[2] % len(pool)
        ci, mi = pool[i]; cj, mj = pool[j]
        ci0 = {i: ci.qubits}
        if k in ("append", "prepend"):
            g = fit(op[3], ci.qubits)
            if g is None: continue
            with cut(k):
                (ci.add_gate if k == "append" else ci.prepend_gate)(gens.make_gate(*g))
            if k == "append": mi.append(list(g))
            else: mi.insert(0, list(g))
        elif k == "add":
            if ci.qubits != cj.qubits: continue
            with cut(k): c = ci + cj
            push(c, list(mi) + list(mj)); binops += bool(mi) and bool(mj)
        elif k == "iadd":
            if ci.qubits != cj.qubits or len(mi) + len(mj) > 40: continue
            with cut(k): ci += cj
            if ci is not pool[i][0]: fail("+= did not update in place")
            mi.extend([list(g) for g in mj]); binops += bool(mj)
        elif k == "mask":
            if cj.qubits > ci.qubits or len(mi) + len(mj) > 40: continue
            mask = [x for x in op[3] if x < ci.qubits][:cj.qubits]
            if i == j: ci.gates = Bounded(ci.gates); rec.label("self")
            with cut(k): ci.add_circuit(cj, mask=mask)
            if i == j: ci.gates = list(ci.gates)
            mi.extend(mshift(mj, mask)); binops += bool(mj)
        elif k in ("tensor", "matmul"):
            if ci.qubits + cj.qubits > spec.get("nq", NQ): continue
            with cut(k): c = ci.tensor(cj) if k == "tensor" else ci @ cj
            if c.qubits != ci.qubits + cj.qubits: fail("tensor has %d qubits", c.qubits)
            push(c, list(mi) + mshift(mj, [q + ci.qubits for q in range(cj.qubits)])); binops += bool(mi) and bool(mj)
        elif k == "adjoint":
            with cut(k): c = ci.adjoint()
            push(c, madj(mi)); binops += bool(mi)
        elif k == "copy":
            with cut(k): c = ci.copy()
            if (c.qubits, c.bits, c.name) != (ci.qubits, ci.bits, ci.name): fail("copy lost qubits, bits or name")
            push(c, list(mi))
        elif k == "mutate":
            cand = [x for x, g in enumerate(ci.gates) if type(g).__name__ in ("ZPhase", "XPhase")]
            if not cand: continue
            x = cand[op[2] % len(cand)]
            ci.gates[x].phase = gens.P(op[3])
            old = mi[x]
            mi[x] = [old[0], old[1], [op[3]]]
        elif k == "addgate":
            g = fit(op[3], ci.qubits)
            if g is None: continue
            with cut(k): c = ci + gens.make_gate(*g)
            push(c, list(mi) + [list(g)])
        elif k == "iaddgate":   # a gate beyond the last qubit makes the circuit wider
            if len(mi) > 40: continue
            g = gens.make_gate(*op[3])
            with cut(k): ci += g
            if ci is not pool[i][0]: fail("+= did not update in place")
            n = max(ci0[i], 1 + max(op[3][1]))
            if ci.qubits != n: fail("after += with a gate on qubits %s the circuit has %d qubits, not %d", op[3][1], ci.qubits, n)
            mi.append(list(op[3]))
        elif k == "addgates":
            q = op[2] % ci.qubits
            with cut(k): ci.add_gates(" ".join(op[3]), q)
            mi.extend([[{"H": "HAD"}.get(x, x), [q], []] for x in op[3]])
        elif k == "rowadd":
            if ci.qubits < 2: continue
            with cut(k): ci.row_add(0, 1); ci.col_add(0, ci.qubits - 1)
            mi.append(["CNOT", [0, 1], []]); mi.insert(0, ["CNOT", [ci.qubits - 1, 0], []])
        if len(pool) > 8: pool.pop(0)
        for x in range(len(pool)):
            verify(x, k)
    for c, m in pool[-2:]:
        if c.qubits > 6: continue
        with cut("to_matrix"): M = np.asarray(c.to_matrix())
        if not oracle.same_up_to_phase(M, model_unitary(c.qubits, m)): fail("matrix of the final circuit is wrong")
    rec.nt(binops >= 2)

def check_eq(spec, rec):
    """Gate equality: equal gates have equal action; a gate equals its copy; different actions are unequal."""
    a, b = gens.make_gate(*spec["a"]), gens.make_gate(*spec["b"])
    n = 3
    Ma = oracle.circuit_unitary(n, [spec["a"]]); Mb = oracle.circuit_unitary(n, [spec["b"]])
    with cut("gate =="):
        if not (a == a.copy()): fail("gate differs from its copy: %s", a)
        if a == b and not oracle.same_up_to_phase(Ma, Mb): fail("gates compare equal but act differently: %s, %s", a, b)
        if not (a == gens.make_gate(*spec["a"])): fail("identically built gates differ")
        d = a.to_adjoint()
    Ud = oracle.circuit_unitary(n, [spec["a"]]).conj().T
    import pyzx as zx
    c = zx.Circuit(n); c.add_gate(d)
    if not oracle.same_up_to_phase(oracle.lib_circuit_unitary(c), Ud): fail("adjoint of %s acts wrongly", a)
    if not oracle.same_up_to_phase(np.asarray(c.to_matrix()), Ud): fail("adjoint of %s has the wrong matrix", a)
    with cut("reposition"):
        r = a.reposition(spec["mask"])
    c = zx.Circuit(n); c.add_gate(r)
    Ur = oracle.circuit_unitary(n, [[spec["a"][0], [spec["mask"][q] for q in spec["a"][1]], spec["a"][2]]])
    if not oracle.same_up_to_phase(oracle.lib_circuit_unitary(c), Ur): fail("repositioned %s acts wrongly", a)
    if not oracle.same_up_to_phase(np.asarray(c.to_matrix()), Ur): fail("repositioned %s has the wrong matrix", a)
    if not (a == gens.make_gate(*spec["a"])): fail("to_adjoint/reposition changed the gate itself")
    with cut("gate arithmetic"):
        cc = a + b
        ct = a @ b
    ma, mb = max(spec["a"][1]), max(spec["b"][1])
    Uab = oracle.circuit_unitary(max(ma, mb) + 1, [spec["a"], spec["b"]])
    if not oracle.same_up_to_phase(oracle.lib_circuit_unitary(cc), Uab): fail("gate + gate acts wrongly")
    Ut = oracle.circuit_unitary(ma + mb + 2, [spec["a"], [spec["b"][0], [q + ma + 1 for q in spec["b"][1]], spec["b"][2]]])
    if not oracle.same_up_to_phase(oracle.lib_circuit_unitary(ct), Ut): fail("gate @ gate acts wrongly")
    rec.nt(len(spec["a"][1]) > 1 or bool(spec["a"][2])); rec.label(spec["a"][0])

@st.composite
def gatepair(draw):
    names = gens.ALL + ["FSim"]
    a = draw(gens.gate(3, names, gens.phase_any))
    if draw(st.booleans()):
        b = draw(gens.gate(3, names, gens.phase_any))
    else:   # near miss: same kind, something changed
        b = [a[0], list(a[1]), list(a[2])]
        w = draw(st.integers(0, 2))
        if w == 0 and b[2] and a[0] != "FSim": b[2][draw(st.integers(0, len(b[2]) - 1))] = draw(gens.phase_any)
        elif w == 1: b[1] = list(reversed(b[1]))
        elif a[0] != "ParityPhase": b[1] = [(q + 1) % 3 for q in b[1]]
    return {"a": a, "b": b, "mask": draw(st.permutations([0, 1, 2]))}

SUBS = [Sub("history", history, check, 2000), Sub("gate", gatepair, check_eq, 3000),
        Sub("wide", lambda: history(12, ((2, 6), (10, 12))), check, 150)]
