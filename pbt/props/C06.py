"""Diagram algebra matches linear algebra."""
import numpy as np
import pyzx as zx
from fractions import Fraction
from hypothesis import strategies as st
from ..core import Sub, fail, cut, Reject
from .. import gens, oracle, graphs

RULE = ("Chains of up to 4 operations (compose in both orders and operator forms, tensor, adjoint, states/effects, copy, normalise, "
        "translate, in-place compose) over random diagrams with up to 5 spiders each, direct and Hadamard boundary wires, wires between two "
        "inputs or two outputs, scalars; each step compared with the same operation on matrices. Non-trivial: at least two operations and a "
        "non-zero result, or for structural sub-checks a non-empty selection.")
ASSUMPTIONS = ["Gluing that puts parallel edges on H-boxes or W nodes is refused by the simple backend (documented); those cases are rejected.",
               "merge() and subgraph_from_vertices() do not carry the scalar (documented as vertices and edges only)."]

KINDS = {"zx": ("Z", "Z", "X"), "zh": ("Z", "X", "H"), "ext": ("Z", "X", "ZB", "H", "W")}

@st.composite
def chain(draw, fam, maxops=4):
    k = KINDS[fam]
    def diag(ni=None, no=None):
        return draw(gens.diagram(kinds=k, vmax=4, emax=6, imax=2, omax=2, ni=ni, no=no))
    d = diag()
    ni, no = len(d["in"]), len(d["out"])
    ops = []
    for _ in range(draw(st.integers(1, maxops))):
        o = draw(st.sampled_from(["compose", "compose", "iadd", "mul", "tensor", "adjoint", "state", "effect", "copy", "normalize", "translate", "self", "self"]))
        if o == "self": # the diagram as its own argument
            o = draw(st.sampled_from(["compose", "iadd", "mul"])) if ni == no else "tensor"
            if o == "tensor" and ni + no > 2: continue
            if o == "tensor": ni, no = 2 * ni, 2 * no
            ops.append([o, "self"]); continue
        if o in ("compose", "iadd"):
            e = diag(ni=no); ops.append([o, e]); no = len(e["out"])
        elif o == "mul":
            e = diag(no=ni); ops.append([o, e]); ni = len(e["in"])
        elif o == "tensor":
            if ni + no > 5: continue
            e = diag(); ops.append([o, e]); ni += len(e["in"]); no += len(e["out"])
        elif o in ("state", "effect"):
            m = ni if o == "state" else no
            t = draw(st.text(alphabet="01+-/", min_size=0, max_size=m))
            ops.append([o, t])
            rest = m - sum(1 for c in t if c != "/") if len(t) == m else None
            if rest is None:
                t = t + "/" * (m - len(t)); ops[-1][1] = t
                rest = t.count("/")
            if o == "state": ni = rest
            else: no = rest
        else:
            ops.append([o, None])
            if o == "adjoint": ni, no = no, ni
    return {"d": d, "ops": ops, "backend": draw(st.sampled_from([None, None, "simple", "multigraph"])) if fam == "zx" else None}

KET = {"0": [1, 0], "1": [0, 1], "+": [2 ** -.5] * 2, "-": [2 ** -.5, -2 ** -.5]}
def state_matrix(t):
    M = np.ones((1, 1), dtype=complex)
    for c in t: M = np.kron(M, np.eye(2) if c == "/" else np.array(KET[c]).reshape(2, 1))
    return M

def mat(g): return oracle.graph_matrix(g)

def safe(f):
    """Documented refusal of parallel edges on vertices that are not spiders."""
    try:
        return f()
    except ValueError as e:
        if "unreducible parallel edge" in str(e): raise Reject()
        raise

def check_chain(spec, rec):
    be = spec["backend"]
    g = safe(lambda: gens.build_diagram(spec["d"], be))
    M = mat(g)
    for op, arg in spec["ops"]:
        if arg == "self" and g.num_vertices() > 24: break
        other = safe(lambda: gens.build_diagram(arg, be)) if isinstance(arg, dict) else g if arg == "self" else None
        So = graphs.snapshot(other) if other is not None else None
        Mo = mat(other) if other is not None else None
        Sg = graphs.snapshot(g)
        inplace = op in ("iadd", "state", "effect", "normalize")
        with cut(op):
            if op == "compose": h = safe(lambda: g + other); M2 = Mo @ M
            elif op == "iadd":
                def f():
                    x = g; x.compose(other); return x
                h = safe(f); M2 = Mo @ M
            elif op == "mul": h = safe(lambda: g * other); M2 = M @ Mo
            elif op == "tensor": h = g @ other; M2 = np.kron(M, Mo)
            elif op == "adjoint": h = g.adjoint(); M2 = M.conj().T
            elif op == "state": g.apply_state(arg); h = g; M2 = M @ state_matrix(arg)
            elif op == "effect": g.apply_effect(arg); h = g; M2 = state_matrix(arg).conj().T @ M
            elif op == "copy": h = g.copy(); M2 = M
            elif op == "translate": h = g.translate(2, -1); M2 = M
            elif op == "normalize":
                if not normalizable(g): continue
                g.normalize(); h = g; M2 = M
        if other is not None and other is not h and graphs.diff(graphs.snapshot(other), So): fail("%s changed its second argument: %s", op, graphs.diff(graphs.snapshot(other), So))
        if not inplace and graphs.diff(graphs.snapshot(g), Sg): fail("%s changed its first argument: %s", op, graphs.diff(graphs.snapshot(g), Sg))
        if op == "translate":
            for v, w in zip(g.vertices(), h.vertices()):
                if (h.row(w), h.qubit(w)) != (g.row(v) + 2, g.qubit(v) - 1): fail("translate moved a vertex from %s to %s", (g.row(v), g.qubit(v)), (h.row(w), h.qubit(w)))
        N = mat(h)
        if N.shape != M2.shape: fail("%s: result has shape %s, expected %s", op, N.shape, M2.shape)
        if not oracle.close(N, M2): fail("%s does not match the matrix operation%s", op, " (scalar)" if oracle.proportional(N, M2) else "")
        if not all(h.vertex_degree(v) == 1 for v in h.inputs() + h.outputs()): fail("%s left a badly connected boundary", op)
        rec.label(op)
        if arg == "self": rec.label("self")
        if h is not g or other is not None:
            # the result is independent of its operands
            W = [(x, S) for x, S in ((g, Sg), (other, So)) if x is not None and x is not h]
            v = h.add_vertex(1); h.scalar.add_power(1)
            for w in list(h.vertices()): h.set_vdata(w, "zz", 1)
            h.variable_types["zz"] = False
            for x, S in W:
                if graphs.diff(graphs.snapshot(x), S) or "zz" in x.variable_types: fail("the result of %s shares state with an operand", op)
            h.remove_vertex(v); h.scalar.add_power(-1); del h.variable_types["zz"]
            for w in list(h.vertices()): del h._vdata[w]["zz"]
        g, M = h, M2
    rec.nt(len(spec["ops"]) >= 2 and np.abs(M).max() > 1e-9)

def normalizable(g):
    if g.backend == "multigraph": return False   # normalize edits edges by name, which this backend does not support
    if not g.inputs():
        return all(next(iter(g.neighbors(o))) not in g.outputs() and g.row(next(iter(g.neighbors(o)))) < g.row(o) for o in g.outputs()) and \
            list(g.outputs()) == sorted(g.outputs(), key=g.qubit) and len({g.qubit(o) for o in g.outputs()}) == len(g.outputs())
    return True

def check_sub(spec, rec):
    """subgraph_from_vertices and merge."""
    g = gens.build_diagram(spec["d"], spec["backend"])
    vs = list(g.vertices())
    sel = [v for v, b in zip(vs, spec["sel"] * (len(vs) // len(spec["sel"]) + 1)) if b] if spec["sel"] else vs
    for v, gr in zip(vs, spec["gr"]):
        if gr and g.type(v) == 1: g.set_ground(v)
    S = graphs.snapshot(g)
    with cut("subgraph_from_vertices"):
        h = g.subgraph_from_vertices(list(sel))
    if graphs.diff(graphs.snapshot(g), S): fail("subgraph_from_vertices changed its argument")
    mp = dict(zip(sel, h.vertices()))
    def induced(S):
        return {"v": {v: x for v, x in S["v"].items() if v in sel}, "e": [e for e in S["e"] if e[0] in sel and e[1] in sel],
                "in": (), "out": (), "gr": [v for v in S["gr"] if v in sel], "sc": (1, False)}
    d = graphs.diff(graphs.rename(induced(S), mp), {**graphs.snapshot(h), "sc": (1, False), "in": (), "out": ()})
    if d: fail("subgraph_from_vertices is not the induced subgraph: %s", d)
    # merging it back into another diagram adds exactly a disjoint copy
    k = gens.build_diagram(spec["e"], spec["backend"])
    Sk, Sh = graphs.snapshot(k), graphs.snapshot(h)
    with cut("merge"):
        nv, ne = k.merge(h)
    if graphs.diff(graphs.snapshot(h), Sh): fail("merge changed its argument")
    S2 = graphs.snapshot(k)
    mp2 = dict(zip(h.vertices(), nv))
    if len(nv) != len(Sh["v"]) or any(v in Sk["v"] for v in nv): fail("merge returned vertices %s", nv)
    part = graphs.rename(Sh, mp2)
    want = {"v": {**Sk["v"], **part["v"]}, "e": sorted(Sk["e"] + part["e"]), "in": Sk["in"], "out": Sk["out"], "gr": sorted(Sk["gr"] + part["gr"]), "sc": Sk["sc"]}
    d = graphs.diff(want, S2)
    if d: fail("merge did not add a disjoint copy: %s", d)
    got = sorted(graphs.ekey(*k.edge_st(e), k.edge_type(e)) for e in ne)
    if got != part["e"]: fail("merge returned edges %s, expected %s", got, part["e"])
    k.set_vdata(nv[0], "zz", 1) if nv else None
    if graphs.diff(graphs.snapshot(h), Sh): fail("merge shares vertex data")
    rec.nt(len(sel) >= 2)

def check_io(spec, rec):
    """auto_detect_io finds the boundaries in vertical order; is_id is exact."""
    g = safe(lambda: gens.build_diagram(spec["d"], spec["backend"]))
    ins, outs = g.inputs(), g.outputs()
    # random vertical positions
    for v, q in zip(ins, spec["q"]): g.set_qubit(v, q)
    for v, q in zip(outs, spec["q"][len(ins):]): g.set_qubit(v, q)
    amb = any(g.row(next(iter(g.neighbors(v)))) == g.row(v) for v in ins + outs)
    for v in ins + outs:
        n = next(iter(g.neighbors(v)))
        if n in ins and v in ins or n in outs and v in outs: amb = True
    g.set_inputs(()); g.set_outputs(())
    if amb:
        try: g.auto_detect_io()
        except TypeError: return
        raise_if = [v for v in ins + outs if g.row(next(iter(g.neighbors(v)))) == g.row(v)]
        if raise_if: fail("auto_detect_io accepted a boundary at the row of its neighbour")
        return
    with cut("auto_detect_io"):
        g.auto_detect_io()
    if set(g.inputs()) != set(ins) or set(g.outputs()) != set(outs): fail("auto_detect_io found %s -> %s instead of %s -> %s", g.inputs(), g.outputs(), ins, outs)
    for l in (g.inputs(), g.outputs()):
        if [g.qubit(v) for v in l] != sorted(g.qubit(v) for v in l): fail("auto_detect_io did not sort boundaries by vertical position")
    rec.nt(len(ins) + len(outs) >= 3)

def check_id(spec, rec):
    from pyzx.utils import EdgeType
    n = spec["n"]
    g = zx.Graph(spec["backend"])
    ins = [g.add_vertex(0, i, 0) for i in range(n)]
    outs = [g.add_vertex(0, i, 1) for i in range(n)]
    perm = list(range(n)); a, b = spec["swap"]
    if a < n and b < n: perm[a], perm[b] = perm[b], perm[a]
    for i in range(n): g.add_edge((ins[i], outs[perm[i]]), EdgeType.HADAMARD if spec["h"][i] else EdgeType.SIMPLE)
    if spec["extra"] == "spider": g.add_vertex(1)
    g.set_inputs(tuple(ins)); g.set_outputs(tuple(outs))
    want = perm == list(range(n)) and not any(spec["h"][:n]) and not spec["extra"]
    if bool(g.is_id()) != want: fail("is_id() is %s for perm %s hadamards %s", g.is_id(), perm, spec["h"][:n])
    rec.nt(n > 1)

B = st.booleans()
BE = st.sampled_from([None, "multigraph"])
SUBS = [
    Sub("chain_zx", lambda: chain("zx"), check_chain, 4000),
    Sub("chain_zh", lambda: chain("zh"), check_chain, 1500),
    Sub("chain_ext", lambda: chain("ext"), check_chain, 1500),
    Sub("subgraph", lambda: st.fixed_dictionaries({"d": gens.diagram(kinds=("Z", "X", "H", "ZB")), "e": gens.diagram(kinds=("Z", "ZB"), vmax=3),
                                                   "sel": st.lists(B, min_size=1, max_size=11), "gr": st.lists(B, max_size=8), "backend": BE}), check_sub, 1500),
    Sub("auto_io", lambda: st.fixed_dictionaries({"d": gens.diagram(kinds=("Z", "X", "H"), vmin=1, imax=3, omax=3, layout=True),
                                                  "q": st.permutations(range(8)).map(list), "backend": BE}), check_io, 1000),
    Sub("is_id", lambda: st.fixed_dictionaries({"n": st.integers(0, 4), "swap": st.sampled_from([[0, 0], [0, 0], [0, 1], [1, 2]]),
                                                "h": st.lists(st.sampled_from([0, 0, 0, 0, 0, 1]), min_size=4, max_size=4),
                                                "extra": st.sampled_from(["", "", "spider"]), "backend": BE}), check_id, 300),
]
