"""Plain snapshots of library graphs and a history driver with a plain model."""
from fractions import Fraction
from hypothesis import strategies as st
from .core import fail, cut

def ekey(s, t, ty): return (min(s, t), max(s, t), int(ty))

def edges_of(g):
    return sorted(ekey(*g.edge_st(e), g.edge_type(e)) for e in g.edges())

def snapshot(g, layout=True):
    """Everything the public API shows, as plain data."""
    d = {"v": {v: (int(g.type(v)), g.phase(v), bool(g.is_ground(v)),
                   {k: g.vdata(v, k) for k in sorted(g.vdata_keys(v))},
                   (g.qubit(v), g.row(v)) if layout else None) for v in g.vertices()},
         "e": edges_of(g), "in": tuple(g.inputs()), "out": tuple(g.outputs()), "gr": sorted(g.grounds()),
         "sc": scalar_key(g.scalar)}
    return d

def scalar_key(s):
    if any(hasattr(p, "terms") for p in [s.phase] + list(s.phasenodes)):
        import copy
        s = copy.copy(s); s.phase = sample(s.phase); s.phasenodes = [sample(p) for p in s.phasenodes]
    z = complex(s.to_number())
    return (z, bool(s.is_zero))

def sample(p):
    """A symbolic phase at one generic point."""
    if not hasattr(p, "terms"): return p
    from fractions import Fraction as F
    tot = F(0)
    for c, t in p.terms:
        z = F(c)
        for v, k in t.vars: z *= (1 if v.is_bool else F(sum(map(ord, v.name)) % 89 + 3, 97)) ** k
        tot += z
    return tot % 2

def rename(snap, m):
    return {"v": {m[v]: x for v, x in snap["v"].items()},
            "e": sorted((min(m[a], m[b]), max(m[a], m[b]), t) for a, b, t in snap["e"]),
            "in": tuple(m[v] for v in snap["in"]), "out": tuple(m[v] for v in snap["out"]),
            "gr": sorted(m[v] for v in snap["gr"]), "sc": snap["sc"]}

def diff(a, b):
    """First difference between two snapshots, as text, or None."""
    for k in ("v", "e", "in", "out", "gr"):
        if a[k] != b[k]:
            if k == "v":
                for v in set(a["v"]) | set(b["v"]):
                    if a["v"].get(v) != b["v"].get(v):
                        return "vertex %s: %s / %s" % (v, a["v"].get(v), b["v"].get(v))
            return "%s: %s / %s" % (k, a[k], b[k])
    if abs(a["sc"][0] - b["sc"][0]) > 1e-9 * max(1, abs(a["sc"][0])) or a["sc"][1] != b["sc"][1]:
        return "scalar: %s / %s" % (a["sc"], b["sc"])
    return None

def reorder(g, seed):
    """The same diagram with the same vertex names, stored in another order."""
    import random
    h = type(g)()
    if hasattr(g, "_auto_simplify"): h.set_auto_simplify(False)
    vs = sorted(g.vertices()); random.Random(seed).shuffle(vs)
    for v in vs:
        h.add_vertex_indexed(v); h.set_type(v, g.type(v)); h.set_position(v, g.qubit(v), g.row(v)); h.set_phase(v, g.phase(v)); h.set_ground(v, g.is_ground(v))
        for k in g.vdata_keys(v): h.set_vdata(v, k, g.vdata(v, k))
    es = list(g.edges()); random.Random(seed + 1).shuffle(es)
    for e in es: h.add_edge(g.edge_st(e), g.edge_type(e))
    h.set_inputs(tuple(g.inputs())); h.set_outputs(tuple(g.outputs())); h.scalar = g.scalar.copy(); h.variable_types = g.variable_types.copy()
    if hasattr(g, "_auto_simplify"): h.set_auto_simplify(g._auto_simplify)
    return h

def spread(g, seed):
    """The same diagram with gaps between the vertex names."""
    import random
    rnd = random.Random(seed); h = type(g)()
    if hasattr(g, "_auto_simplify"): h.set_auto_simplify(False)
    n, m = 0, {}
    for v in sorted(g.vertices()): n += rnd.choice((0, 0, 1, 7, 40)); m[v] = n; n += 1
    for v in g.vertices():
        w = m[v]; h.add_vertex_indexed(w); h.set_type(w, g.type(v)); h.set_position(w, g.qubit(v), g.row(v)); h.set_phase(w, g.phase(v)); h.set_ground(w, g.is_ground(v))
        for k in g.vdata_keys(v): h.set_vdata(w, k, g.vdata(v, k))
    for e in g.edges(): s, t = g.edge_st(e); h.add_edge((m[s], m[t]), g.edge_type(e))
    h.set_inputs(tuple(m[v] for v in g.inputs())); h.set_outputs(tuple(m[v] for v in g.outputs())); h.scalar = g.scalar.copy(); h.variable_types = g.variable_types.copy()
    if hasattr(g, "_auto_simplify"): h.set_auto_simplify(g._auto_simplify)
    return h

# ------------------------------------------------------------------ history driver
TYPES = ["B", "Z", "X", "H", "WI", "WO", "ZB"]
def vt(k):
    from pyzx.utils import VertexType as V
    return {"B": V.BOUNDARY, "Z": V.Z, "X": V.X, "H": V.H_BOX, "WI": V.W_INPUT, "WO": V.W_OUTPUT, "ZB": V.Z_BOX}[k]
def et(k):
    from pyzx.utils import EdgeType as E
    return {"s": E.SIMPLE, "h": E.HADAMARD, "w": E.W_IO}[k]

_i = st.integers(0, 30)
_ph = st.sampled_from(["0", "1/2", "1", "7/4", "9/4", "-1/4", "2", "1/3"])
_ty = st.sampled_from(TYPES + ["Z", "X", "Z"])
_e = st.sampled_from(["s", "s", "h", "h", "w"])
_fl = st.sampled_from([0, 1, 2, 3, 5, 0.5, -1, 7])
_op = st.one_of(
    st.tuples(st.just("addv"), _ty, _fl, _fl, st.one_of(st.none(), _ph), st.booleans()),
    st.tuples(st.just("addv"), _ty, _fl, _fl, st.one_of(st.none(), _ph), st.booleans()),
    st.tuples(st.just("addvs"), st.integers(0, 3)),
    st.tuples(st.just("addvi"), st.integers(0, 12)),
    st.tuples(st.just("adde"), _i, _i, _e), st.tuples(st.just("adde"), _i, _i, _e), st.tuples(st.just("adde"), _i, _i, _e),
    st.tuples(st.just("addes"), st.lists(st.tuples(_i, _i), max_size=4), st.sampled_from(["s", "h"])),
    st.tuples(st.just("rmv"), st.lists(_i, min_size=1, max_size=2)),
    st.tuples(st.just("rme"), st.lists(_i, min_size=1, max_size=2)),
    st.tuples(st.just("sete"), _i, _e),
    st.tuples(st.just("type"), _i, _ty),
    st.tuples(st.just("phase"), _i, _ph), st.tuples(st.just("addphase"), _i, _ph),
    st.tuples(st.just("qubit"), _i, _fl), st.tuples(st.just("row"), _i, _fl), st.tuples(st.just("pos"), _i, _fl, _fl),
    st.tuples(st.just("ground"), _i, st.booleans()),
    st.one_of(st.tuples(st.just("vdata"), _i, st.sampled_from(["a", "b"]), st.sampled_from([1, 2, "x"])),
              st.tuples(st.just("vdata"), _i, st.just("label"), st.sampled_from([1, 2, 0]))),
    st.tuples(st.just("in"), st.lists(_i, max_size=3, unique=True)), st.tuples(st.just("out"), st.lists(_i, max_size=3, unique=True)),
    st.tuples(st.just("scalar"), st.sampled_from(["pow", "phase", "float", "node"]), st.integers(0, 3)),
    st.tuples(st.just("q"), _i, _i),
)
_addv = st.tuples(st.just("addv"), _ty, _fl, _fl, st.one_of(st.none(), _ph), st.booleans())
_adde = st.tuples(st.just("adde"), _i, _i, _e)
def history(max_size=25, min_size=0):
    """A few vertices and edges, then arbitrary operations."""
    return st.tuples(st.lists(_addv, min_size=1, max_size=6), st.lists(_adde, max_size=8),
                     st.integers(min_size, max_size).flatmap(lambda k: st.lists(_op, min_size=k, max_size=k))
                     ).map(lambda l: [_j(x) for part in l for x in part])
def _j(x):
    return [_j(y) for y in x] if isinstance(x, (list, tuple)) else x

class Model:
    def __init__(self):
        self.v = {}      # v -> dict
        self.e = []      # (s,t,type)
        self.ins, self.outs = (), ()

    def pick(self, i):
        vs = sorted(self.v)
        return vs[i % len(vs)] if vs else None

def F(p): return Fraction(p)

def fresh(ty="B"): return {"ty": ty, "ph": Fraction(0), "q": -1, "r": -1, "gr": False, "vd": {}}

def from_graph(g):
    """Model of an existing graph."""
    m = Model()
    inv = {int(vt(k)): k for k in TYPES}
    einv = {int(et(k)): k for k in "shw"}
    for v in g.vertices():
        m.v[v] = {"ty": inv[int(g.type(v))], "ph": g.phase(v), "q": g.qubit(v), "r": g.row(v), "gr": g.is_ground(v),
                  "vd": {k: g.vdata(v, k) for k in g.vdata_keys(v)}}
    for a, b, t in edges_of(g): m.e.append((a, b, einv[t]))
    m.ins, m.outs = tuple(g.inputs()), tuple(g.outputs())
    return m

def apply_op(g, m, op, multi):
    """Apply op to library graph and model; returns True when it did something."""
    k = op[0]
    if k == "addv":
        _, ty, q, r, ph, gr = op
        v = g.add_vertex(vt(ty), q, r, None if ph is None else F(ph), gr)
        if v in m.v: fail("add_vertex returned the live name %s", v)
        m.v[v] = {"ty": ty, "ph": (Fraction(1) if ty == "H" else Fraction(0)) if ph is None else F(ph) % 2, "q": q, "r": r, "gr": gr, "vd": {}}
    elif k == "addvs":
        vs = list(g.add_vertices(op[1]))
        if len(set(vs)) != op[1] or any(v in m.v for v in vs): fail("add_vertices(%d) returned %s with live %s", op[1], vs, sorted(m.v))
        for v in vs: m.v[v] = fresh()
    elif k == "addvi":
        v = op[1]
        if v in m.v:
            try:
                g.add_vertex_indexed(v)
            except ValueError:
                return False
            fail("add_vertex_indexed accepted the live name %s", v)
        g.add_vertex_indexed(v)
        m.v[v] = fresh()
    elif k == "adde":
        a, b = m.pick(op[1]), m.pick(op[2])
        if a is None or not free(m, a, b, op[3], multi): return False
        e = g.add_edge((a, b), et(op[3]))
        m.e.append((min(a, b), max(a, b), op[3]))
    elif k == "addes":
        l = []
        for i, j in op[1]:
            a, b = m.pick(i), m.pick(j)
            if a is not None and free(m, a, b, op[2], multi) and (multi or not any({a, b} == set(x) for x in l)): l.append((a, b))
        g.add_edges(l, et(op[2]))
        for a, b in l: m.e.append((min(a, b), max(a, b), op[2]))
        return bool(l)
    elif k == "rmv":
        vs = sorted({m.pick(i) for i in op[1]} - {None})
        if len(vs) == 1: g.remove_vertex(vs[0])
        else: g.remove_vertices(vs)
        for v in vs: del m.v[v]
        m.e = [e for e in m.e if e[0] not in vs and e[1] not in vs]
        m.ins = tuple(v for v in m.ins if v not in vs); m.outs = tuple(v for v in m.outs if v not in vs)
        return bool(vs)
    elif k == "rme":
        if not m.e: return False
        es = []
        for i in op[1]:
            j = sorted(range(len(m.e)), key=lambda x: m.e[x])[i % len(m.e)]
            if j not in es: es.append(j)
        names = [name(g, m.e[j], multi) for j in es]
        if len(names) == 1: g.remove_edge(names[0])
        else: g.remove_edges(names)
        m.e = [e for j, e in enumerate(m.e) if j not in es]
    elif k == "sete":
        if not m.e: return False
        j = sorted(range(len(m.e)), key=lambda x: m.e[x])[op[1] % len(m.e)]
        a, b, t = m.e[j]
        if sum(1 for e in m.e if e[:2] == (a, b)) > 1 and op[2] == "w": return False
        g.set_edge_type(name(g, m.e[j], multi), et(op[2]))
        m.e[j] = (a, b, op[2])
    elif k in ("type", "phase", "addphase", "qubit", "row", "pos", "ground", "vdata"):
        v = m.pick(op[1])
        if v is None: return False
        d = m.v[v]
        if k == "type": g.set_type(v, vt(op[2])); d["ty"] = op[2]
        elif k == "phase": g.set_phase(v, F(op[2])); d["ph"] = F(op[2]) % 2
        elif k == "addphase": g.add_to_phase(v, F(op[2])); d["ph"] = (d["ph"] + F(op[2])) % 2
        elif k == "qubit": g.set_qubit(v, op[2]); d["q"] = op[2]
        elif k == "row": g.set_row(v, op[2]); d["r"] = op[2]
        elif k == "pos": g.set_position(v, op[2], op[3]); d["q"], d["r"] = op[2], op[3]
        elif k == "ground": g.set_ground(v, op[2]); d["gr"] = op[2]
        elif k == "vdata": g.set_vdata(v, op[2], op[3]); d["vd"][op[2]] = op[3]
    elif k in ("in", "out"):
        vs = []
        for i in op[1]:
            v = m.pick(i)
            if v is not None and v not in vs: vs.append(v)
        if k == "in": g.set_inputs(tuple(vs)); m.ins = tuple(vs)
        else: g.set_outputs(tuple(vs)); m.outs = tuple(vs)
    elif k == "scalar":
        if op[1] == "pow": g.scalar.add_power(op[2] + 1)
        elif op[1] == "phase": g.scalar.add_phase(Fraction(op[2] + 1, 4))
        elif op[1] == "node": g.scalar.add_node(Fraction(op[2] + 1, 5))
        else: g.scalar.add_float(0.5)
    elif k == "q":
        return False
    return True

def free(m, a, b, t, multi):
    par = [e for e in m.e if e[:2] == (min(a, b), max(a, b))]
    if not multi: return a != b and not par
    if t == "w": return not par and a != b
    return not any(e[2] == "w" for e in par)

def name(g, e, multi):
    a, b, t = e
    if multi: return (a, b, et(t))
    return g.edge(a, b)

def check_model(g, m, multi, pair=None):
    """Every query against the model."""
    if set(g.vertices()) != set(m.v) or len(list(g.vertices())) != len(m.v): fail("vertices() is %s, model %s", sorted(g.vertices()), sorted(m.v))
    if g.vertex_set() != set(m.v): fail("vertex_set() is wrong")
    if g.num_vertices() != len(m.v): fail("num_vertices() is %s, model %s", g.num_vertices(), len(m.v))
    es = sorted((a, b, int(et(t))) for a, b, t in m.e)
    if edges_of(g) != es: fail("edges() shows %s, model %s", edges_of(g), es)
    if g.num_edges() != len(m.e): fail("num_edges() is %s, model %s", g.num_edges(), len(m.e))
    got = sorted(ekey(*g.edge_st(e), g.edge_type(e)) for e in set(g.edge_set()))
    if got != sorted(set(es)): fail("edge_set() shows %s, model %s", got, es)
    for e in g.edges():
        if {g.edge_s(e), g.edge_t(e)} != set(g.edge_st(e)): fail("edge_s/edge_t of %s", e)
    if tuple(g.inputs()) != m.ins or tuple(g.outputs()) != m.outs: fail("inputs/outputs are %s/%s, model %s/%s", g.inputs(), g.outputs(), m.ins, m.outs)
    if g.num_inputs() != len(m.ins) or g.num_outputs() != len(m.outs): fail("num_inputs/num_outputs wrong")
    if set(g.grounds()) != {v for v in m.v if m.v[v]["gr"]}: fail("grounds() is %s", g.grounds())
    if bool(g.is_hybrid()) != any(d["gr"] for d in m.v.values()): fail("is_hybrid() is %s", g.is_hybrid())
    if m.v and g.vindex() <= max(m.v): fail("vindex() %s is not beyond %s", g.vindex(), max(m.v))
    rows = [d["r"] for d in m.v.values()]
    if g.depth() != max(rows, default=-1) and any(r >= 0 for r in rows): fail("depth() is %s, rows %s", g.depth(), rows)
    ty, ph, qs, rs = g.types(), g.phases(), g.qubits(), g.rows()
    for mp, nm in ((ty, "types"), (ph, "phases")):
        if set(mp.keys()) != set(m.v): fail("%s() has keys %s, vertices %s", nm, sorted(mp.keys()), sorted(m.v))
    for mp, nm in ((qs, "qubits"), (rs, "rows")):
        if not set(mp.keys()) <= set(m.v): fail("%s() keeps removed vertices %s", nm, sorted(set(mp.keys()) - set(m.v)))
    for v, d in m.v.items():
        if int(g.type(v)) != int(vt(d["ty"])) or ty[v] != g.type(v): fail("type of %s is %s, model %s", v, g.type(v), d["ty"])
        if g.phase(v) != d["ph"] or ph[v] != d["ph"]: fail("phase of %s is %s, model %s", v, g.phase(v), d["ph"])
        if g.qubit(v) != d["q"] or g.row(v) != d["r"]: fail("position of %s is %s,%s, model %s,%s", v, g.qubit(v), g.row(v), d["q"], d["r"])
        if qs.get(v, -1) != d["q"] or rs.get(v, -1) != d["r"]: fail("qubits()/rows() disagree at %s", v)
        if bool(g.is_ground(v)) != d["gr"]: fail("ground flag of %s", v)
        if {k: g.vdata(v, k) for k in g.vdata_keys(v)} != d["vd"]: fail("vdata of %s is %s, model %s", v, {k: g.vdata(v, k) for k in g.vdata_keys(v)}, d["vd"])
        if g.vdata(v, "no such key", 17) != 17: fail("vdata default")
        inc = [e for e in m.e if v in e[:2]]
        nb = {e[0] if e[1] == v else e[1] for e in inc}
        if set(g.neighbors(v)) != nb or len(list(g.neighbors(v))) != len(nb): fail("neighbors of %s are %s, model %s", v, sorted(g.neighbors(v)), sorted(nb))
        if not any(e[0] == e[1] for e in inc) and g.vertex_degree(v) != len(inc): fail("degree of %s is %s, model %s", v, g.vertex_degree(v), len(inc))
        got = sorted(ekey(*g.edge_st(e), g.edge_type(e)) for e in g.incident_edges(v))
        if got != sorted((a, b, int(et(t))) for a, b, t in inc): fail("incident edges of %s are %s, model %s", v, got, inc)
        got = sorted(ekey(*g.edge_st(e), g.edge_type(e)) for e in g.edges(v))
        if got != sorted((a, b, int(et(t))) for a, b, t in inc): fail("edges(%s) gives %s, model %s", v, got, inc)
    if pair and m.v:
        a, b = m.pick(pair[0]), m.pick(pair[1])
        lo, hi = min(a, b) - 1, max(a, b) + 1
        inr = sorted(v for v in m.v if lo < v < hi and all(lo < x < hi for e in m.e if v in e[:2] for x in e[:2]))
        if sorted(g.vertices_in_range(lo, hi)) != inr: fail("vertices_in_range(%s,%s) is %s, model %s", lo, hi, sorted(g.vertices_in_range(lo, hi)), inr)
        txt = g.stats().split("\n")
        degs = {}
        for v in m.v: degs[g.vertex_degree(v)] = degs.get(g.vertex_degree(v), 0) + 1
        if "(%d vertices, %d edges)" % (len(m.v), len(m.e)) not in txt[0] or {int(l.split(":")[0]): int(l.split(":")[1]) for l in txt[2:] if l} != degs:
            fail("stats() says %r for %d vertices and %d edges of degrees %s", g.stats(), len(m.v), len(m.e), degs)
        par = sorted((x, y, int(et(t))) for x, y, t in m.e if (x, y) == (min(a, b), max(a, b)))
        if bool(g.connected(a, b)) != bool(par): fail("connected(%s,%s) is %s, model %s", a, b, g.connected(a, b), par)
        if a != b or multi:
            got = sorted(ekey(*g.edge_st(e), g.edge_type(e)) for e in g.edges(a, b))
            if got != par: fail("edges(%s,%s) gives %s, model %s", a, b, got, par)
        if len(par) == 1:
            e = g.edge(a, b)
            if set(g.edge_st(e)) != {a, b} or int(g.edge_type(e)) != par[0][2]: fail("edge(%s,%s) is %s of type %s, model %s", a, b, e, g.edge_type(e), par)
    ok = all((d["ty"] != "B" or deg(m, v) == 1) and (d["ty"] != "WI" or deg(m, v) == 2) and (d["ty"] != "WO" or deg(m, v) >= 2) for v, d in m.v.items())
    if not any(e[0] == e[1] for e in m.e) and bool(g.is_well_formed()) != ok: fail("is_well_formed() is %s, model %s", g.is_well_formed(), ok)

def deg(m, v): return sum(1 for e in m.e if v in e[:2])
