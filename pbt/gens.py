"""Generators (Hypothesis strategies producing JSON-able specs) and builders (spec -> library object)."""
from fractions import Fraction
from hypothesis import strategies as st
from . import oracle

# ---------------------------------------------------------------- phases
CLIFF = ["0", "1/2", "1", "3/2"]
T_ONLY = ["1/4", "3/4", "5/4", "7/4"]
EXOTIC = ["1/8", "15/8", "1/3", "2/3", "5/3", "3/5", "9/7", "5/16", "1/1024", "-1/4", "-1/2", "-1", "2", "9/4", "-3/8"]
REDUCED_EXOTIC = ["1/8", "15/8", "1/3", "2/3", "5/3", "3/5", "9/7", "5/16", "1/1024"]
phase_cliff = st.sampled_from(CLIFF)
phase_t = st.sampled_from(CLIFF + T_ONLY)
phase_red = st.sampled_from(CLIFF * 2 + T_ONLY * 2 + REDUCED_EXOTIC)
phase_any = st.sampled_from(CLIFF * 2 + T_ONLY * 2 + EXOTIC)
F = Fraction

def P(s):
    f = Fraction(s)
    return f

# ---------------------------------------------------------------- circuits
ONE = ["ZPhase", "XPhase", "YPhase", "Z", "S", "S*", "T", "T*", "NOT", "Y", "HAD", "SX", "SX*", "U2", "U3"]
TWO = ["CNOT", "CZ", "CY", "XCX", "SWAP", "CHAD", "CSX", "CRX", "CRY", "CRZ", "CPhase", "RXX", "RZZ", "CU3", "CU", "ParityPhase"]
THREE = ["CCZ", "TOF", "CSWAP"]
ALL = ONE + TWO + THREE
CLIFFORD_T = ["ZPhase", "XPhase", "Z", "S", "S*", "T", "T*", "NOT", "HAD", "CNOT", "CZ"]
BASIC = ["ZPhase", "XPhase", "HAD", "CNOT", "CZ", "ZPhase", "HAD", "CNOT", "CZ"]
CLIFFORD = ["Z", "S", "S*", "NOT", "HAD", "CNOT", "CZ", "SX", "SX*", "XCX", "CY", "SWAP"]

def arity(name):
    return oracle.GATES[name][0] if name != "ParityPhase" else None
def nphase(name):
    return oracle.GATES[name][1] if name != "ParityPhase" else 1

@st.composite
def gate(draw, n, names, phases):
    nm = draw(st.sampled_from(names))
    if nm == "ParityPhase":
        k = draw(st.integers(1, n))
    else:
        k = arity(nm)
    pool = list(range(n))
    qs = []
    for _ in range(k):
        qs.append(pool.pop(draw(st.integers(0, len(pool) - 1)) if len(pool) > 1 else 0))
    if nm == "FSim":
        return [nm, qs, [draw(st.sampled_from(["1/2", "1/2", "-1/2"])), draw(phases)]]
    return [nm, qs, [draw(phases) for _ in range(nphase(nm))]]

@st.composite
def circuit(draw, nmin=1, nmax=4, gmin=0, gmax=20, names=tuple(ALL), phases=phase_any):
    n = draw(st.integers(nmin, nmax))
    ok = [x for x in names if x == "ParityPhase" or arity(x) <= n]
    m = draw(st.integers(gmin, gmax))
    return {"n": n, "gates": draw(st.lists(gate(n, ok, phases), min_size=m, max_size=gmax))}

def make_gate(name, qs, ph):
    from pyzx.circuit import gates as G
    ph = [P(p) if isinstance(p, str) else p for p in ph]
    if name in ("S*", "T*", "SX*"):
        return getattr(G, name[:-1])(qs[0], adjoint=True)
    if name == "CSX*": return G.CSX(qs[0], qs[1], adjoint=True)
    if name == "TOF": return G.Tofolli(*qs)
    if name == "ParityPhase": return G.ParityPhase(ph[0], *qs)
    return getattr(G, name)(*qs, *ph)

def build_circuit(spec):
    import pyzx as zx
    c = zx.Circuit(spec["n"])
    for name, qs, ph in spec["gates"]:
        c.add_gate(make_gate(name, qs, ph))
    return c

def unitary(spec):
    return oracle.circuit_unitary(spec["n"], spec["gates"])

def is_exact(gates):
    return all(g[0] in oracle.EXACT for g in gates)

# ---------------------------------------------------------------- diagrams
@st.composite
def scalar_spec(draw):
    """Factors to multiply the scalar with."""
    return draw(st.lists(st.one_of(
        st.tuples(st.just("pow"), st.integers(-3, 3)),
        st.tuples(st.just("phase"), phase_any),
        st.tuples(st.just("node"), st.sampled_from(["1/4", "1/2", "3/4", "1/3", "3/2"])),
        st.tuples(st.just("float"), st.sampled_from([0.5, 2.0, -1.5]))), max_size=2).map(lambda l: [list(x) for x in l]))

def apply_scalar(s, ops):
    for k, v in ops:
        if k == "pow": s.add_power(v)
        elif k == "phase": s.add_phase(P(v))
        elif k == "node": s.add_node(P(v))
        elif k == "float": s.add_float(v)
        elif k == "pair": s.add_spider_pair(P(v[0]), P(v[1]))

@st.composite
def diagram(draw, kinds=("Z", "Z", "X"), phases=phase_red, vmin=0, vmax=7, emax=12, imax=2, omax=2,
            hprob=True, selfloops=False, parallel=False, scalar=True, etypes=("s", "h"), wires=True, layout=True,
            iomin=0, hb_phases=None, ni=None, no=None):
    """Arbitrary open graph: spiders with random simple/Hadamard edges; boundaries attached to spiders
    or (wires) directly to each other."""
    nv = draw(st.integers(vmin, vmax))
    verts = []
    for _ in range(nv):
        k = draw(st.sampled_from(kinds))
        if k == "H" and hb_phases is not None:
            verts.append([k, draw(hb_phases)])
        elif k == "H":
            verts.append([k, draw(st.sampled_from(["1", "1", "1", "0", "1/2", "1/4"]))])
        elif k == "ZB":
            verts.append([k, draw(st.sampled_from(["1", "2", "-1", "1/2", "0.5", "1j", "-0.5+0.5j", "0", "3"]))])
        elif k == "W":
            verts.append([k, "0"])
        else:
            verts.append([k, draw(phases)])
    ni = draw(st.integers(min(iomin, imax), imax)) if ni is None else ni
    no = draw(st.integers(min(iomin, omax), omax)) if no is None else no
    edges = []
    seen = set()
    if nv:
        m = draw(st.integers(0, emax))
        cand = draw(st.lists(st.tuples(st.integers(0, nv - 1), st.integers(0, nv - 1), st.sampled_from(etypes)),
                             min_size=m, max_size=emax))
        for a, b, t in cand:
            if a == b and not selfloops: continue
            if (min(a, b), max(a, b)) in seen and not parallel: continue
            seen.add((min(a, b), max(a, b)))
            edges.append([a, b, t])
    bnd = []
    free = None      # a boundary waiting for a partner (direct wire)
    nb = ni + no
    for i in range(nb):
        b = nv + i
        if free is not None:
            edges.append([free, b, draw(st.sampled_from(etypes))])
            free = None
            continue
        direct = (nv == 0) or (wires and i + 1 < nb and draw(st.integers(0, 7)) == 7)
        if direct and i + 1 < nb:
            free = b
        elif nv:
            edges.append([b, draw(st.integers(0, nv - 1)), draw(st.sampled_from(etypes))])
        else:
            # no spider to attach to: make one
            free = None
            verts.append(["Z", "0"])
            edges.append([b, -1, "s"])
    # fix-up of the late spider index
    if len(verts) > nv:
        nv2 = len(verts)
        def m(x): return nv if x == -1 else (x if x < nv else x + (nv2 - nv))
        edges = [[m(a), m(b), t] for a, b, t in edges]
        off = nv2
    else:
        off = nv
    # a W node the way the editor draws it: an input triangle tied to the output side
    for i in [i for i, v in enumerate(verts) if v[0] == "W"]:
        inc = [j for j, e in enumerate(edges) if i in e[:2] and e[0] != e[1]]
        if inc and draw(st.integers(0, 2)):
            j = draw(st.sampled_from(inc)); a, b, t = edges[j]
            edges = [[x + (x >= off), y + (y >= off), u] for x, y, u in edges]
            a, b = (x + (x >= off) for x in (a, b))
            verts.append(["WI", "0"]); verts[i] = ["WO", "0"]
            edges[j] = [b if a == i else a, off, t]; edges.append([i, off, "w"]); off += 1
    order = list(range(nb))
    if nb > 1 and draw(st.booleans()):
        order = list(draw(st.permutations(order)))
    spec = {"verts": verts, "edges": edges, "in": [off + x for x in order[:ni]], "out": [off + x for x in order[ni:]]}
    if layout:
        spec["pos"] = draw(st.lists(st.tuples(st.integers(0, 4), st.integers(0, 4)), min_size=len(verts), max_size=len(verts)))
        spec["pos"] = [list(x) for x in spec["pos"]]
        if layout == "wild":
            spec["bpos"] = draw(st.lists(st.integers(0, 8), min_size=ni + no, max_size=ni + no))
            spec["order"] = list(draw(st.permutations(list(range(len(verts) + ni + no)))))
    if scalar:
        spec["scalar"] = draw(scalar_spec())
    # names of the vertices in another order than they are made, and with gaps
    if draw(st.integers(0, 3)) == 3:
        m = len(verts) + ni + no
        spec["names"] = list(draw(st.permutations(list(range(m + draw(st.integers(0, 2)))))))[:m]
    return spec

def build_diagram(spec, backend=None, layout="std"):
    """Add every vertex and (smart) edge through the public API.  No parallel edges expected for the
    simple backend."""
    import pyzx as zx
    from pyzx.utils import VertexType, EdgeType
    vt = {"Z": VertexType.Z, "X": VertexType.X, "H": VertexType.H_BOX, "ZB": VertexType.Z_BOX,
          "W": VertexType.W_OUTPUT, "WI": VertexType.W_INPUT, "WO": VertexType.W_OUTPUT}
    g = zx.Graph(backend)
    nv = len(spec["verts"])
    nb = len(spec["in"]) + len(spec["out"])
    ids = [None] * (nv + nb)
    pos = spec.get("pos")
    bpos = spec.get("bpos")
    names = spec.get("names")
    def new(i, ty, q, r, phase=None):
        if not names: return g.add_vertex(ty, q, r, phase)
        v = names[i]; g.add_vertex_indexed(v); g.set_type(v, ty); g.set_position(v, q, r)
        if phase is not None: g.set_phase(v, phase)
        return v
    for i in spec.get("order", range(nv + nb)):
        if i < nv:
            k, p = spec["verts"][i]
            q, r = (pos[i] if pos else (i % 3, i // 3))
            if k == "ZB":
                v = new(i, vt[k], q, r + 1)
                g.set_vdata(v, "label", parse_label(p))
            else:
                v = new(i, vt[k], q, r + 1, P(p))
            ids[i] = v
        else:
            if i in spec["in"]: q, r = spec["in"].index(i), 0
            else: q, r = spec["out"].index(i), 7
            if bpos: r = bpos[i - nv]
            ids[i] = new(i, VertexType.BOUNDARY, q, r)
    for a, b, t in spec["edges"]:
        g.add_edge((ids[a], ids[b]), EdgeType.HADAMARD if t == "h" else EdgeType.W_IO if t == "w" else EdgeType.SIMPLE)
    g.set_inputs(tuple(ids[i] for i in spec["in"]))
    g.set_outputs(tuple(ids[i] for i in spec["out"]))
    apply_scalar(g.scalar, spec.get("scalar", []))
    return g

def parse_label(p):
    try:
        return Fraction(p)
    except ValueError:
        return complex(p.replace(" ", ""))

def scalar_value(ops):
    import cmath, math
    z = 1 + 0j
    for k, v in ops:
        if k == "pow": z *= math.sqrt(2) ** v
        elif k == "phase": z *= cmath.exp(1j * math.pi * float(F(v)))
        elif k == "node": z *= 1 + cmath.exp(1j * math.pi * float(F(v)))
        elif k == "float": z *= v
        elif k == "pair":
            a, b = (cmath.exp(1j * math.pi * float(F(x))) for x in v)
            z *= (1 + a + b - a * b) / math.sqrt(2)
    return z

def spec_tensor(spec):
    """Oracle tensor straight from the spec (axes outputs, inputs)."""
    vs = {}
    for i, (k, p) in enumerate(spec["verts"]):
        vs[i] = ("ZB", complex(parse_label(p))) if k == "ZB" else ("W", 0) if k in ("WI", "WO") else (k, F(p))
    n = len(spec["verts"])
    for i in range(len(spec["in"]) + len(spec["out"])):
        vs[n + i] = ("B", 0)
    return oracle.contract(vs, spec["edges"], spec["in"], spec["out"], scalar_value(spec.get("scalar", [])))

# ---------------------------------------------------------------- structured graph-like diagrams
@st.composite
def gl_diagram(draw, bmax=6, gmax=3, phases=phase_red, imax=2, omax=2, recolour=True, scalar=True, parts=("gadget", "gadget", "gadget", "twin", "leaf", "id")):
    """Diagram built around the patterns the rewrite rules look for: a core of spiders joined by
    Hadamard edges (with Clifford-heavy phases), phase gadgets (some over the same targets), twins
    (equal neighbourhoods, phases equal or differing by pi), Pauli leaves, chains of identities.
    Optionally some spiders are recoloured (same map, other colour, toggled edges)."""
    nb = draw(st.integers(1, bmax))
    core_ph = draw(st.sampled_from(["cliff", "mixed", "zero"]))
    php = {"cliff": phase_cliff, "mixed": phases, "zero": st.sampled_from(["0", "0", "1"])}[core_ph]
    verts = [["Z", draw(php)] for _ in range(nb)]
    E = {}
    pairs = [(i, j) for i in range(nb) for j in range(i + 1, nb)]
    bits = draw(st.lists(st.booleans(), min_size=len(pairs), max_size=len(pairs)))
    for (i, j), b in zip(pairs, bits):
        if b: E[(i, j)] = "h"
    def subset(lo=0):
        m = draw(st.lists(st.booleans(), min_size=nb, max_size=nb))
        r = [i for i in range(nb) if m[i]]
        return r if len(r) >= lo else r + [0]
    def put(a, b, t):
        E[(min(a, b), max(a, b))] = t
    last = None
    for _ in range(draw(st.integers(0, gmax))):
        kind = draw(st.sampled_from(parts))
        if kind == "gadget":
            tg = last if (last and draw(st.booleans())) else subset()
            last = tg
            hub = len(verts); verts.append(["Z", draw(st.sampled_from(["0", "0", "0", "1", "1/2"]))])
            verts.append(["Z", draw(phases)])
            put(hub, hub + 1, "h")
            for t in tg: put(t, hub, "h")
        elif kind == "twin":
            tg = subset(1)
            a = draw(phases) if draw(st.booleans()) else draw(st.sampled_from(T_ONLY + ["1/3", "1/8"]))
            rel = draw(st.sampled_from(["same", "pi", "neg", "free", "pineg"]))
            fa = Fraction(a)
            b = {"same": fa, "pi": fa + 1, "neg": -fa, "pineg": 1 - fa, "free": None}[rel]
            b = draw(phases) if b is None else str(b % 2)
            v = len(verts)
            verts.append(["Z", a]); verts.append(["Z", b])
            for t in tg: put(t, v, "h"); put(t, v + 1, "h")
            if draw(st.booleans()): put(v, v + 1, "h")
        elif kind == "leaf":
            v = len(verts); verts.append(["Z", draw(st.sampled_from(["0", "1", "0", "1", "1/2", "1/4"]))])
            put(v, draw(st.integers(0, nb - 1)), draw(st.sampled_from(["s", "h", "h"])))
        else:
            v = len(verts); verts.append(["Z", "0"])
            a = draw(st.integers(0, nb - 1)); b = draw(st.integers(0, nb - 1))
            put(v, a, draw(st.sampled_from(["s", "h"])))
            if a != b: put(v, b, draw(st.sampled_from(["s", "h"])))
    edges = [[a, b, t] for (a, b), t in E.items()]
    if recolour and draw(st.integers(0, 2)) == 0:
        fl = draw(st.lists(st.booleans(), min_size=len(verts), max_size=len(verts)))
        for i, f in enumerate(fl):
            if f:
                verts[i][0] = "X"
                for e in edges:
                    if i in e[:2]: e[2] = "s" if e[2] == "h" else "h"
    n = len(verts)
    ni, no = draw(st.integers(0, imax)), draw(st.integers(0, omax))
    for i in range(ni + no):
        edges.append([n + i, draw(st.integers(0, nb - 1)), draw(st.sampled_from(["s", "s", "s", "h"]))])
    if draw(st.booleans()):
        # names: neighbours looked up in other orders
        perm = list(draw(st.permutations(list(range(n)))))
        verts = [verts[perm.index(i)] for i in range(n)]
        edges = [[perm[a] if a < n else a, perm[b] if b < n else b, t] for a, b, t in edges]
    spec = {"verts": verts, "edges": edges, "in": [n + i for i in range(ni)], "out": [n + ni + i for i in range(no)]}
    if scalar: spec["scalar"] = draw(scalar_spec())
    return spec

@st.composite
def rg_diagram(draw, nmax=4, imax=2, omax=2, phases=None):
    """Phase-free (mostly) bipartite red/green diagrams with plain edges."""
    a, b = draw(st.integers(1, nmax)), draw(st.integers(1, nmax))
    ph = phases or st.sampled_from(["0"] * 7 + ["1", "1/4"])
    verts = [["Z", draw(ph)] for _ in range(a)] + [["X", draw(ph)] for _ in range(b)]
    m = draw(st.lists(st.integers(0, 4), min_size=a * b, max_size=a * b))
    edges = [[i, a + j, "s" if m[i * b + j] < 4 else "h"] for i in range(a) for j in range(b) if m[i * b + j]]
    n = a + b
    ni, no = draw(st.integers(0, imax)), draw(st.integers(0, omax))
    for i in range(ni + no):
        edges.append([n + i, draw(st.integers(0, n - 1)), "s"])
    return {"verts": verts, "edges": edges, "in": [n + i for i in range(ni)], "out": [n + ni + i for i in range(no)],
            "scalar": draw(scalar_spec())}

@st.composite
def focus(draw, kind, bmax=4, phases=None):
    """A graph-like diagram with one large place where one rule applies: a complementation with many
    neighbours, a pivot with large neighbourhoods, several phase gadgets over the same targets, a copy
    through a spider of high degree, twins with many common neighbours."""
    ph = phases or phase_red
    verts, E = [], {}
    def put(a, b, t="h"): E[(min(a, b), max(a, b))] = t
    def toggle(p):
        for i in range(len(rim)):
            for j in range(i):
                if draw(st.integers(0, 9)) < p: put(rim[i], rim[j])
    def new(p): verts.append(["Z", p]); return len(verts) - 1
    rim = []
    dens = draw(st.sampled_from([0, 2, 5, 9]))
    if kind == "lcomp":
        c = new(draw(st.sampled_from(["1/2", "3/2"])))
        rim = [new(draw(ph)) for _ in range(draw(st.integers(0, 10)))]
        for r in rim: put(c, r)
        toggle(dens)
    elif kind in ("pivot", "pivot_gadget", "pivot_boundary"):
        a = new(draw(st.sampled_from(["0", "1"])))
        b = new(draw(st.sampled_from(["0", "1"] if kind == "pivot" else ["1/4", "7/4", "1/3", "1/2", "5/4", "0"]))); put(a, b)
        for side, k in (((a,), draw(st.integers(0, 4))), ((b,), draw(st.integers(0, 4))), ((a, b), draw(st.integers(0, 3)))):
            for _ in range(k):
                r = new(draw(ph)); rim.append(r)
                for x in side: put(x, r)
        toggle(dens)
    elif kind == "gadget":
        rim = [new(draw(ph)) for _ in range(draw(st.integers(1, 7)))]
        toggle(dens)
        for _ in range(draw(st.integers(1, 2))):
            m = draw(st.lists(st.booleans(), min_size=len(rim), max_size=len(rim)))
            tg = [r for r, b in zip(rim, m) if b] or rim[:1]
            for _ in range(draw(st.integers(1, 4))):
                h = new(draw(st.sampled_from(["0", "0", "1"]))); put(h, new(draw(st.sampled_from(T_ONLY + ["1/3", "1/8", "1/2", "0", "1"]))))
                for r in tg: put(h, r)
    elif kind == "copy":
        l = new(draw(st.sampled_from(["0", "1"]))); c = new(draw(st.sampled_from(["0", "1", "1/2", "1/4", "7/4", "1/3"]))); put(l, c)
        rim = [new(draw(ph)) for _ in range(draw(st.integers(0, 9)))]
        for r in rim: put(c, r)
        toggle(dens)
    elif kind == "bialg":
        a, b = new("0"), new("0"); verts[b][0] = "X"; put(a, b, "s")
        lp = st.sampled_from(draw(st.sampled_from([["0"], ["0"], ["0"] * 9 + ["1", "1/4"]])))
        l1 = [new(draw(lp)) for _ in range(draw(st.integers(0, 5)))]
        l2 = [new(draw(lp)) for _ in range(draw(st.integers(0, 5)))]
        for r in l1: verts[r][0] = "X"; put(a, r, "s")
        for r in l2: put(b, r, "s")
        for x in l1:
            for y in l2:
                if draw(st.integers(0, 9)) < dens: put(x, y, "s")
        rim = l1 + l2 or [a]
    elif kind == "ids":
        hub = [new(draw(ph)) for _ in range(draw(st.integers(1, 4)))]
        for x in hub:
            if draw(st.booleans()): verts[x][0] = "X"
        for i in range(len(hub)):
            for j in range(i):
                if draw(st.integers(0, 2)) == 0: put(hub[i], hub[j], draw(st.sampled_from(["s", "h"])))
        for _ in range(draw(st.integers(1, 7))):
            a = draw(st.sampled_from(hub[:2] * 2 + hub)); rest = [x for x in range(len(verts)) if x != a]
            if not rest: continue
            b = draw(st.sampled_from(([x for x in hub[:2] if x != a] or rest) * 2 + rest))
            i = new(draw(st.sampled_from(["0", "0", "0", "0", "1", "1/4"]))); verts[i][0] = draw(st.sampled_from(["Z", "X"]))
            a, b = draw(st.sampled_from([(a, b), (a, b), (b, a)]))
            put(a, i, draw(st.sampled_from(["s", "h"]))); put(b, i, draw(st.sampled_from(["s", "h"])))
        rim = hub
    elif kind == "fusion":
        hub = [new(draw(ph)) for _ in range(draw(st.integers(2, 5)))]
        for x, y in zip(hub, hub[1:]): put(x, y, "s")
        if len(hub) > 2 and draw(st.booleans()): put(hub[0], hub[-1], draw(st.sampled_from(["s", "h"])))
        rim = [new(draw(ph)) for _ in range(draw(st.integers(0, 8)))]
        for r in rim:
            if draw(st.booleans()): verts[r][0] = "X"
            for x in hub:
                if draw(st.integers(0, 2)) == 0: put(x, r, draw(st.sampled_from(["s", "h"])))
        rim = rim or hub[-1:]
    elif kind == "supplementarity":
        rim = [new(draw(ph)) for _ in range(draw(st.integers(0, 7)))]
        toggle(dens)
        for _ in range(draw(st.sampled_from([1, 1, 2]))):
            p = Fraction(draw(st.sampled_from(T_ONLY + ["1/3", "1/8", "1/2", "0"])))
            q = draw(st.sampled_from([p, p + 1, -p, 1 - p]))
            a = new(str(p % 2)); b = new(str(q % 2))
            for r in rim: put(a, r); put(b, r)
            if draw(st.booleans()): put(a, b)
    n = len(verts); edges = [[a, b, t] for (a, b), t in E.items()]
    ends = rim if kind != "pivot_boundary" or not rim else rim + [draw(st.sampled_from([1] + rim))]
    k = draw(st.integers(0, min(bmax, len(ends)))); ni = draw(st.integers(0, k))
    where = list(draw(st.permutations(ends)))[:k]
    if kind == "pivot" and draw(st.integers(0, 3)) == 0: where = where[:-1] + [draw(st.sampled_from([0, 1]))]
    for i, w in enumerate(where): edges.append([n + i, w, draw(st.sampled_from(["s", "s", "h"]))])
    k = len(where); ni = min(ni, k)
    perm = list(draw(st.permutations(list(range(n)))))
    verts = [verts[perm.index(i)] for i in range(n)]
    edges = [[perm[a] if a < n else a, perm[b] if b < n else b, t] for a, b, t in edges]
    return {"verts": verts, "edges": edges, "in": [n + i for i in range(ni)], "out": [n + i for i in range(ni, k)], "scalar": draw(scalar_spec())}

# ---------------------------------------------------------------- graph-derived inputs for strategies
@st.composite
def zx_source(draw, vmax=7, gmax=16, nmax=4, phases=phase_red, names=None, kinds=("Z", "Z", "X"), which=("diagram", "circuit", "gl")):
    """An arbitrary diagram, a circuit's diagram, or a diagram full of rule patterns."""
    w = draw(st.sampled_from(which))
    if w == "diagram":
        return {"src": "diagram", "d": draw(diagram(vmax=vmax, phases=phases, kinds=kinds))}
    if w == "gl":
        return {"src": "diagram", "d": draw(gl_diagram(phases=phases))}
    if w in ("twin", "gadget", "leaf"):
        return {"src": "diagram", "d": draw(gl_diagram(phases=phases, parts=(w,), recolour=False))}
    if w.startswith("focus_"):
        return {"src": "diagram", "d": draw(focus(w[6:], phases=phases))}
    if w == "rg":
        return {"src": "diagram", "d": draw(rg_diagram())}
    c = draw(circuit(1, nmax, 0, gmax, names=tuple(names or BASIC), phases=phases))
    return {"src": "circuit", "c": c}

def build_source(s, backend=None):
    if s["src"] == "diagram":
        return build_diagram(s["d"], backend)
    return build_circuit(s["c"]).to_graph(backend=backend) if backend else build_circuit(s["c"]).to_graph()

@st.composite
def w_diagram(draw, wmax=2, zmax=4, imax=2, omax=2, phases=phase_red, boxes=True, chains=True):
    """W nodes as input/output pairs joined by a W edge, spiders and Z-boxes around them."""
    verts, edges = [], []
    nz = draw(st.integers(0, zmax)); nw = draw(st.integers(1, wmax))
    for _ in range(nz):
        if boxes and draw(st.integers(0, 2)) == 0: verts.append(["ZB", draw(st.sampled_from(["1", "2", "-1", "1/2", "1j", "-0.5+0.5j", "0"]))])
        else: verts.append([draw(st.sampled_from(["Z", "Z", "X"])), draw(phases)])
    w = []
    for _ in range(nw):
        a = len(verts); verts += [["WI", "0"], ["WO", "0"]]; edges.append([a, a + 1, "w"]); w.append(a)
    need = []                  # loose legs
    infree = {a: True for a in w}
    if chains:
        for a in w:
            for b in w:
                if a != b and infree[b] and draw(st.integers(0, 2)) == 0:
                    edges.append([a + 1, b, "s"]); infree[b] = False
    for a in w:
        if infree[a]: need.append(a)
        for _ in range(draw(st.integers(0, 2))): need.append(a + 1)
    have = {(min(a, b), max(a, b)) for a, b, _ in edges}
    nb = 0; bnd = []
    n = len(verts)
    for leg in need:
        c = [i for i in range(nz) if (i, leg) not in have]
        if c and draw(st.integers(0, 3)):
            j = draw(st.sampled_from(c)); have.add((j, leg)); edges.append([j, leg, draw(st.sampled_from(["s", "s", "h"]))])
        elif nb < imax + omax:
            edges.append([n + nb, leg, draw(st.sampled_from(["s", "s", "h"]))]); nb += 1
        else:
            # close it with a spider of its own
            bnd.append(leg)
    extra = len(bnd)
    if extra:
        # renumber boundaries after the extra spiders
        edges = [[a if a < n else a + extra, b, t] for a, b, t in edges]
        for k, leg in enumerate(bnd):
            verts.append([draw(st.sampled_from(["Z", "X"])), draw(phases)]); edges.append([n + k, leg, "s"])
    n2 = len(verts)
    for i in range(nz):
        for j in range(i + 1, nz):
            x = draw(st.integers(0, 3))
            if x > 1: edges.append([i, j, "sh"[x - 2]])
    free = nb
    while nz and free < imax + omax and draw(st.booleans()):
        edges.append([n2 + free, draw(st.integers(0, nz - 1)), draw(st.sampled_from(["s", "h"]))]); free += 1
    bs = list(range(n2, n2 + free))
    ni = draw(st.integers(0, free))
    return {"verts": verts, "edges": edges, "in": bs[:ni], "out": bs[ni:], "scalar": draw(scalar_spec())}
