"""Interactive rewrites."""
from fractions import Fraction
from hypothesis import strategies as st
from ..core import Sub, fail, cut
from .. import gens, oracle, graphs
from .C31 import zh_diagram, HP, hchain

RULE = ("A diagram (arbitrary ZX, ZX with H-boxes and Z-boxes, W nodes, or built around rule patterns; both storages for the rewrites that are written for both) and a sequence of rewrites at drawn locations. "
        "After each: if the applicability check said no, nothing may change; if it said yes, the map including scalar is as before. Non-trivial: at least two rewrites (one for single-rule runs) were applied.")
ASSUMPTIONS = ["Single rewrites on the multigraph storage: fusion, colour change, identity removal, copying and strong complementarity at locations where the two storages agree (no parallel edges or self-loops at the location, except for fusion and colour change).",
               "Editor operations are applied the way the editor applies them (all matches inside the selection; removals first, then the new edges).",
               "A refusal (ValueError about parallel edges the storage cannot hold) is accepted at H-boxes, W nodes and Z-boxes."]

def same(M, g, what):
    M2 = oracle.graph_tensor(g)
    if not oracle.close(M2, M, 1e-6): fail("%s changed the linear map%s", what, " (by a scalar)" if oracle.proportional(M2, M) else "")
    if not oracle.plug_ok(g, M2): fail("%s left a phase on a wire end: states plugged in there are changed", what)

def refusal(e): return isinstance(e, ValueError) and "parallel edge" in str(e)

ONE = ["color_change", "copy_X", "copy_Z", "pi_commute_X", "pi_commute_Z", "remove_id"]
TWO = ["fuse", "strong_comp"]

def check_basic(spec, rec):
    from pyzx import basicrules as b
    import pyzx as zx
    g = gens.build_diagram(spec["d"], spec.get("backend"))
    M = oracle.graph_tensor(g); io = tuple(g.inputs()), tuple(g.outputs()); n = 0
    multi = spec.get("backend") == "multigraph"
    for name, i, j in spec["ops"]:
        vs = sorted(g.vertices())
        if not vs: break
        v = vs[i % len(vs)]
        if i > 2 and not multi:         # aim at a place where it applies
            try: good = [x for x in ([(a,) for a in vs] if name not in TWO else [(a, c) for a in vs for c in sorted(g.neighbors(a)) if a != c]) if getattr(b, "check_" + name)(g, *x)]
            except Exception: good = []
        else: good = []
        args = (v,)
        if name in TWO:
            ns = sorted(g.neighbors(v))
            if j >= 0 and ns: args = (v, ns[j % len(ns)])      # a neighbour
            else: args = (v, vs[-j % len(vs)])
            if args[0] == args[1] and not good: continue
        if good: args = good[i % len(good)]
        if multi and name not in ("fuse", "color_change"):
            if any(len(list(g.edges(a, w))) > 1 for a in args for w in g.neighbors(a)) or any(g.connected(a, a) for a in args): continue
        before = graphs.snapshot(g)
        with cut("check_" + name): ok = getattr(b, "check_" + name)(g, *args)
        if ok not in (True, False): fail("check_%s returned %r", name, ok)
        if graphs.diff(before, graphs.snapshot(g)): fail("check_%s changed the diagram: %s", name, graphs.diff(before, graphs.snapshot(g)))
        try: res = getattr(b, name)(g, *args)
        except Exception as e:
            if refusal(e) and any(k in ("H", "ZB", "WI", "WO") for k, _ in spec["d"]["verts"]): rec.label("refused"); return
            raise
        if bool(res) != ok: fail("check_%s says %s but %s returned %s", name, ok, name, res)
        if not ok:
            if graphs.diff(before, graphs.snapshot(g)): fail("%s does not apply but changed the diagram: %s", name, graphs.diff(before, graphs.snapshot(g)))
            continue
        n += 1; rec.label(name)
        if not graphs.diff(before, graphs.snapshot(g)) and name not in ("color_change", "pi_commute_X", "pi_commute_Z"): fail("%s returned True but did nothing", name)
        if (tuple(g.inputs()), tuple(g.outputs())) != io: fail("%s changed inputs or outputs", name)
        same(M, g, name)
        if g.num_vertices() > 40: break
    rec.nt(n >= 1 if len(spec["ops"]) < 3 else n >= 2)

def check_ccd(spec, rec):
    """Colour-changing the whole diagram conjugates the map with Hadamards."""
    import numpy as np
    from pyzx import basicrules as b
    g = gens.build_diagram(spec["d"], spec.get("backend")); M = oracle.graph_tensor(g); s0 = graphs.snapshot(g)
    with cut("color_change_diagram"): b.color_change_diagram(g)
    H = np.array([[1, 1], [1, -1]]) / np.sqrt(2); T = M
    for k in range(M.ndim): T = np.moveaxis(np.tensordot(H, T, (1, k)), 0, k)
    M2 = oracle.graph_tensor(g)
    if not oracle.close(M2, T, 1e-6): fail("colour-changed diagram is not the Hadamard conjugate")
    with cut("color_change_diagram"): b.color_change_diagram(g)
    if graphs.diff(s0, graphs.snapshot(g)): fail("colour-changing twice is not the identity: %s", graphs.diff(s0, graphs.snapshot(g)))
    rec.nt(M.ndim > 0 and len(spec["d"]["verts"]) > 0)

def check_unfuse(spec, rec):
    from pyzx import rules as r, basicrules as b
    g = gens.build_diagram(spec["d"]); M = oracle.graph_tensor(g)
    for i, mask, ph in spec["ops"]:
        vs = [v for v in sorted(g.vertices()) if int(g.type(v)) in (1, 2)]
        if not vs: break
        v = vs[i % len(vs)]; ns = sorted(g.neighbors(v)); sel = [n for k, n in enumerate(ns) if mask >> k & 1]
        p = g.phase(v)
        with cut("unspider"): u = r.unspider(g, [v, sel] if ph is None else [v, sel, Fraction(ph)])
        if g.type(u) != g.type(v) or set(g.neighbors(u)) != set(sel) | {v} or set(g.neighbors(v)) != (set(ns) - set(sel)) | {u}: fail("unfused spider has the wrong legs")
        if g.phase(u) != (p if ph is None else Fraction(ph) % 2): fail("unfused spider has phase %s", g.phase(u))
        same(M, g, "unfusing"); rec.nt()

def check_editor(spec, rec):
    from pyzx import editor_actions as ea
    g = gens.build_diagram(spec["d"]); M = oracle.graph_tensor(g); io = tuple(g.inputs()), tuple(g.outputs()); n = 0
    for name, bits in spec["ops"]:
        op = ea.operations[name]
        if name in ("lcomp", "pivot") and spec.get("zh"): pass
        before = graphs.snapshot(g)
        if bits: fv = lambda v: bits[v % len(bits)]; fe = lambda e: bits[(min(g.edge_st(e)) * 3 + max(g.edge_st(e))) % len(bits)]
        else: fv = fe = lambda x: True
        f = fe if op["type"] == ea.MATCHES_EDGES else fv
        with cut("match " + name): ms = list(op["matcher"](g, f))
        if graphs.diff(before, graphs.snapshot(g)): fail("matching %s changed the diagram", name)
        if spec["one"]: ms = ms[:1]
        try:
            etab, rv, re, _ = op["rule"](g, ms)
            g.remove_edges(re); g.remove_vertices(rv); g.add_edge_table(etab)
        except Exception as e:
            if refusal(e) and any(k in ("H", "ZB", "WI", "WO") for k, _ in spec["d"]["verts"]): rec.label("refused"); return
            raise
        if not ms:
            if graphs.diff(before, graphs.snapshot(g)): fail("%s had no match but changed the diagram: %s", name, graphs.diff(before, graphs.snapshot(g)))
            continue
        n += 1; rec.label(name + ("+" if len(ms) > 1 else ""))
        if (tuple(g.inputs()), tuple(g.outputs())) != io: fail("%s changed inputs or outputs", name)
        same(M, g, name)
        if g.num_vertices() > 30: break
    rec.nt(n >= 1)

ph = st.sampled_from(gens.CLIFF * 2 + ["1", "0", "1/4", "5/4", "1/3"])
D = {"zx": lambda: gens.diagram(phases=ph, vmax=6, emax=9), "zh": lambda: gens.diagram(kinds=("Z", "Z", "X", "X", "H"), phases=ph, vmax=6, emax=8, hb_phases=st.sampled_from(HP)),
     "box": lambda: gens.diagram(kinds=("Z", "X", "ZB", "H"), phases=ph, vmax=6, emax=8), "w": lambda: gens.w_diagram(phases=gens.phase_red), "gl": lambda: gens.gl_diagram(), "zhp": lambda: zh_diagram(),
     "pauli": lambda: gens.diagram(kinds=("Z", "X"), phases=st.sampled_from(["0", "1"]), vmax=6, emax=7), "multi": lambda: gens.diagram(phases=ph, vmax=5, emax=9, parallel=True, selfloops=True),
     "sparse": lambda: sparse(), "paulih": lambda: paulih(), "xh": lambda: xh(), "leafy": lambda: gens.diagram(kinds=("Z", "X"), phases=ph, vmax=4, emax=4, imax=1, omax=2).flatmap(leaves), "ids": lambda: gens.diagram(kinds=("Z", "X", "H"), phases=ph, vmax=5, emax=7).map(subdivide), "hc": lambda: hchain(), "boxes": lambda: zh_diagram(parts=("box",), hmin=2, hmax=5), "bs": lambda: bigsparse(), "rg": lambda: gens.rg_diagram(), "bip": lambda: bip()}
@st.composite
def sparse(draw):
    """Trees with many leaves and Paulis: room for copies and pushes."""
    n = draw(st.integers(1, 6)); verts = [[draw(st.sampled_from(["Z", "X", "Z", "X", "H"])), draw(ph)] for _ in range(n)]
    edges = [[draw(st.integers(0, i - 1)), i, draw(st.sampled_from(["s", "s", "h"]))] for i in range(1, n)]
    nb = draw(st.integers(0, 3))
    for i in range(nb): edges.append([n + i, draw(st.integers(0, n - 1)), draw(st.sampled_from(["s", "s", "h"]))])
    return {"verts": verts, "edges": edges, "in": [], "out": list(range(n, n + nb)), "scalar": []}
@st.composite
def paulih(draw):
    """An H-box or spider with Paulis on its legs."""
    c = draw(st.integers(1, 2)); verts = [[draw(st.sampled_from(["Z", "X", "H", "H"])), draw(st.sampled_from(["1", "1", "1/4", "0"]))] for _ in range(c)]; edges = []; ends = []
    if c == 2 and draw(st.booleans()): edges.append([0, 1, draw(st.sampled_from(["s", "h"]))])
    for i in range(draw(st.integers(1, 5))):
        a = draw(st.integers(0, c - 1)); k = len(verts)
        verts.append([draw(st.sampled_from(["Z", "X"])), draw(st.sampled_from(["1", "1", "1", "0", "1/2"]))]); edges.append([a, k, draw(st.sampled_from(["s", "h"]))]); ends.append(k)
    if draw(st.booleans()) and c == 2:
        k = len(verts); verts.append([draw(st.sampled_from(["Z", "X"])), "1"]); edges += [[0, k, draw(st.sampled_from(["s", "h"]))], [1, k, draw(st.sampled_from(["s", "h"]))]]
    n = len(verts); nb = 0
    for k in ends:
        if nb < 4 and draw(st.integers(0, 3)): edges.append([n + nb, k, draw(st.sampled_from(["s", "h"]))]); nb += 1
    return {"verts": verts, "edges": edges, "in": [], "out": list(range(n, n + nb)), "scalar": []}
def subdivide(d):
    """Put phaseless spiders on every other edge."""
    n = len(d["verts"]); es = d["edges"][::2]; k = len(es); m = lambda a: a if a < n else a + k
    verts = d["verts"] + [["ZX"[i % 2], "0"] for i in range(k)]; edges = []
    for i, (a, b, t) in enumerate(d["edges"]):
        if i % 2: edges.append([m(a), m(b), t])
        else: edges += [[m(a), n + i // 2, t], [n + i // 2, m(b), "sh"[(i // 2) % 2]]]
    return {"verts": verts, "edges": edges, "in": [m(a) for a in d["in"]], "out": [m(a) for a in d["out"]], "scalar": d["scalar"]}
@st.composite
def leaves(draw, d):
    n = len(d["verts"])
    if not n: return d
    k = draw(st.integers(1, 3)); m = lambda a: a if a < n else a + k
    new = [[draw(st.sampled_from(["Z", "X"])), draw(st.sampled_from(["0", "1", "0", "1", "1/2"]))] for _ in range(k)]
    return {"verts": d["verts"] + new, "edges": [[m(a), m(b), t] for a, b, t in d["edges"]] + [[n + i, draw(st.integers(0, n - 1)), draw(st.sampled_from(["s", "s", "h"]))] for i in range(k)],
            "in": [m(a) for a in d["in"]], "out": [m(a) for a in d["out"]], "scalar": d["scalar"]}
@st.composite
def bigsparse(draw):
    """Spiders joined through Paulis: several pushes at once."""
    n = draw(st.integers(2, 4)); verts = [[draw(st.sampled_from(["Z", "X", "H"])), draw(st.sampled_from(["1/4", "1", "0", "1/2"]))] for _ in range(n)]; edges = []
    for i in range(1, n):
        for j in {i - 1, draw(st.integers(0, i - 1))}:
            k = len(verts); verts.append([draw(st.sampled_from(["Z", "X"])), draw(st.sampled_from(["1", "1", "1", "0"]))]); edges += [[j, k, draw(st.sampled_from(["s", "s", "h"]))], [k, i, draw(st.sampled_from(["s", "s", "h"]))]]
    m = len(verts); nb = draw(st.integers(0, 3))
    for i in range(nb): edges.append([m + i, draw(st.integers(0, n - 1)), draw(st.sampled_from(["s", "h"]))])
    return {"verts": verts, "edges": edges, "in": [], "out": list(range(m, m + nb)), "scalar": []}
@st.composite
def xh(draw):
    """An X or Z spider next to an H-box or the other colour, both with a few legs: room for bialgebras."""
    verts = [["X", draw(st.sampled_from(["0", "0", "0", "1"]))], [draw(st.sampled_from(["H", "H", "Z"])), None]]
    verts[1][1] = "1" if verts[1][0] == "H" else "0"
    edges = [[0, 1, "s"]]; nb = 0; legs = []
    for c in (0, 1):
        for _ in range(draw(st.integers(0, 3))): legs.append(c)
    inner = [i for i in range(len(legs)) if draw(st.integers(0, 2)) == 0]
    for i in inner: verts.append([draw(st.sampled_from(["Z", "X", "H"])), draw(ph)])
    n = len(verts)
    for i, c in enumerate(legs):
        t = draw(st.sampled_from(["s", "s", "h"]))
        if i in inner: edges.append([c, 2 + inner.index(i), t])
        else: edges.append([c, n + nb, t]); nb += 1
    for i in range(2, n):
        for j in range(i):
            if not any({a, b} == {i, j} for a, b, _ in edges) and draw(st.integers(0, 4)) == 0: edges.append([j, i, draw(st.sampled_from(["s", "h"]))])
    return {"verts": verts, "edges": edges, "in": [], "out": list(range(n, n + nb)), "scalar": []}
@st.composite
def bip(draw):
    """A tree (or with one cycle) of phaseless X-spiders on one side and plain H-boxes and phaseless Z-spiders on the other: several bialgebras close together."""
    n = draw(st.integers(3, 7)); par = [0]; edges = []
    for i in range(1, n):
        a = draw(st.integers(max(0, i - 3), i - 1)); par.append(1 - par[a]); edges.append([a, i, draw(st.sampled_from("sssssh"))])
    other = draw(st.sampled_from(["H", "HZ", "Z"])); flip = draw(st.integers(0, 1))
    verts = [["X", draw(st.sampled_from(["0"] * 7 + ["1"]))] if p == flip else (lambda k: [k, "1" if k == "H" else draw(st.sampled_from(["0"] * 7 + ["1/2"]))])(draw(st.sampled_from(other))) for p in par]
    a, b = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
    if par[a] != par[b] and not any({a, b} == {x, y} for x, y, _ in edges) and draw(st.booleans()): edges.append([a, b, "s"])
    nb = draw(st.integers(0, 4))
    for i in range(nb): edges.append([n + i, draw(st.integers(0, n - 1)), draw(st.sampled_from("ssh"))])
    return {"verts": verts, "edges": edges, "in": [], "out": list(range(n, n + nb)), "scalar": []}
def src(*names): return st.sampled_from(names).flatmap(lambda k: D[k]())
def B(names, srcs, lo=1, hi=6, backend="simple"): return lambda: st.fixed_dictionaries({"d": src(*srcs), "backend": st.just(backend), "ops": st.lists(st.tuples(st.sampled_from(names), st.integers(0, 11), st.integers(-3, 5)).map(list), min_size=lo, max_size=hi)})
def E(names, *srcs, hi=3): return lambda: st.fixed_dictionaries({"d": src(*srcs), "one": st.sampled_from([False, False, True]), "ops": st.lists(st.tuples(st.sampled_from(names), st.one_of(st.just([]), st.lists(st.booleans(), min_size=2, max_size=7))).map(list), min_size=1, max_size=hi)})
EA = ["spider", "to_z", "to_x", "rem_id", "id_z", "z_to_z_box", "had2edge", "fuse_hbox", "mult_hbox", "fuse_w", "copy", "pauli", "bialgebra", "euler", "lcomp", "pivot"]
SUBS = [Sub("basic_" + n, B([n], s, 1, 2), check_basic, 1200) for n, s in
        [("color_change", ("zx", "box", "w")), ("copy_X", ("leafy",)), ("copy_Z", ("leafy",)), ("pi_commute_X", ("zx", "sparse", "box")), ("pi_commute_Z", ("zx", "sparse", "box")),
         ("remove_id", ("ids", "sparse", "box", "w", "ids")), ("fuse", ("zx", "sparse", "box", "w")), ("strong_comp", ("pauli", "xh", "sparse"))]]
SUBS += [
    Sub("basic_mix", B(ONE + TWO, ("zx", "gl", "sparse", "pauli", "box"), 3, 8), check_basic, 2000),
    Sub("basic_multi", B(["color_change", "fuse", "fuse", "fuse", "remove_id", "strong_comp", "copy_X", "copy_Z"], ("zx", "multi", "multi", "pauli", "sparse"), 1, 6, "multigraph"), check_basic, 2000),
    Sub("whole", lambda: st.fixed_dictionaries({"d": src("zx", "box", "zh", "w"), "backend": st.just("simple")}), check_ccd, 600),
    Sub("whole_multi", lambda: st.fixed_dictionaries({"d": src("multi", "zx"), "backend": st.just("multigraph")}), check_ccd, 600),
    Sub("unfuse", lambda: st.fixed_dictionaries({"d": src("zx", "zh", "gl"), "ops": st.lists(st.tuples(st.integers(0, 9), st.integers(0, 63), st.one_of(st.none(), ph)).map(list), min_size=1, max_size=3)}), check_unfuse, 800)]
SUBS += [Sub("ed_" + n, E([n], *s, hi=2), check_editor, 900) for n, s in
         [("spider", ("zx", "sparse", "box")), ("to_z", ("zx", "box")), ("to_x", ("zx", "zh")), ("rem_id", ("ids", "sparse")), ("id_z", ("zx", "box", "w")), ("z_to_z_box", ("zx", "box")), ("had2edge", ("boxes", "zhp", "hc")),
          ("fuse_hbox", ("hc", "hc", "zhp")), ("mult_hbox", ("boxes",)), ("fuse_w", ("w",)), ("copy", ("sparse", "zhp", "paulih")), ("pauli", ("paulih", "sparse", "zx", "bs")), ("bialgebra", ("rg", "xh", "xh", "sparse", "bip", "bip")), ("euler", ("zx", "zh", "box")),
          ("lcomp", ("gl", "zx", "zh")), ("pivot", ("gl", "zx", "zh"))]]
SUBS += [Sub("ed_mix", E(EA, "zx", "gl", "zhp", "sparse", "paulih", "zh", "xh", "hc", "bip", hi=5), check_editor, 2000)]
