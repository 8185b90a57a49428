"""GF(2) linear algebra is correct."""
import itertools
import numpy as np
import pyzx as zx
from hypothesis import strategies as st
from pyzx.linalg import Mat2, CNOTMaker
from pyzx import extract as ex
from ..core import Sub, fail, cut
from .. import oracle

RULE = ("Matrices over GF(2) of sizes up to 10x10 with row multiplicities, dependent rows, low and high density, zero rows and columns, "
        "invertible ones built from row operations; every block size; the reference is numpy arithmetic mod 2 with an independent elimination. "
        "Non-trivial: at least 2x2, neither zero nor a permutation matrix.")
ASSUMPTIONS = ["to_cnots: the circuit of the returned CNOTs (first element applied first) maps column vectors by the transpose of the matrix - the "
               "orientation used by circuit extraction; it is judged for invertible matrices.",
               "column_optimal_swap is a heuristic: the result must be a permutation; optimality is not judged; at most as many rows as columns (as in extraction).",
               "Matrices without rows have no column count in this representation and are not judged."]

@st.composite
def mat(draw, rmax=9, cmax=9, rmin=1, cmin=1, square=False, pool=("rand", "rand", "sparse", "dep", "dup", "full", "inv", "lowrank")):
    r = draw(st.integers(rmin, rmax)); c = r if square else draw(st.integers(cmin, cmax))
    how = draw(st.sampled_from(pool))
    bit = st.integers(0, 1)
    if how == "inv":
        n = r
        M = np.eye(n, dtype=int)
        for a, b in draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)), max_size=3 * n)):
            if a != b: M[b] ^= M[a]
        M = M[draw(st.permutations(range(n)))]
        if not square and c != n:
            M = M[:, :c] if c < n else np.hstack([M, np.array([[draw(bit) for _ in range(c - n)] for _ in range(n)])])
        return M.tolist()
    if how == "sparse":
        M = np.zeros((r, c), dtype=int)
        for a, b in draw(st.lists(st.tuples(st.integers(0, r - 1), st.integers(0, c - 1)), max_size=r + c)): M[a, b] = 1
        return M.tolist()
    rows = [[int(x) for x in format(draw(st.integers(0, 2 ** c - 1)), "0%db" % c)] for _ in range(r)]
    M = np.array(rows)
    if how in ("dep", "dup"):
        for i in range(1, r):
            if draw(st.booleans()):
                sel = draw(st.lists(st.integers(0, i - 1), min_size=1, max_size=1 if how == "dup" else 3))
                M[i] = np.bitwise_xor.reduce(M[sel], axis=0)
    if how == "lowrank":
        k = draw(st.integers(0, min(2, r, c)))
        A = np.array([[draw(bit) for _ in range(k)] for _ in range(r)]).reshape(r, k)
        M = (A @ M[:k]) % 2 if k else np.zeros((r, c), dtype=int)
    if how == "full": M = 1 - M * (1 - np.eye(r, c, dtype=int)) if draw(st.booleans()) else np.ones((r, c), dtype=int)
    return (M % 2).astype(int).tolist()

def rref(M):
    M = np.array(M, dtype=int).copy(); r = 0; piv = []
    for c in range(M.shape[1]):
        p = [i for i in range(r, M.shape[0]) if M[i, c]]
        if not p: continue
        M[[r, p[0]]] = M[[p[0], r]]
        for i in range(M.shape[0]):
            if i != r and M[i, c]: M[i] ^= M[r]
        piv.append(c); r += 1
    return M, piv

def A(m): return np.array(m.data, dtype=int).reshape(m.rows(), m.cols())
def M2(a): return Mat2([list(map(int, r)) for r in a])
def interesting(a): 
    a = np.array(a); return a.shape[0] >= 2 and a.shape[1] >= 2 and a.any() and not (a.sum(0) == 1).all()

class Ops:
    """Records operations instead of applying them."""
    def __init__(self): self.r = []; self.c = []
    def row_add(self, a, b): self.r.append((a, b))
    def col_add(self, a, b): self.c.append((a, b))

def check_arith(spec, rec):
    a = np.array(spec["a"]); r, c = a.shape
    m = M2(a)
    b = np.array(spec["b"])[:c] if len(spec["b"]) >= c else np.resize(np.array(spec["b"]), (c, len(spec["b"][0])))
    mb = M2(b)
    with cut("mat2"):
        if m.rows() != r or m.cols() != c: fail("rows/cols wrong")
        if not (A(m * mb) == (a @ b) % 2).all(): fail("product wrong")
        if not (A(m.transpose()) == a.T).all(): fail("transpose wrong")
        if not (A(Mat2.id(c)) == np.eye(c)).all() or A(Mat2.zeros(r, c)).any() or Mat2.zeros(r, c).rows() != r: fail("id/zeros wrong")
        u = Mat2.unit_vector(c, spec["i"] % c)
        if A(u).tolist() != np.eye(c, dtype=int)[:, [spec["i"] % c]].tolist(): fail("unit_vector wrong")
        if not (A(m) == a).all() or not (A(mb) == b).all(): fail("an argument was changed")
        k = m.copy()
        if not (k == m) or k != m: fail("copy differs")
        i, j = spec["i"] % r, spec["j"] % c
        k[i, j] = 1 - k[i, j]
        if k == m or (A(m) != a).any(): fail("a modified copy equals / changes the original")
        if m == M2(np.vstack([a, a])) or m == 3: fail("different shapes compare equal")
        x = a.copy(); k = m.copy()
        for op, p, q in spec["ops"]:
            if op.startswith("row"): p, q = p % r, q % r
            else: p, q = p % c, q % c
            if op.endswith("add") and p == q: continue
            getattr(k, op)(p, q)
            if op == "row_add": x[q] ^= x[p]
            elif op == "col_add": x[:, q] ^= x[:, p]
            elif op == "row_swap": x[[p, q]] = x[[q, p]]
            else: x[:, [p, q]] = x[:, [q, p]]
            if not (A(k) == x).all(): fail("%s(%s,%s) wrong", op, p, q)
        pr, pc = [z for z in spec["perm"] if z < r], [z for z in spec["perm"] if z < c]
        k.permute_rows(pr); x = x[pr]
        if not (A(k) == x).all(): fail("permute_rows wrong")
        k.permute_cols(pc); x = x[:, pc]
        if not (A(k) == x).all(): fail("permute_cols wrong")
        s, t = sorted((spec["i"] % (r + 1), spec["j"] % (r + 1))); s2, t2 = sorted((spec["j"] % (c + 1), spec["i"] % (c + 1)))
        if t > s and t2 > s2:
            if k[s:t, s2:t2].data != x[s:t, s2:t2].tolist() or k[i, s2:t2].data != [x[i, s2:t2].tolist()] or k[s:t, j].data != x[s:t, [j]].tolist(): fail("slicing wrong")
            z = 1 - x[s:t, s2:t2]
            k[s:t, s2:t2] = M2(z); x[s:t, s2:t2] = z
            if not (A(k) == x).all(): fail("slice assignment wrong")
            z = 1 - x[s - r:, :t2 - c or None]
            if k[s - r:, :t2 - c or None].data != (1 - z).tolist(): fail("slicing from the end wrong")
            k[s - r:, :t2 - c or None] = M2(z); x[s - r:, :t2 - c or None] = z
            if not (A(k) == x).all(): fail("slice assignment from the end wrong")
    if (A(m) != a).any(): fail("the original changed")
    rec.nt(interesting(a))

def check_gauss(spec, rec):
    a = np.array(spec["a"]); r, c = a.shape
    full, bs = spec["full"], spec["bs"]
    R, piv = rref(a)
    m = M2(a)
    x, y, ops = Mat2.id(r), Mat2.id(r), Ops()
    pc = []
    with cut("gauss"):
        how = spec["how"]
        if how == "none": rank = m.gauss(full_reduce=full, blocksize=bs, pivot_cols=pc)
        elif how == "xy": rank = m.gauss(full_reduce=full, x=x, y=y, blocksize=bs, pivot_cols=pc)
        elif how == "y": rank = m.gauss(full_reduce=full, y=y, blocksize=bs, pivot_cols=pc)
        else: rank = m.gauss(full_reduce=full, x=ops, y=ops, blocksize=bs, pivot_cols=pc)
    if rank != len(piv): fail("gauss returned rank %s, expected %s", rank, len(piv))
    if pc != piv: fail("pivot columns %s, expected %s", pc, piv)
    g = A(m)
    lead = [list(row).index(1) if row.any() else c for row in g]
    if any(l1 >= l2 for l1, l2 in zip(lead, lead[1:]) if l1 < c) or any(l2 < c for l1, l2 in zip(lead, lead[1:]) if l1 == c): fail("result is not in echelon form")
    if not (rref(g)[0] == R).all(): fail("gauss changed the row space")
    if full and not (g == R).all(): fail("full reduction is not the reduced echelon form")
    if how == "xy" and not ((A(x) @ a) % 2 == g).all(): fail("x * m is not the reduced matrix")
    if how in ("xy", "y") and not ((A(y) @ g) % 2 == a).all(): fail("y * reduced matrix is not m")
    if how == "ops":
        z = a.copy()
        for p, q in ops.r: z[q] ^= z[p]
        if not (z == g).all(): fail("recorded row operations do not reproduce the result")
        w = np.eye(r, dtype=int)
        for p, q in ops.c: w[:, q] ^= w[:, p]
        if not ((w @ g) % 2 == a).all(): fail("recorded column operations do not invert the reduction")
    rec.label(how); rec.nt(interesting(a))

def check_derived(spec, rec):
    a = np.array(spec["a"]); r, c = a.shape
    m = M2(a); R, piv = rref(a); k = len(piv)
    with cut("rank"):
        if m.rank() != k: fail("rank %s, expected %s", m.rank(), k)
    with cut("factor"):
        if k:
            f, h = m.factor()
            if (f.rows(), f.cols(), h.rows(), h.cols()) != (r, k, k, c) or not (A(f * h) == a).all(): fail("factor is not a rank factorisation")
    with cut("inverse"):
        inv = m.inverse()
        if (inv is not None) != (r == c == k): fail("inverse() is %s for a %sx%s matrix of rank %s", inv, r, c, k)
        if inv is not None and not ((A(inv) @ a) % 2 == np.eye(r)).all(): fail("inverse is not an inverse")
    b = np.array([spec["b"][i % len(spec["b"])] for i in range(r)]).reshape(r, 1)
    if spec["hit"]: b = (a @ np.array([spec["b"][i % len(spec["b"])] for i in range(c)]).reshape(c, 1)) % 2
    mb = M2(b)
    with cut("solve"):
        s = m.solve(mb)
        sol = rref(np.hstack([a, b]))[1]
        has = c not in sol
        if (s is not None) != has: fail("solve() is %s, a solution %s", s, "exists" if has else "does not exist")
        if s is not None and ((s.rows(), s.cols()) != (c, 1) or not ((a @ A(s)) % 2 == b).all()): fail("solve() returned a wrong solution")
    with cut("nullspace"):
        ns = m.nullspace()
        if len(ns) != c - k: fail("nullspace has %s vectors, expected %s", len(ns), c - k)
        for v in ns:
            if len(v) != c or ((a @ np.array(v)) % 2).any(): fail("nullspace vector not in the kernel")
        if ns and len(rref(np.array(ns))[1]) != len(ns): fail("nullspace vectors are dependent")
    if not (A(m) == a).all() or not (A(mb) == b).all(): fail("an argument was changed")
    n2 = m.copy().nullspace(should_copy=False)
    if n2 != ns: fail("nullspace(should_copy=False) differs")
    rec.label("inv" if r == c == k else "sing"); rec.nt(interesting(a))

def apply_rows(a, cnots):
    z = a.copy()
    for g in cnots: z[g.control] ^= z[g.target]
    return z

def check_cnots(spec, rec):
    a = np.array(spec["a"]); n = len(a)
    m = M2(a)
    for opt, lb in ((False, False), (False, True), (True, False)):
        with cut("to_cnots"):
            cn = m.to_cnots(optimize=opt, use_log_blocksize=lb)
        if any(g.name != "CNOT" or g.control == g.target or not (0 <= g.control < n and 0 <= g.target < n) for g in cn): fail("to_cnots returned a bad gate")
        L = np.eye(n, dtype=int)
        for g in cn: L[g.target] ^= L[g.control]
        if len(rref(a)[1]) == n:
            if not (L == a.T).all(): fail("to_cnots(optimize=%s, use_log_blocksize=%s) implements another linear map", opt, lb)
        elif not (rref(apply_rows(a, cn))[0] == apply_rows(a, cn)).all(): fail("to_cnots of a singular matrix does not reduce it")
    if not (A(m) == a).all(): fail("to_cnots changed the matrix")
    if n <= 4 and len(rref(a)[1]) == n:
        c = zx.Circuit(n); c.gates = list(cn)
        U = oracle.lib_circuit_unitary(c)
        for x in range(2 ** n):
            v = np.array([(x >> (n - 1 - i)) & 1 for i in range(n)]); w = (a.T @ v) % 2
            if abs(U[int("".join(map(str, w)), 2), x] - 1) > 1e-9: fail("unitary of the CNOTs is wrong")
    maker = CNOTMaker(); Mm = m.copy(); Mm.gauss(full_reduce=True, x=maker)
    with cut("remove_extra_cnots"):
        red = ex.remove_extra_cnots(list(maker.cnots), m.copy())
    if len(red) > len(maker.cnots): fail("remove_extra_cnots added gates")
    one = lambda z: int((z.sum(axis=1) == 1).sum())
    if one(apply_rows(a, maker.cnots)) and not one(apply_rows(a, red)): fail("remove_extra_cnots leaves nothing extractable")
    with cut("filter_duplicate_cnots"):
        f = ex.filter_duplicate_cnots(list(maker.cnots))
    if not (apply_rows(a, f) == apply_rows(a, maker.cnots)).all() or len(f) > len(maker.cnots): fail("filter_duplicate_cnots changed the linear map")
    rec.nt(interesting(a))

def check_helpers(spec, rec):
    a = np.array(spec["a"]); r, c = a.shape
    m = M2(a)
    sums = {}
    for k in range(1, r + 1):
        for s in itertools.combinations(range(r), k):
            if np.bitwise_xor.reduce(a[list(s)], axis=0).sum() == 1: sums.setdefault(k, []).append(s)
    best = min(sums) if sums else None
    with cut("find_minimal_sums"):
        for rev in (False, True):
            s = ex.find_minimal_sums(m, rev)
            if best == 1:
                if s != (): fail("find_minimal_sums returned %s although a row is already reduced", s)
            elif best is None:
                if s is not None: fail("find_minimal_sums returned %s, nothing exists", s)
            elif s is None or len(s) != best or np.bitwise_xor.reduce(a[list(s)], axis=0).sum() != 1: fail("find_minimal_sums returned %s, best has %s rows", s, best)
    for f in (ex.greedy_reduction, ex.greedy_reduction_flat):
        with cut(f.__name__):
            ops = f(m)
        if (ops is None) != (best is None): fail("%s returned %s", f.__name__, ops)
        if ops is not None:
            if best > 1 and len(ops) != best - 1: fail("%s uses %s operations instead of %s", f.__name__, len(ops), best - 1)
            z = a.copy()
            for p, q in ops: z[q] ^= z[p]
            if not (z.sum(axis=1) == 1).any(): fail("%s did not reduce a row", f.__name__)
    tot = sum(len([s for s in v if len(s) > 1]) for v in sums.values())
    with cut("greedy_two_reduction"):
        ops = ex.greedy_two_reduction(m)
    if ops is not None:
        z = a.copy()
        for p, q in ops: z[q] ^= z[p]
        if (z.sum(axis=1) == 1).sum() < 2: fail("greedy_two_reduction did not reduce two rows")
    elif tot >= 2: fail("greedy_two_reduction found nothing although %s reductions exist", tot)
    if not (A(m) == a).all(): fail("argument changed")
    rec.nt(best is not None and best > 1)

def check_swap(spec, rec):
    a = np.array(spec["a"])
    if a.shape[0] > a.shape[1]: a = a.T
    r, c = a.shape
    m = M2(a)
    with cut("column_optimal_swap"):
        t = ex.column_optimal_swap(m)
    if sorted(t.keys()) != sorted(set(t.keys())) or len(set(t.values())) != len(t): fail("column_optimal_swap returned a non-injective map %s", t)
    if (sorted(t) != list(range(c)) or sorted(t.values()) != list(range(c))): fail("column_optimal_swap is not a permutation: %s", t)
    if not (A(m) == a).all(): fail("argument changed")
    if r == c:
        with cut("permutation_as_swaps"):
            sw = ex.permutation_as_swaps(dict(t))
        l = list(range(c))
        for p, q in sw: l[p], l[q] = l[q], l[p]
        # the swaps, applied in order, bring element t... to its place
        ok1 = all(l[t[i]] == i for i in range(c)); ok2 = all(l[i] == t[i] for i in range(c))
        if not (ok1 or ok2): fail("permutation_as_swaps %s does not realise %s", sw, t)
    rec.nt(interesting(a))

def check_perm(spec, rec):
    p = spec["p"]; n = len(p)
    with cut("permutation_as_swaps"):
        sw = ex.permutation_as_swaps({i: p[i] for i in range(n)})
    l = list(range(n))
    for a, b in sw: l[a], l[b] = l[b], l[a]
    if [l[i] for i in range(n)] != ORIENT(p): fail("permutation_as_swaps(%s) gives %s", p, l)
    rec.nt(n > 2 and sw)

def ORIENT(p): return [p.index(i) for i in range(len(p))]   # position p[i] ends up holding i

def check_overlap(spec, rec):
    a = np.array(spec["a"]); n = len(a)
    a = np.triu(a, 1); a = a + a.T
    with cut("max_overlap"):
        (i, j), common = ex.max_overlap(M2(a))
    G = a @ a.T
    best = max((G[p, q] for p in range(n) for q in range(p + 1, n)), default=0)
    if best == 0:
        if common: fail("max_overlap found %s although nothing overlaps", common)
    else:
        if i == j or G[i, j] != best or sorted(common) != [k for k in range(n) if a[i, k] and a[j, k]]: fail("max_overlap returned %s %s, maximum is %s", (i, j), common, best)
    rec.nt(best >= 2)

def check_biadj(spec, rec):
    a = np.array(spec["a"]); b = np.array(spec["b"]); r, c = a.shape
    b = np.resize(b, (r, c))
    g = zx.Graph()
    vs = [g.add_vertex(1) for _ in range(c)]; ws = [g.add_vertex(1) for _ in range(r)]
    extra = g.add_vertex(1); g.add_edge((extra, vs[0]), 2); g.add_edge((vs[0], vs[-1]), 2) if c > 1 else None
    with cut("connectivity_from_biadj"):
        ex.connectivity_from_biadj(g, M2(a), vs, ws)
        if not (A(ex.bi_adj(g, vs, ws)) == a).all(): fail("bi_adj differs from the matrix just set")
        ex.connectivity_from_biadj(g, M2(b), vs, ws)
    if not (A(ex.bi_adj(g, vs, ws)) == b).all(): fail("connectivity_from_biadj did not set the matrix")
    if g.num_edges() != b.sum() + (2 if c > 1 else 1): fail("connectivity_from_biadj changed other edges")
    if any(g.edge_type(e) != 2 for e in g.edges()): fail("wrong edge types")
    rec.nt(interesting(b))

D = st.fixed_dictionaries
I = st.integers
SUBS = [
    Sub("arith", lambda: D({"a": mat(7, 7), "b": mat(7, 7), "i": I(0, 7), "j": I(0, 7), "perm": st.permutations(range(7)).map(list),
                            "ops": st.lists(st.tuples(st.sampled_from(["row_add", "col_add", "row_swap", "col_swap"]), I(0, 6), I(0, 6)).map(list), max_size=8)}), check_arith, 2500),
    Sub("gauss", lambda: D({"a": mat(), "full": st.booleans(), "bs": st.sampled_from([1, 2, 3, 4, 5, 6, 9, 20]),
                            "how": st.sampled_from(["none", "xy", "y", "ops"])}), check_gauss, 5000),
    Sub("gauss_big", lambda: D({"a": mat(14, 14, 6, 6), "full": st.booleans(), "bs": I(1, 8), "how": st.sampled_from(["none", "xy", "ops"])}), check_gauss, 1500),
    Sub("derived", lambda: D({"a": mat(), "b": st.lists(I(0, 1), min_size=1, max_size=9), "hit": st.booleans()}), check_derived, 4000),
    Sub("derived_sq", lambda: D({"a": mat(square=True, pool=("inv", "inv", "rand", "dep")), "b": st.lists(I(0, 1), min_size=1, max_size=9), "hit": st.booleans()}), check_derived, 2500),
    Sub("cnots", lambda: D({"a": mat(8, square=True, pool=("inv", "inv", "inv", "rand", "dep"))}), check_cnots, 2500),
    Sub("helpers", lambda: D({"a": mat(6, 7, 3, 3, pool=("inv", "inv", "rand", "rand", "full", "dep"))}), check_helpers, 2500),
    Sub("colswap", lambda: D({"a": mat(7, 8)}), check_swap, 3000),
    Sub("perm", lambda: D({"p": I(1, 8).flatmap(lambda n: st.permutations(range(n)).map(list))}), check_perm, 800),
    Sub("overlap", lambda: D({"a": mat(7, square=True)}), check_overlap, 1000),
    Sub("biadj", lambda: D({"a": mat(5, 5), "b": mat(5, 5)}), check_biadj, 800),
]
