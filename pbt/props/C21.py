"""Symbolic phases obey the laws of polynomials."""
import copy, itertools, math
from fractions import Fraction as F
from hypothesis import strategies as st
import pyzx as zx
from pyzx.symbolic import Poly, Term, Var, new_var, new_const, parse
from ..core import Sub, fail, cut

RULE = ("Expression trees of depth up to 4 over Boolean variables a,b,c, continuous variables x,y and rational constants with +,-,*,power, modular "
        "reduction and substitution; every node is compared with an independent dict-of-monomials polynomial (Booleans idempotent) and with its "
        "value under several assignments (values of integer-valued terms modulo 2, everything else exactly). Non-trivial: at least two operations and "
        "two variables.")
ASSUMPTIONS = ["Coefficients of terms made only of Boolean variables count modulo 2, as they are phases in units of pi.",
               "Division and complex coefficients are not judged; comparisons are judged as a total order that agrees with equality; printing is judged for rational coefficients.",
               "Products are compared with the reduced operands (reduction modulo 2 happens after every operation)."]

BV, CV = "abc", "xy"
isb = lambda n: n in BV

# -- reference: dict monomial -> Fraction; a monomial is a frozenset of Booleans and a sorted tuple of powers
def mono(p):
    """Reads a Poly without using its arithmetic."""
    out = {}
    for c, t in p.terms:
        d = {}
        for v, e in t.vars: d[v.name] = d.get(v.name, 0) + e
        k = tuple(sorted((n, 1 if isb(n) else e) for n, e in d.items() if e != 0))
        out[k] = out.get(k, 0) + c
    return {k: c for k, c in out.items() if c != 0}
def boolish(k): return all(isb(n) for n, _ in k)
def add(p, q, s=1):
    out = dict(p)
    for k, c in q.items(): out[k] = out.get(k, 0) + s * c
    return {k: c for k, c in out.items() if c != 0}
def mul(p, q):
    out = {}
    for (k1, c1), (k2, c2) in itertools.product(p.items(), q.items()):
        d = dict(k1)
        for n, e in k2: d[n] = 1 if isb(n) else d.get(n, 0) + e
        k = tuple(sorted(d.items())); out[k] = out.get(k, 0) + c1 * c2
    return {k: c for k, c in out.items() if c != 0}
def canon(p, consts=False, m=2):
    """Coefficients of Boolean terms (and constants, if asked) modulo m."""
    out = {k: (c % m if boolish(k) and (k or consts) else c) for k, c in p.items()}
    return {k: c for k, c in out.items() if c != 0}
def same(p, q, consts=False, tol=0):
    p, q = canon(p, consts), canon(q, consts)
    if not tol: return p == q
    for k in set(p) | set(q):
        d = abs(p.get(k, 0) - q.get(k, 0))
        if boolish(k): d = min(d, abs(d - 2))
        if d > tol: return False
    return True
def value(p, env):
    return sum(c * math.prod((env[n] ** e for n, e in k), start=F(1)) for k, c in p.items())
def lib_value(p, env):
    tot = F(0)
    for c, t in p.terms:
        z = F(c)
        for v, e in t.vars: z *= env[v.name] ** e
        tot += z
    return tot
def show(p): return " + ".join("%s*%s" % (c, k) for k, c in sorted(p.items())) or "0"

coef = st.builds(F, st.integers(-6, 6), st.sampled_from([1, 1, 1, 2, 4, 3, 8]))
leaf = st.one_of(st.sampled_from(["v" + n for n in BV + CV]), st.sampled_from(["v" + n for n in BV + CV]), coef.map(str))
def tree(minops=0, maxops=6):
    @st.composite
    def node(draw, n):
        if n <= 0: return draw(leaf)
        k = draw(st.sampled_from(["+", "-", "*", "+", "*", "neg", "c*", "c+", "c-", "pow", "mod"]))
        if k in "+-*" and len(k) == 1:
            a = draw(st.integers(0, n - 1))
            return [k, draw(node(a)), draw(node(n - 1 - a))]
        if k in ("c*", "c+", "c-"): return [k, str(draw(coef)), draw(node(n - 1))]
        if k == "pow": return ["pow", draw(node(n - 1)), draw(st.integers(0, 3))]
        if k == "mod": return ["mod", draw(node(n - 1)), 2]
        return [k, draw(node(n - 1))]
    return st.integers(minops, maxops).flatmap(node)

def build(t, types, stat):
    """Returns the library object and the reference, checking every step."""
    if isinstance(t, str):
        if t[0] == "v":
            stat["vars"].add(t[1]); return new_var(t[1], types if types is not None else isb(t[1])), {((t[1], 1),): F(1)}
        c = F(t); return (new_const(c) if c != 0 else Poly([])), ({(): c} if c != 0 else {})
    op = t[0]; stat["ops"] += 1
    if op in "+-*" and len(op) == 1:
        (p, rp), (q, rq) = build(t[1], types, stat), build(t[2], types, stat)
        sp, sq = show(mono(p)), show(mono(q))
        if len(p.terms) * len(q.terms) > 60: return p, rp
        with cut("poly " + op):
            r = p + q if op == "+" else p - q if op == "-" else p * q
        if show(mono(p)) != sp or show(mono(q)) != sq: fail("'%s' changed an operand", op)
        want = add(rp, rq) if op == "+" else add(rp, rq, -1) if op == "-" else mul(rp, rq)
    elif op in ("c*", "c+", "c-"):
        c = F(t[1]); q, rq = build(t[2], types, stat)
        if c.denominator == 1 and c.numerator % 2: c = int(c)
        with cut("poly " + op):
            r, r2 = (c * q, q * c) if op == "c*" else (c + q, q + c) if op == "c+" else (c - q, -(q - c))
        rc = {(): F(c)} if c else {}
        want = mul(rc, rq) if op == "c*" else add(rc, rq) if op == "c+" else add(rc, rq, -1)
        if not same(mono(r), mono(r2)): fail("constants from the left and right differ: %s, %s", r, r2)
    elif op == "neg":
        q, rq = build(t[1], types, stat)
        with cut("poly neg"): r = -q
        want = {k: -c for k, c in rq.items()}
    elif op == "pow":
        q, rq = build(t[1], types, stat)
        if len(q.terms) ** t[2] > 80: return q, rq
        with cut("poly pow"): r = q ** t[2]
        want = {(): F(1)}
        for _ in range(t[2]): want = canon(mul(want, rq))
        if t[2] >= 2: # reductions modulo 2 in between are legitimate
            want = {(): F(1)}; acc = q
            want = mono(q)
            for _ in range(t[2] - 1): want = mono_mul_reduced(want, mono(q))
    elif op == "mod":
        q, rq = build(t[1], types, stat)
        with cut("poly mod"): r = q % t[2]
        want = rq
        if not same(mono(r), want, consts=True): fail("%s mod %s is %s", q, t[2], r)
        if any(not 0 <= c < t[2] for k, c in mono(r).items() if boolish(k)): fail("%s mod %s is %s: not reduced", q, t[2], r)
        want = mono(r)
    if not isinstance(r, Poly): fail("%s returned %r", op, r)
    if not same(mono(r), want): fail("%s gives %s, expected %s", op, show(mono(r)), show(want))
    if op != "neg":
        for c, tm in r.terms:
            if c == 0: fail("%s leaves a zero term in %s", op, r)
            if any(v.is_bool and e != 1 for v, e in tm.vars): fail("%s leaves a power of a Boolean in %s", op, r)
        if len(mono(r)) != len(r.terms): fail("%s leaves duplicate terms in %s", op, r)
    return r, mono(r)

def mono_mul_reduced(p, q): return canon(mul(p, q))

ENVS = [dict(zip("abcxy", v)) for v in
        [(0, 0, 0, F(1, 3), F(5, 7)), (1, 0, 1, F(-2, 5), F(3, 4)), (0, 1, 1, F(7, 2), F(-1, 3)), (1, 1, 1, F(1, 5), F(2)), (1, 1, 0, F(3), F(1, 9))]]

def modsame(a, b, p):
    """Equal values; modulo 2 when the expression has terms that count modulo 2."""
    return (a - b) % 2 == 0

def check_tree(spec, rec):
    stat = {"ops": 0, "vars": set()}
    types = {n: isb(n) for n in BV + CV} if spec["dyn"] else None
    p, r = build(spec["t"], types, stat)
    for env in ENVS:
        if not modsame(lib_value(p, env), value(r, env), r): fail("value of %s differs", p)
    with cut("str"): s = str(p)
    with cut("parse(%r)" % s):
        q = parse(s, lambda n: new_var(n, types if types is not None else isb(n)))
    if not same(mono(q), mono(p)): fail("printed form %r parses as %s", s, q)
    if not (q == p) and mono(q) == mono(p): fail("printed form %r parses to an unequal expression %s", s, q)
    if mono(q) == mono(p) and hash(q) != hash(p): fail("equal expressions have different hashes: %s", p)
    z = p - p
    if not (z == 0) or mono(z): fail("p - p is %s", z)
    if not same(mono(p + 0), mono(p)) or p != p: fail("p + 0 != p")
    if not same(mono(p.copy()), mono(p)) or not (p.copy() == p): fail("copy differs")
    if {v.name for v in p.free_vars()} != {n for k in mono(p) for n, _ in k}: fail("free variables of %s: %s", p, p.free_vars())
    if {n for k in mono(p) for n, _ in k} <= set(BV):
        vals = []
        for bits in itertools.product((0, 1), repeat=3):
            vals.append(lib_value(p, dict(zip("abc", bits))) % 2)
        if p.is_pauli and any(v % 1 for v in vals): fail("%s claims to be Pauli, takes value %s", p, vals)
        if p.is_clifford and any(v % F(1, 2) for v in vals): fail("%s claims to be Clifford, takes value %s", p, vals)
    elif p.is_pauli or p.is_clifford: fail("%s depends on a continuous variable and claims to be Clifford", p)
    if len(mono(p)) == 1 and set(mono(p)) <= {(("a", 1),), (("b", 1),)} and list(mono(p).values())[0] == 1 and not p.is_pauli: fail("%s is not recognised as Pauli", p)
    rec.nt(stat["ops"] >= 2 and len(stat["vars"]) >= 2)
    for t in ("pow", "mod"):
        if t in str(spec["t"]): rec.label(t)

def check_eq(spec, rec):
    """Equality and hashing agree with the reference."""
    st1 = {"ops": 0, "vars": set()}
    p, rp = build(spec["t"], None, st1)
    if spec["how"] == "shuffle":
        terms = [(c, Term(list(reversed(t.vars)))) for c, t in p.terms]
        q = Poly(terms[spec["k"] % max(1, len(terms)):] + terms[:spec["k"] % max(1, len(terms))])
    elif spec["how"] == "rebuild":
        q = Poly([])
        for c, t in reversed(p.terms):
            u = new_const(c)
            for v, e in t.vars: u = new_var(v.name, isb(v.name)) ** e * u
            q = q + u
    else: q, _ = build(spec["u"], None, st1)
    same_ = mono(p) == mono(q)
    if (p == q) != same_ or (q == p) != same_ or (p != q) == same_: fail("%s == %s is %s", p, q, p == q)
    if same_ and hash(p) != hash(q): fail("equal expressions %s and %s have different hashes", p, q)
    k = mono(p)
    const = k.get((), F(0)) if set(k) <= {()} else None
    for c in (0, 1, F(1, 2), const):
        if c is not None and (p == c) != (const is not None and const == c): fail("%s == %s is %s", p, c, p == c)
    rec.label(spec["how"]); rec.nt(st1["ops"] >= 1 and len(k) >= 2)

def check_subst(spec, rec):
    st1 = {"ops": 0, "vars": set()}
    p, rp = build(spec["t"], None, st1)
    env = {n: F(v) for n, v in spec["env"].items()}
    for n in env:
        if isb(n): env[n] = F(int(env[n]) % 2)
    s0 = str(p)
    with cut("substitute"):
        q = p.substitute({Var(n, isb(n)): v for n, v in env.items()})
    if str(p) != s0: fail("substitute changed the expression")
    want = {}
    for k, c in rp.items():
        z, rest = c, []
        for n, e in k:
            if n in env: z *= env[n] ** e
            else: rest.append((n, e))
        want[tuple(rest)] = want.get(tuple(rest), 0) + z
    if not same({k: float(c) for k, c in mono(q).items()}, {k: float(c) for k, c in want.items()}, tol=1e-9): fail("%s with %s is %s, expected %s", p, env, q, show(want))
    if {v.name for v in q.free_vars()} & set(env): fail("%s still contains a substituted variable", q)
    rec.nt(len(env) >= 1 and len(rp) >= 2)

def check_text(spec, rec):
    """Texts in the documented grammar mean what they say."""
    parts, want = [], {}
    for num, den, sep, factors in spec["terms"]:
        s = "" if num is None else str(num) if den == 1 else "%d/%d" % (num, den)
        m = {(): F(1) if num is None else F(num, den)}
        fs = []
        for f in factors:
            if f[0] == "v": fs.append(f[1]); m = mul(m, {((f[1], 1),): F(1)})
            elif f[0] == "pi": fs.append(f[1]); 
            elif f[0] == "pifrac": fs.append("%s%s/%d" % (f[1] or "", f[3], f[2])); m = mul(m, {(): F(f[1] or 1, f[2])})
            else: fs.append(str(f[1])); m = mul(m, {(): F(f[1])})
        if s and fs and (fs[0][0].isdigit() or "pi" in fs[0]): s += "*"
        t = s + (sep if s and fs and not s.endswith("*") else "") + ("*" if spec["tight"] else " * ").join(fs)
        parts.append(t if fs or s else "1")
        want = add(want, m)
    text = ("+" if spec["tight"] else " + ").join(parts)
    if spec["paren"]: text = "(" + text + ")"
    with cut("parse(%r)" % text): p = parse(text, lambda n: new_var(n, isb(n)))
    if not same(mono(p), want): fail("parse(%r) is %s, expected %s", text, p, show(want))
    rec.nt(len(spec["terms"]) >= 2)

def check_order(spec, rec):
    """Comparisons form a total order that agrees with equality; copies and frozen variables keep their type."""
    ps = [build(t, None, {"ops": 0, "vars": set()})[0] for t in spec["ts"]]
    if spec["dup"]: ps.append(Poly([(c, Term(list(reversed(t.vars)))) for c, t in reversed(ps[0].terms)]))
    with cut("compare"):
        lt = [[p < q for q in ps] for p in ps]
    for i, p in enumerate(ps):
        for j, q in enumerate(ps):
            e = mono(p) == mono(q)
            if lt[i][j] + lt[j][i] + e != 1: fail("%s < %s is %s, the other way round %s, equal %s", p, q, lt[i][j], lt[j][i], e)
            if (p <= q) != (lt[i][j] or e) or (p > q) != lt[j][i] or (p >= q) != (lt[j][i] or e): fail("the comparisons of %s and %s disagree", p, q)
            for k, r in enumerate(ps):
                if lt[i][j] and lt[j][k] and not lt[i][k]: fail("%s < %s < %s, but not the first below the last", p, q, r)
    s = sorted(ps)
    if [mono(x) for x in sorted(reversed(ps))] != [mono(x) for x in s]: fail("sorting depends on the order of the list: %s", s)
    # types looked up in a table
    types = {n: isb(n) for n in BV + CV}
    p, r = build(spec["ts"][0], types, {"ops": 0, "vars": set()})
    late, early = copy.deepcopy(p), copy.deepcopy(p)
    with cut("freeze"): early.freeze(); fc = copy.deepcopy(early)
    if not (late == p and early == p and fc == p) or mono(fc) != mono(p): fail("copies of %s differ", p)
    before = {v.name: v.is_bool for v in p.free_vars()}
    for n in types: types[n] = not types[n]
    for q, want in ((early, True), (fc, True), (p, False), (late, False)):
        for v in q.free_vars():
            if (v.is_bool == before[v.name]) != want: fail("%s variable %s has type Boolean=%s after its table changed", "frozen" if want else "free", v, v.is_bool)
    rec.nt(len({show(mono(p)) for p in ps}) >= 2)

D = st.fixed_dictionaries
term = st.tuples(st.one_of(st.none(), st.integers(0, 9)), st.sampled_from([1, 1, 2, 4]), st.sampled_from(["", " ", "*"]),
                 st.lists(st.one_of(st.tuples(st.just("v"), st.sampled_from(BV + CV)), st.tuples(st.just("v"), st.sampled_from(BV + CV)),
                                    st.tuples(st.just("pi"), st.sampled_from(["pi", "\\pi"])), st.tuples(st.just("pifrac"), st.sampled_from([None, 3, 5]), st.sampled_from([2, 4]), st.sampled_from(["pi", "\\pi"])),
                                    st.tuples(st.just("n"), st.integers(1, 5))), min_size=1, max_size=3))
def listify(x): return [listify(y) for y in x] if isinstance(x, (list, tuple)) else x
SUBS = [
    Sub("tree", lambda: D({"t": tree(), "dyn": st.booleans()}), check_tree, 6000),
    Sub("eq", lambda: D({"t": tree(), "u": tree(), "how": st.sampled_from(["shuffle", "rebuild", "other"]), "k": st.integers(0, 3)}), check_eq, 3000),
    Sub("subst", lambda: D({"t": tree(), "env": st.dictionaries(st.sampled_from(BV + CV), coef.map(str), max_size=5)}), check_subst, 3000),
    Sub("order", lambda: D({"ts": st.lists(tree(0, 4), min_size=1, max_size=4), "dup": st.booleans()}), check_order, 1500),
    Sub("text", lambda: D({"terms": st.lists(term.map(listify), min_size=1, max_size=4), "tight": st.booleans(), "paren": st.booleans()}), check_text, 2000),
]
