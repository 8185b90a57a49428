"""Scalar bookkeeping equals complex arithmetic."""
import cmath, math, re
from fractions import Fraction as F
from hypothesis import strategies as st
import numpy as np
from pyzx.graph.scalar import Scalar
from ..core import Sub, fail, cut
from .. import gens, oracle

RULE = ("Histories of up to 12 accumulation operations (powers of sqrt 2, phases, legless spiders, connected spider pairs, real and complex "
        "floats, zero, products with other scalars, copies, conjugates) tracked by a plain complex number; all readings and textual forms are "
        "compared with that number and the scalar must not change by being read. Non-trivial: at least three operations of two kinds, non-zero value.")
ASSUMPTIONS = ["Phases are rational, in [0,2) for spiders (as the library stores them). Unknown scalars denote no number and are only checked to stay unknown.",
               "Textual forms are compared with the precision they print."]

ph = gens.phase_red
def e(x): return cmath.exp(1j * math.pi * x)

def apply(s, z, op, others):
    k, a = op[0], op[1:]
    if k == "power": s.add_power(a[0]); return s, z * math.sqrt(2) ** a[0]
    if k == "phase": s.add_phase(F(a[0])); return s, z * e(F(a[0]))
    if k == "node": s.add_node(F(a[0])); return s, z * (1 + e(F(a[0])))
    if k == "float": s.add_float(a[0]); return s, z * a[0]
    if k == "complex": s.add_float(complex(*a)); return s, z * complex(*a)
    if k == "pair":
        p, q = F(a[0]), F(a[1])
        s.add_spider_pair(p, q); return s, z * (1 + e(p) + e(q) - e(p + q)) / math.sqrt(2)
    if k == "mult":
        t, w = make(a[0])
        st_ = state(t)
        s.mult_with_scalar(t)
        if state(t) != st_: fail("mult_with_scalar changed its argument")
        others.append((t, w)); return s, z * w
    if k == "copy":
        t = s.copy(); others.append((s, z)); return t, z
    if k == "conj":
        t = s.conjugate() if a[0] else s.copy(conjugate=True); others.append((s, z)); return t, z.conjugate()
    raise AssertionError(k)

def state(s): return (s.power2, F(s.phase), list(map(F, s.phasenodes)), complex(s.floatfactor), s.is_zero, s.is_unknown)

def make(ops):
    s, z, o = Scalar(), 1 + 0j, []
    for op in ops: s, z = apply(s, z, op, o)
    return s, z

def same(a, b): return abs(complex(a) - b) <= 1e-7 * max(1, abs(b))

num = r"[-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|\.\d+)"
def parse_factor_list(t):
    """Reads the output of to_unicode/to_latex: sign or number, sqrt2 power, exponential."""
    sup = str.maketrans("⁰¹²³⁴⁵⁶⁷⁸⁹⁻", "0123456789-")
    v = 1 + 0j
    m = re.match(r"^-(?![\d.(])", t) or re.match(r"^-$", t)
    if m: v = -1; t = t[1:]
    else:
        m = re.match(r"^(\([^()]*j\)|[-+]?[\d.]+(?:e[-+]?\d+)?j?)", t)
        if m: v = complex(m.group(1).strip("()")); t = t[m.end():]
    m = re.match(r"^√2([⁰¹²³⁴⁵⁶⁷⁸⁹⁻]+)", t)
    if m: v *= math.sqrt(2) ** int(m.group(1).translate(sup)); t = t[m.end():]
    m = re.match(r"^\\sqrt\{2\}\^\{(-?\d+)\}", t)
    if m: v *= math.sqrt(2) ** int(m.group(1)); t = t[m.end():]
    m = re.match(r"^exp\(i(.*)π\)$", t)
    if m:
        u = {"¼": F(1, 4), "½": F(1, 2), "¾": F(3, 4)}
        v *= e(u[m.group(1)] if m.group(1) in u else F(m.group(1))); t = ""
    m = re.match(r"^\\exp\(i~\\frac\{(-?\d+)\\pi\}\{(\d+)\}\)$", t)
    if m: v *= e(F(int(m.group(1)), int(m.group(2)))); t = ""
    if t: fail("cannot read the rest %r of a textual form", t)
    return v

def parse_str(t):
    head, tail = t.split(" = ", 1)
    h = complex(head.replace("i", "j"))
    v = 1 + 0j
    m = re.match(r"^([-+]?[\d.]+[-+][\d.]+)i(?=exp|sqrt)", tail)
    if m: v *= complex(m.group(1) + "j"); tail = tail[m.end():]
    m = re.match(r"^exp\((-?[\d/]+)ipi\)", tail)
    if m: v *= e(F(m.group(1))); tail = tail[m.end():]
    m = re.match(r"^sqrt\(2\)\^(-?\d+)", tail)
    v *= math.sqrt(2) ** int(m.group(1)); tail = tail[m.end():]
    while tail:
        m = re.match(r"^\(1\+exp\((-?[\d/]+)ipi\)\)", tail)
        if not m: fail("cannot read %r", tail)
        v *= 1 + e(F(m.group(1))); tail = tail[m.end():]
    return h, v

def check(spec, rec):
    others = []
    with cut("scalar operations"):
        s, z = Scalar(), 1 + 0j
        for op in spec:
            s, z = apply(s, z, op, others)
            if not same(s.to_number(), z): fail("after %s the scalar is %s, expected %s", op, s.to_number(), z)
    for t, w in others:
        if not same(t.to_number(), w): fail("a scalar changed after it was copied or multiplied into another")
    S = state(s)
    with cut("reading"):
        if not same(complex(s), z): fail("complex() is %s, expected %s", complex(s), z)
        txt, uni, lat, pol, js = str(s), s.to_unicode(), s.to_latex(), s.polar_str(), s.to_json()
        repr(s)
    if state(s) != S: fail("reading the scalar changed it")
    if s.is_zero and abs(z) > 1e-9: fail("is_zero for a scalar of value %s", z)
    if spec and not s.is_zero and any(zero_op(o) for o in spec): fail("a zero factor did not make the scalar zero")
    with cut("from_json"): t = Scalar.from_json(js)
    if not same(t.to_number(), z): fail("JSON round trip gives %s, expected %s", t.to_number(), z)
    if abs(t.to_number() - s.to_number()) > 1e-12 * abs(s.to_number()): fail("JSON round trip gives %r for %r", t.to_number(), s.to_number())
    if (t.is_zero, t.is_unknown) != (s.is_zero, s.is_unknown): fail("JSON round trip changed flags")
    if t.to_json() != js: fail("JSON is not stable: %s, %s", js, t.to_json())
    tol = 1.5e-3 * abs(z) + 1e-9
    if s.is_zero:
        if uni != "0" or lat != "0": fail("textual form of zero: %r %r", uni, lat)
    else:
        if abs(parse_factor_list(uni) - z) > tol: fail("to_unicode gives %r for %s", uni, z)
        l = lat if lat == "" else lat[1:-1]
        if lat and (lat[0] != "$" or lat[-1] != "$"): fail("to_latex gives %r", lat)
        if abs(parse_factor_list(l) - z) > tol: fail("to_latex gives %r for %s", lat, z)
    h, v = parse_str(txt)
    if abs(h - z) > 0.0071 + 1e-6 * abs(z): fail("str() gives %r for %s", txt, z)
    if not s.is_zero and abs(complex(s.floatfactor)) > 0.5 and abs(v - z) > 0.0072 * abs(z) / abs(complex(s.floatfactor)) + 1e-6: fail("str() gives %r (value %s) for %s", txt, v, z)
    m = re.match(r"^([-+\d.e]+)(?: \* exp\(i pi \* ([-+\d.e]+)\))?$", pol)
    if not m or abs(float(m.group(1)) * e(float(m.group(2) or 0)) - z) > 0.02 * abs(z) + 1e-9: fail("polar_str gives %r for %s", pol, z)
    rec.nt(len(spec) >= 3 and len({o[0] for o in spec}) >= 2 and abs(z) > 1e-9)
    for o in spec: rec.label(o[0])

def check_long(spec, rec):
    """Long histories: the value (relative to its size) and the zero flag only."""
    others, zero, gone = [], False, False
    with cut("scalar operations"):
        s, z = Scalar(), 1 + 0j
        for op in spec:
            s, z = apply(s, z, op, others)
            zero |= zero_op(op)
            gone |= zero or vanishes(op)
            if gone: z = 0j
            if abs(s.to_number() - z) > 1e-7 * abs(z): fail("after %s the scalar is %s, expected %s", op, s.to_number(), z)
            if zero and not s.is_zero or s.is_zero and not gone: fail("is_zero is %s after %s", s.is_zero, op)
    with cut("from_json"): t = Scalar.from_json(s.to_json())
    if abs(t.to_number() - z) > 1e-7 * abs(z) or t.is_zero != s.is_zero: fail("JSON round trip gives %s, expected %s", t.to_number(), z)
    rec.nt(len(s.phasenodes) >= 4 or zero)
    for o in spec: rec.label(o[0])

def vanishes(o):
    if o[0] == "mult": return any(vanishes(x) for x in o[1])
    if o[0] == "pair": return abs(1 + e(F(o[1])) + e(F(o[2])) - e(F(o[1]) + F(o[2]))) < 1e-9
    return zero_op(o)

def zero_op(o):
    return o[0] == "node" and F(o[1]) == 1 or o[0] == "float" and o[1] == 0 or o[0] == "complex" and o[1] == o[2] == 0 or \
        o[0] == "mult" and any(zero_op(x) for x in o[1])

def check_unknown(spec, rec):
    s, _ = make(spec["a"]); t, _ = make(spec["b"])
    t.set_unknown()
    if spec.get("swap"): s, t = t, s
    zero = s.is_zero or t.is_zero
    with cut("unknown scalars"):
        s.mult_with_scalar(t)
        if s.is_zero != zero or s.copy().is_zero != zero or s.conjugate().is_zero != zero:
            fail("is_zero=%s for a product in which %s factor is zero", s.is_zero, "a" if zero else "no")
        if zero and (s.to_number() != 0 or s.to_latex() != "0" or s.to_unicode() != "0"): fail("a product with a zero factor is not zero")
        if not s.is_unknown or not s.copy().is_unknown or not s.conjugate().is_unknown: fail("a product with an unknown scalar is not unknown")
        if str(s) != "UNKNOWN": fail("str of an unknown scalar is %s", s)
        if not s.is_zero and "nknown" not in s.to_latex() + s.to_unicode(): fail("textual form of an unknown scalar shows a value")
        u = Scalar.from_json(s.to_json())
    if u.is_unknown is not True: fail("JSON round trip of an unknown scalar gives is_unknown=%r", u.is_unknown)
    rec.nt(len(spec["a"]) + len(spec["b"]) > 1)

fl = st.one_of(st.sampled_from([2.0, -1.0, 0.5, -0.25, 1.5, 3.0]), st.floats(0.1, 5, allow_nan=False), st.floats(-5, -0.1),
               st.integers(3, 9).map(lambda k: 1 + 10.0 ** -k))
def op(depth=1):
    o = [st.tuples(st.just("power"), st.integers(-6, 6)), st.tuples(st.just("phase"), gens.phase_any), st.tuples(st.just("phase"), ph), st.tuples(st.just("node"), ph.filter(lambda p: F(p) != 1)),
         st.tuples(st.just("pair"), ph, ph), st.tuples(st.just("pair"), ph, ph), st.tuples(st.just("float"), fl), st.tuples(st.just("complex"), fl, st.one_of(fl, st.just(0.0))),
         st.tuples(st.just("copy")), st.tuples(st.just("conj"), st.booleans()),
         st.tuples(st.sampled_from(["node"] * 6 + ["float0"])).map(lambda t: ("node", "1") if t[0] == "node" else ("float", 0.0)) if depth == 0 else st.tuples(st.just("node"), ph)]
    if depth: o += [st.tuples(st.just("mult"), st.lists(op(0), max_size=4))] * 2
    return st.one_of(o).map(list)

def ops(n=12, lo=0):
    return st.lists(op(), min_size=lo, max_size=n).map(lambda l: [listify(x) for x in l])
def listify(x): return [listify(y) for y in x] if isinstance(x, (list, tuple)) else x

grid = [str(F(k, d)) for d in (1, 2, 4, 8) for k in range(2 * d)]
def check_pair(spec, rec):
    for p in grid:
        for q in grid:
            s, z = make([["pair", p, q]])
            if not same(s.to_number(), z): fail("add_spider_pair(%s, %s) gives %s, expected %s", p, q, s.to_number(), z)
    rec.nt()

SUBS = [
    Sub("history", ops, check, 8000),
    Sub("short", lambda: ops(3), check, 4000),
    Sub("long", lambda: ops(45, 14), check_long, 600),
    Sub("pair_grid", lambda: st.just({}), check_pair, 1, 1),
    Sub("unknown", lambda: st.fixed_dictionaries({"a": ops(4), "b": ops(4), "swap": st.booleans()}), check_unknown, 500),
]
