"""OpenQASM programs: standard meaning, rejection of what is not understood, no state between parses."""
import math
from fractions import Fraction
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, fail, cut
from .. import gens, oracle, qasm

RULE = ("Program trees (1-3 registers, indexed and broadcast applications of all supported gates, numeric and pi-expressions as parameters, nested user-defined "
        "gates, measurements, barriers, classical registers) rendered with random spacing, line breaks and comments. Non-trivial: at least three applications and "
        "either a broadcast, a user-defined gate or a parameter.")
ASSUMPTIONS = ["A program outside the documented subset may be refused (any exception); it must not be read as something else.",
               "Unitaries are compared up to global phase with tolerance 1e-6."]

NAMES = sorted(k for k in qasm.Q)
REG = ["q", "a", "b", "reg", "anc_1", "pip", "gate_r", "q0"]

# ---- parameters: [text form, value in units of pi]
def num(f):
    return str(f)
@st.composite
def param(draw):
    k = draw(st.sampled_from(["pi", "npi", "pd", "npd", "kpi", "kpid", "dec", "pimul", "rad", "int0", "pimuld", "fpi", "ratpi"]))
    i = draw(st.integers(1, 9)); d = draw(st.sampled_from([1, 2, 3, 4, 5, 8, 16, 100]))
    sp = draw(st.sampled_from(["", "", " "]))
    s = draw(st.sampled_from(["", "-"]))
    sg = -1 if s else 1
    if k == "pi": return ["pi", 1.0]
    if k == "npi": return ["-pi", -1.0]
    if k == "pd": return ["pi%s/%s%d" % (sp, sp, d), 1 / d]
    if k == "npd": return ["-pi%s/%s%d" % (sp, sp, d), -1 / d]
    if k == "kpi": return ["%s%d%s*%spi" % (s, i, sp, sp), sg * i * 1.0]
    if k == "kpid": return ["%s%d%s*%spi/%d" % (s, i, sp, sp, d), sg * i / d]
    if k == "pimul": return ["%spi%s*%s%d" % (s, sp, sp, i), sg * i * 1.0]
    if k == "pimuld": return ["pi*%d/%d" % (i, d), i / d]
    if k == "ratpi": return ["%s%d/%d*pi" % (s, i, d), sg * i / d]
    if k == "fpi":
        x = draw(st.sampled_from(["0.5", "0.25", "1.75", "0.125", ".5", "1e-1", "2.0", ".25e1", "5.E-1"]))
        return ["%s%s*pi" % (s, x), sg * float(x)]
    if k == "int0": return [draw(st.sampled_from(["0", "0.0", "-0"])), 0.0]
    x = draw(st.sampled_from(["0.3", "1.5", "2", "3.14159", "1e-3", "0.785398", ".3e1", "2.5E-1", ".125E+1"]))
    return ["%s%s" % (s, x), sg * float(x) / math.pi]

SPACE = ["", "", " ", "\n", "  "]

@st.composite
def application(draw, regs, customs, broadcast=True, names=NAMES):
    """regs: {name: size}; returns [gate, params, args] with args [reg, index or None]"""
    total = [(r, i) for r, s in regs.items() for i in range(s)]
    pool = [x for x in names if qasm.Q[x][0] <= len(total)]
    cust = [c for c in customs if customs[c] <= len(total)]
    nm = draw(st.sampled_from(cust)) if cust and draw(st.integers(0, 2)) == 0 else draw(st.sampled_from(pool))
    k, np_ = (customs[nm], 0) if nm in customs else (qasm.Q[nm][0], qasm.Q[nm][1])
    ps = [draw(param()) for _ in range(np_)]
    if broadcast and draw(st.integers(0, 3)) == 0:
        # whole registers of one size in some places, qubits of other registers elsewhere
        size = draw(st.sampled_from(sorted(set(regs.values()))))
        same = [r for r in regs if regs[r] == size]
        m = draw(st.integers(1, min(k, len(same))))
        chosen = draw(st.permutations(same))[:m]
        rest = [(r, i) for r, i in total if r not in chosen]
        if len(rest) >= k - m:
            others = draw(st.permutations(rest))[:k - m]
            args = [[r, None] for r in chosen] + [[r, i] for r, i in others]
            return [nm, ps, [list(x) for x in draw(st.permutations(args))]]
    args = draw(st.permutations(total))[:k]
    return [nm, ps, [list(a) for a in args]]

@st.composite
def program(draw, mmax=10, wide=False):
    nr = draw(st.integers(1, 3))
    names = draw(st.permutations(REG))[:nr]
    regs = {}; left = 12 if wide else 5
    for x in names:
        if left <= 0: break
        s = draw(st.integers(1, min(3, left)) if not wide else st.sampled_from([1, 2, 10, 11, 11, 12]).map(lambda s: min(s, left))); regs[x] = s; left -= s
    customs = {}; defs = []
    for i in range(draw(st.sampled_from([0, 0, 1, 1, 2, 3]))):
        nm = draw(st.sampled_from(["foo", "my_g", "majority", "g1", "rgate", "ugate"])) + str(i)
        if draw(st.integers(0, 3)) == 0: nm = nm[:-1] if nm[:-1] not in customs else nm
        if nm in customs: continue
        k = draw(st.integers(1, 3)); formals = draw(st.permutations(["a", "b", "c", "x", "q"]))[:k]
        body = [draw(application({f: 1 for f in formals}, dict(customs), broadcast=False)) for _ in range(draw(st.integers(0, 4)))]
        defs.append([nm, formals, [[g, p, [[r, None] for r, _ in a]] for g, p, a in body]])
        customs[nm] = k
    body = [draw(st.one_of(application(regs, customs), application(regs, customs), application(regs, customs),
                           st.sampled_from([["measure"], ["barrier"], ["comment"]]))) for _ in range(draw(st.integers(0, mmax)))]
    style = {"v": draw(st.sampled_from([2, 3])), "late": draw(st.booleans()), "seed": draw(st.lists(st.integers(0, 7), min_size=12, max_size=12)),
             "creg": draw(st.booleans()), "head": draw(st.integers(0, 2))}
    return {"regs": [[r, s] for r, s in regs.items()], "defs": defs, "body": body, "style": style}

def app_text(a, sp):
    nm, ps, args = a
    t = nm
    if ps: t += "(" + ("," + sp()).join(p[0] for p in ps) + ")"
    t += " " + ("," + sp()).join(r if i is None else "%s[%d]" % (r, i) for r, i in args)
    return t + ";"

def render(s):
    st_ = s["style"]; k = [0]; seed = st_["seed"]
    def sp():
        k[0] += 1
        return SPACE[seed[k[0] % len(seed)] % len(SPACE)]
    def sep():
        k[0] += 1
        return ["\n", "\n", "\n\n", " ", "\n  ", " // h q[0]; note\n", "\n// x q[0];\n", ""][seed[k[0] % len(seed)]]
    if st_["v"] == 2: out = ["OPENQASM 2.0;\n", 'include "qelib1.inc";\n']
    else: out = ["OPENQASM %s;\n" % ["3", "3.0", "3.1"][st_["head"]], 'include "stdgates.inc";\n']
    decl = lambda r, n: ("qreg %s[%d];" % (r, n)) if st_["v"] == 2 else "qubit[%d] %s;" % (n, r)
    first = [decl(r, n) for r, n in s["regs"]]
    defs = ["gate %s %s {%s%s}" % (nm, ("," + sp()).join(f), sp() or " ", sp().join(app_text(a, sp) for a in body)) for nm, f, body in s["defs"]]
    if st_["late"]: chunks = first + defs
    else: chunks = defs + first
    if st_["creg"]: chunks.append("creg cc[3];" if st_["v"] == 2 else "bit[3] cc;")
    r0, n0 = s["regs"][0]
    for b in s["body"]:
        if b == ["measure"]: chunks.append("measure %s[0] -> cc[0];" % r0 if st_["v"] == 2 else "cc[0] = measure %s[0];" % r0)
        elif b == ["barrier"]: chunks.append("barrier %s;" % ", ".join(r for r, _ in s["regs"]))
        elif b == ["comment"]: chunks.append("// %s[0] cx;\n" % r0)
        else: chunks.append(app_text(b, sp))
    t = "".join(out)
    for c in chunks: t += c + sep()
    return t

def meaning(s):
    off = {}; n = 0
    for r, k in s["regs"]: off[r] = (n, k); n += k
    defs = {d[0]: d for d in s["defs"]}
    U = oracle.start(n); cnt = [0]
    def run(name, ps, qs, U):
        if name in defs:
            _, formals, body = defs[name]
            env = dict(zip(formals, qs))
            for g, p, a in body: U = run(g, p, [env[r] for r, _ in a], U)
            return U
        cnt[0] += 1
        return qasm.apply(U, name, [p[1] for p in ps], qs, n)
    for b in s["body"]:
        if b in (["measure"], ["barrier"], ["comment"]): continue
        nm, ps, args = b
        sizes = [off[r][1] for r, i in args if i is None]
        for j in range(sizes[0] if sizes else 1):
            U = run(nm, ps, [off[r][0] + (j if i is None else i) for r, i in args], U)
    return n, U

def check(spec, rec):
    import pyzx as zx
    text = render(spec); n, U = meaning(spec)
    with cut("from_qasm"):
        c = zx.Circuit.from_qasm(text)
    if c.qubits != n: fail("program of %d qubits read as %d", n, c.qubits)
    if not oracle.same_up_to_phase(oracle.lib_circuit_unitary(c), U, 1e-6): fail("program read as another unitary: %r", text)
    apps = [b for b in spec["body"] if len(b) == 3]
    rec.nt(len(apps) >= 3 and any(b[1] or any(i is None for _, i in b[2]) for b in apps))
    if any(any(i is None for _, i in b[2]) for b in apps): rec.label("broadcast")
    if any(b[0] in [d[0] for d in spec["defs"]] for b in apps): rec.label("custom")

def check_state(spec, rec):
    """One parser object: parse A, then B; then B fresh. Same result, also after a failing parse."""
    from pyzx.circuit.qasmparser import QASMParser
    import pyzx as zx
    p = QASMParser()
    for s in spec["before"]:
        t = render(s)
        try: p.parse(t[:int(len(t) * spec["cutat"])] if spec["break"] else t, strict=not spec["break"])
        except Exception: rec.label("failed_before")
    t = render(spec["last"]); n, U = meaning(spec["last"])
    with cut("parse"):
        c = p.parse(t)
    if c.qubits != n or not oracle.same_up_to_phase(oracle.lib_circuit_unitary(c), U, 1e-6): fail("a program is read differently after parsing another one")
    # header-less form: the default version applies, whatever was parsed before
    body = t.split("\n", 1)[1] if spec["keep"] else t.split("\n", 2)[2]
    if spec["last"]["style"]["v"] == 2:
        with cut("parse without header"):
            c2 = p.parse(body, strict=False)
            c3 = zx.qasm(body)
        V = oracle.lib_circuit_unitary(c2)
        if c2.qubits != n or not oracle.same_up_to_phase(V, U, 1e-6): fail("header-less program read differently after another one")
        if c3.qubits != n or not oracle.same_up_to_phase(oracle.lib_circuit_unitary(c3), U, 1e-6): fail("qasm() read a header-less program differently")
    rec.nt(True)

# ---- malformed programs
MUT = ["index", "extra_arg", "missing_arg", "extra_param", "missing_param", "unknown_gate", "unknown_reg", "sizes", "custom_param",
       "if", "reset", "opaque", "noheader", "noinclude", "param_gate", "other_reg_index", "bad_param", "wrong_include", "version", "custom_count", "header_gate"]

def check_bad(spec, rec):
    import pyzx as zx
    s = spec["p"]; k = spec["k"]; v = s["style"]["v"]
    regs = dict((r, n) for r, n in s["regs"]); r0, n0 = s["regs"][0]
    t = render(s)
    line = None
    q = "%s[0]" % r0
    j = spec["j"]
    if k == "index": line = "h %s[%d];" % (r0, n0 + j)
    elif k == "other_reg_index": line = "cx %s[0], %s[%d];" % (r0, r0, n0 + j)
    elif k == "extra_arg": line = "%s %s, %s;" % (["h", "x", "sdg", "rz(pi/2)", "u2(0,pi)"][j % 5], q, q)
    elif k == "missing_arg": line = ["cx %s;", "ccx %s;", "cz %s;", "crz(pi) %s;", "cswap %s;", "cu3(0,0,pi) %s;"][j % 6] % q
    elif k == "extra_param": line = ["h(pi) %s;", "rz(pi,pi) %s;", "u3(pi,pi,pi,pi) %s;", "sdg(pi) %s;", "u2(pi,pi,pi) %s;"][j % 5] % q
    elif k == "missing_param": line = ["rz %s;", "u3(pi) %s;", "u2(pi) %s;", "p %s;", "rx() %s;"][j % 5] % q
    elif k == "unknown_gate": line = ["foo9 %s;", "hh %s;", "H %s;", "cxx %s;", "u4(pi) %s;"][j % 5] % q
    elif k == "unknown_reg": line = ["h nope[0];", "h nope;", "cx %s, nope[0];" % q][j % 3]
    elif k == "sizes":
        pair = [(a, b) for a in regs for b in regs if a != b and regs[a] != regs[b]]
        if not pair: rec.label("skip"); return
        line = "cx %s, %s;" % pair[0]
    elif k == "custom_param":
        one = [d[0] for d in s["defs"] if len(d[1]) == 1]
        if not one: rec.label("skip"); return
        line = "%s(pi) %s;" % (one[0], q)
    elif k == "custom_count":
        two = [d[0] for d in s["defs"] if len(d[1]) > 1]
        if not two: rec.label("skip"); return
        line = "%s %s;" % (two[0], q)
    elif k == "if": line = "if(cc==1) x %s;" % q
    elif k == "reset": line = "reset %s;" % q
    elif k == "opaque": line = "opaque bb a;"
    elif k == "param_gate": line = "gate pg(theta) a { rz(theta) a; }\npg(pi) %s;" % q
    elif k == "bad_param": line = "rz(%s) %s;" % (["x", "", "pie", "pi/", "pi//2", "/2", "pi/0", "sin(1)", "pi*x", "1..2", "*", "two*pi", "pi**2"][j % 13], q)
    elif k == "noheader": t = t.split("\n", 1)[1]
    elif k == "noinclude":
        a = t.split("\n", 2); t = a[0] + "\n" + a[2]
    elif k == "wrong_include":
        t = t.replace("qelib1.inc", "TMP").replace("stdgates.inc", "qelib1.inc").replace("TMP", "stdgates.inc")
    elif k == "version": t = t.replace("OPENQASM 2.0", "OPENQASM 4.0").replace("OPENQASM 3", "OPENQASM 1")
    elif k == "header_gate":
        # everything on the line of the include: read in full or refused, not dropped
        a = t.split("\n", 2)
        t2 = a[0] + "\n" + a[1] + " " + a[2]
        n, U = meaning(s)
        try: c = zx.Circuit.from_qasm(t2)
        except Exception: rec.label("refused"); return
        if c.qubits != n or not oracle.same_up_to_phase(oracle.lib_circuit_unitary(c), U, 1e-6): fail("statements on the line of the include were dropped")
        rec.nt()
        return
    if line is not None: t = t.rstrip() + "\n" + line + "\n"
    rec.label(k); rec.nt()
    try:
        c = zx.Circuit.from_qasm(t)
    except Exception:
        return
    fail("malformed program accepted (%s): %r", k, line or t)

# ---- arithmetic: correct or refused
@st.composite
def expr(draw, depth=3):
    k = draw(st.sampled_from(["mul", "mul", "mul", "div", "div", "div", "mul", "div", "num", "pi", "add", "sub", "neg", "par", "pow"])) if depth else draw(st.sampled_from(["num", "pi"]))
    if k == "num":
        x = draw(st.sampled_from(["2", "3", "4", "0.5", "1", "5", "1.5", "8", "1e1", ".5e1"])); return [x, float(x)]
    if k == "pi": return ["pi", math.pi]
    if k == "neg":
        a = draw(expr(0)); return ["-" + a[0], -a[1]]
    if k == "par":
        a = draw(expr(depth - 1)); return ["(" + a[0] + ")", a[1]]
    a, b = draw(expr(depth - 1)), draw(expr(0))
    # left operands are kept as products so that text order is evaluation order
    sp = draw(st.sampled_from(["", " "]))
    if k == "mul" or k == "div":
        if any(ch in a[0][1:] for ch in "+-") : a = ["(" + a[0] + ")", a[1]]
        if "^" in a[0] or "**" in a[0]: a = ["(" + a[0] + ")", a[1]]
    if k == "mul": return [a[0] + sp + "*" + sp + b[0], a[1] * b[1]]
    if k == "div": return [a[0] + sp + "/" + sp + b[0], a[1] / b[1]] if b[1] else a
    if k == "add": return [a[0] + sp + "+" + sp + b[0], a[1] + b[1]]
    if k == "sub": return [a[0] + sp + "-" + sp + b[0], a[1] - b[1]]
    if k == "pow": return ["(" + a[0] + ")" + draw(st.sampled_from(["^", "**"])) + "2", a[1] ** 2]

def check_expr(spec, rec):
    import pyzx as zx
    text, val = spec["e"]
    if not abs(val) < 1e4: return
    t = 'OPENQASM 2.0;\ninclude "qelib1.inc";\nqreg q[1];\nrx(%s) q[0];\n' % text
    try: c = zx.Circuit.from_qasm(t)
    except TypeError: rec.label("refused"); return
    if not oracle.same_up_to_phase(oracle.lib_circuit_unitary(c), oracle.Rx(val / math.pi), 1e-4): fail("parameter %r read as another number", text)
    rec.label("read"); rec.nt(len(text) > 2)

SUBS = [
    Sub("meaning", program, check, 3000),
    Sub("wide", lambda: program(8, wide=True), check, 400),
    Sub("state", lambda: st.fixed_dictionaries({"before": st.lists(program(5), min_size=1, max_size=2), "last": program(6), "break": st.booleans(), "keep": st.booleans(),
                                                "cutat": st.sampled_from([0.3, 0.5, 0.8, 0.95])}), check_state, 800),
    Sub("malformed", lambda: st.fixed_dictionaries({"p": program(5), "k": st.sampled_from(MUT), "j": st.integers(0, 12)}), check_bad, 2000),
    Sub("expressions", lambda: st.fixed_dictionaries({"e": expr()}), check_expr, 2500),
]
