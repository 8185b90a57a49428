"""Pictures and printed values: matplotlib and d3 drawings, phases, complex numbers and matrices as text."""
import cmath, json, math, re
from collections import Counter
from fractions import Fraction
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, Reject, fail, cut
from .. import gens, oracle, graphs

RULE = ("Complex numbers (Cartesian and polar, of every size, sums and multiples of square roots, exact phases and near misses) and matrices of circuits and diagrams, printed as LaTeX and "
        "read back by an independent evaluator; phases printed and read back; random diagrams of every kind of node and edge (both backends, grounds, annotations, labels, any layout) and circuits "
        "drawn by matplotlib and d3, the picture taken apart shape by shape. Non-trivial: the number is not an integer, the matrix has at least four entries, the diagram has at least three nodes and an edge.")
ASSUMPTIONS = ["Printed numbers are rounded to two decimals (numbers of size 0.01-100) or to one significant digit and more (smaller and larger ones); below 1e-7 they are 0.",
               "Parallel edges drawn over each other by matplotlib are counted, not told apart; grounds have no symbol of their own there.",
               "The d3 viewer is what a browser makes of the emitted page: the quoted string is decoded as JavaScript does, then as JSON."]

# ---- reading LaTeX -------------------------------------------------------------------------
TOK = re.compile(r"\\left\(|\\right\)|\\frac|\\sqrt|\\cdot|\\pi|[{}()^+\-ie]|\d+\.\d+|\d+|\s+")
class Tex:
    """value of an arithmetic LaTeX expression."""
    def __init__(self, s): self.s = s; self.p = 0
    def peek(self):
        while self.p < len(self.s) and self.s[self.p] in " \n": self.p += 1
        if self.p == len(self.s): return None
        m = TOK.match(self.s, self.p)
        if not m: fail("cannot read %r at %d", self.s, self.p)
        return m.group()
    def take(self, t=None):
        x = self.peek()
        if x is None or (t is not None and x != t): fail("%r is malformed: %r at %d, expected %r", self.s, x, self.p, t)
        self.p += len(x); return x
    def full(self):
        v = self.expr()
        if self.peek() is not None: fail("%r is malformed: %r left over", self.s, self.s[self.p:])
        return v
    def expr(self):
        sgn = 1
        if self.peek() in ("+", "-"): sgn = -1 if self.take() == "-" else 1
        v = sgn * self.term()
        while self.peek() in ("+", "-"):
            op = self.take(); t = self.term()
            v = v + t if op == "+" else v - t
        return v
    def term(self):
        v = self.factor()
        while True:
            t = self.peek()
            if t == "\\cdot": self.take(); v = v * self.factor()
            elif t is None or t in ("+", "-", "}", ")", "\\right)"): return v
            else: v = v * self.factor()
    def factor(self):
        t = self.peek()
        if t == "e": self.take(); self.take("^"); return cmath.exp(self.group())
        v = self.atom()
        if self.peek() == "^": self.take(); v = v ** self.group()
        return v
    def group(self):
        if self.peek() == "{":
            self.take(); v = self.expr(); self.take("}"); return v
        x = self.take()           # single character argument
        if not x[0].isdigit(): fail("%r is malformed: argument %r", self.s, x)
        self.p -= len(x) - 1
        return float(x[0])
    def atom(self):
        t = self.take()
        if t == "i": return 1j
        if t == "\\pi": return math.pi
        if t == "\\sqrt": return cmath.sqrt(self.group())
        if t == "\\frac": a = self.group(); return a / self.group()
        if t == "(": v = self.expr(); self.take(")"); return v
        if t == "\\left(": v = self.expr(); self.take("\\right)"); return v
        if t[0].isdigit(): return float(t)
        fail("%r is malformed: unexpected %r", self.s, t)

def tol(z):
    a = abs(z)
    return 2e-7 if a < 1e-7 else 0.008 if 0.0099 < a < 99.9 else 0.08 * a

def value(spec):
    k, a, b = spec["k"], spec["a"], spec["b"]
    r2, r3 = math.sqrt(2), math.sqrt(3)
    root = [1, r2, r3, 1 / r2, r3 / 2, 2 * r2, r2 / 4, r2 / 8]
    if k == "cart": return complex(a[0] * 10.0 ** spec["e"], b[0] * 10.0 ** spec["e"])
    if k == "polar": return 10.0 ** spec["e"] * abs(a[0]) * cmath.exp(1j * b[0])
    if k == "pow": return r2 ** (Fraction(a[1], spec["d"])) * cmath.exp(1j * math.pi * b[1] / spec["d"])
    if k == "roots":
        x = [1, .5, 1 / 3, .25, 2, 3, 0][a[1] % 7] * (-1) ** (a[1] // 7) + root[b[1] % 8] * (-1) ** (b[1] // 8)
        y = [0, 1, -1, .5, r2, -r2, 1 - r2, 0.3, 3 / r2][spec["d"] % 9]
        return complex(x, y) if spec["e"] % 2 else complex(y, x)
    if k == "mult":         # multiples of a root, also halves
        return complex(a[1] / root[b[1] % 8], 0.0 if spec["e"] % 3 == 0 else (b[1] - 8) / root[a[1] % 8]) * (1j if spec["e"] % 2 else 1)
    if k == "near":
        return complex(a[1], b[1]) / 4 + complex(a[0], b[0]) * 10.0 ** -abs(spec["e"])
    z = (1 + cmath.exp(1j * math.pi * a[1] / 4)) * r2 ** (b[1] - 6)
    return z * cmath.exp(1j * math.pi * spec["d"] / 8)
unit = st.floats(-10, 10, allow_nan=False)
numbers = st.fixed_dictionaries({"k": st.sampled_from(["cart", "cart", "polar", "pow", "roots", "mult", "near", "spider"]), "a": st.tuples(unit, st.integers(-16, 15)).map(list),
                                 "b": st.tuples(unit, st.integers(0, 15)).map(list), "d": st.integers(1, 16), "e": st.integers(-6, 6)})

def check_number(spec, rec):
    from pyzx.drawing import pretty_complex, strip_brackets
    z = value(spec)
    if spec["d"] % 5 == 0: z = np.complex128(z)
    with cut("pretty_complex"): s = pretty_complex(z)
    v = Tex(s).full()
    if abs(v - z) > tol(z): fail("%r is printed as %s, which is %r", z, s, v)
    t = strip_brackets(s)
    v2 = Tex(t).full()
    if abs(v2 - v) > 1e-9 * max(1, abs(v)): fail("without outer brackets %s becomes %s", s, t)
    rec.nt(abs(z) > 1e-7 and z != round(z.real)); rec.label(spec["k"])

# ---- matrices -----------------------------------------------------------------------------
def read_matrix(s):
    m = re.fullmatch(r"\\begin\{equation\}\n(.*?)\n?\\begin\{pmatrix\}\n(.*)\n\\end\{pmatrix\}\n\\end\{equation\}", s, re.S)
    if not m: fail("not a LaTeX matrix: %s", s[:300])
    pre = m.group(1).strip()
    f = 1 if pre == "" else -1 if pre == "-" else Tex(pre).full()
    depth = 0
    for i, ch in enumerate(pre):
        depth += (ch in "({") - (ch in ")}")
        if ch in "+-" and depth == 0 and i > 0: fail("the factor %s in front of the matrix is a sum without brackets", pre)
    rows = [[Tex(c).full() for c in r.split("&")] for r in m.group(2).split("\\\\")]
    return f, rows, pre

def compare_matrix(s, M):
    f, rows, pre = read_matrix(s)
    if len(rows) != M.shape[0] or any(len(r) != M.shape[1] for r in rows): fail("matrix of shape %s printed as %s", M.shape, [len(r) for r in rows])
    big = abs(M).max()
    for i in range(M.shape[0]):
        for j in range(M.shape[1]):
            got = f * rows[i][j]
            # the factor is off by at most tol(f), the entry by at most tol(entry)
            lim = tol(f) * abs(rows[i][j]) + (abs(f) + tol(f)) * tol(M[i, j] / f if f else 0) + 1e-9 + 1e-6 * big
            if abs(got - M[i, j]) > 1.1 * lim: fail("entry (%d,%d) = %r is printed as %r (factor %s)\n%s", i, j, M[i, j], got, pre, s[:600])

def check_matrix(spec, rec):
    from pyzx.drawing import matrix_to_latex
    if spec["k"] == "circuit": M = oracle.circuit_unitary(spec["c"]["n"], spec["c"]["gates"])
    elif spec["k"] == "diagram":
        g = gens.build_diagram(spec["d"])
        M = oracle.graph_matrix(g)
    else: M = np.array([[value(x) for x in spec["m"]][i:i + 2] for i in (0, 2)])
    M0 = M.copy()
    with cut("matrix_to_latex"): s = matrix_to_latex(M)
    if not (M == M0).all(): fail("matrix_to_latex changed the matrix")
    compare_matrix(s, M)
    rec.nt(M.size >= 4); rec.label(spec["k"])
SMALLD = lambda: gens.diagram(kinds=("Z", "X", "H"), vmax=4, emax=5, imax=2, omax=2)
@st.composite
def matrices(draw):
    k = draw(st.sampled_from(["circuit", "circuit", "diagram", "numbers"]))
    if k == "circuit": return {"k": k, "c": draw(gens.circuit(1, 3, 0, 8))}
    if k == "diagram": return {"k": k, "d": draw(SMALLD())}
    return {"k": k, "m": draw(st.lists(numbers, min_size=4, max_size=4))}

# ---- phases -------------------------------------------------------------------------------
def read_phase(s, hbox):
    """(phase, exact?) of a drawn phase."""
    if s == "": return Fraction(1 if hbox else 0), True
    exact = not s.startswith("~")
    m = re.fullmatch(r"~?(-?\d*)(\u03c0?)(?:/(\d+))?", s)
    if not m or (not m.group(2) and s != "0"): fail("phase printed as %r", s)
    if s == "0": return Fraction(0), True
    n = m.group(1)
    return Fraction(-1 if n == "-" else 1 if n == "" else int(n), int(m.group(3) or 1)), exact

def phase_ok(s, p, hbox):
    q, exact = read_phase(s, hbox)
    if exact: return q == p
    return Fraction(p).denominator > 256 and abs(q - p) <= Fraction(1, 512)
def check_phase(spec, rec):
    from pyzx.utils import phase_to_s, VertexType
    from pyzx.editor import s_to_phase
    p = Fraction(spec["n"], spec["m"])
    p = int(p) if spec["int"] and p.denominator == 1 else p
    for t in (VertexType.Z, VertexType.X, VertexType.H_BOX):
        h = t == VertexType.H_BOX
        with cut("phase_to_s"): s = phase_to_s(p, t)
        if not phase_ok(s, p, h): fail("phase %s of %s printed as %r", p, t, s)
        if "~" not in s:
            with cut("s_to_phase"): q = s_to_phase(s, t)
            if q != p: fail("phase %s of %s printed as %r and read as %s", p, t, s, q)
    rec.nt(p not in (0, 1))

# ---- pictures -----------------------------------------------------------------------------
KINDS = ("Z", "Z", "X", "H", "ZB")
@st.composite
def pic(draw):
    k = draw(st.sampled_from(["diagram", "diagram", "w", "circuit", "multi"]))
    s = {"k": k, "labels": draw(st.booleans()), "box": draw(st.booleans()), "scalar": draw(st.booleans()), "rows": draw(st.sampled_from([None, None, [0, 2], [1, 5], [2.5, 4]])),
         "ground": draw(st.lists(st.integers(0, 20), max_size=2)), "hbox": draw(st.sampled_from([None, True, False])), "scale": draw(st.sampled_from([None, None, 10, 33.5, 80])),
         "vd": draw(st.lists(st.tuples(st.integers(0, 20), st.sampled_from(["a", "b", "key with space"]), st.sampled_from([0, 1, "text", "it's", 'say "x"', "back\\slash", "two\nlines", "\u03c0", "</script>", [1, 2], True, None, 2.5])).map(list), max_size=4)),
         "seen": draw(st.lists(st.sampled_from(["a", "b", "key with space", "nokey"]), max_size=3))}
    if k == "diagram": s["d"] = draw(gens.diagram(kinds=KINDS, phases=gens.phase_any, layout=draw(st.sampled_from([True, "wild"]))))
    elif k == "multi": s["d"] = draw(gens.diagram(kinds=KINDS, parallel=True))
    elif k == "w": s["d"] = draw(gens.w_diagram())
    else: s["d"] = draw(gens.circuit(1, 4, 0, 10))
    return s

def build(spec):
    """(what is handed to the drawing, diagram that should be seen)"""
    if spec["k"] == "circuit":
        c = gens.build_circuit(spec["d"]); return c, c.to_graph(zh=True)
    g = gens.build_diagram(spec["d"], "multigraph" if spec["k"] == "multi" else None)
    vs = list(g.vertices())
    for i in spec["ground"]:
        v = vs[i % len(vs)] if vs else None
        if v is not None and g.type(v) == 1: g.set_ground(v, True)
    for i, k, x in spec["vd"]:
        if vs: g.set_vdata(vs[i % len(vs)], k, x)
    return g, g

def close(a, b): return abs(a[0] - b[0]) < 1e-9 and abs(a[1] - b[1]) < 1e-9
def rnd(*x): return tuple(round(float(y), 6) + 0.0 for y in x)

def check_mpl(spec, rec):
    from pyzx import drawing
    x, g = build(spec)
    before = graphs.snapshot(g) if x is g else None
    kw = {"h_edge_draw": "box"} if spec["box"] else {}
    if spec["rows"]: kw["rows"] = tuple(spec["rows"])
    if spec["scalar"]: kw["show_scalar"] = True
    with cut("draw_matplotlib"): fig = drawing.draw_matplotlib(x, labels=spec["labels"], **kw)
    if before is not None:
        d = graphs.diff(before, graphs.snapshot(g))
        if d: fail("drawing changed the diagram: %s", d)
    from matplotlib import colors, patches
    col = lambda c: colors.to_hex(c)
    ax, = fig.axes
    seen_v, seen_e, boxes = Counter(), Counter(), []
    for a in ax.patches:
        if isinstance(a, patches.Circle): seen_v[("circle", rnd(*a.center), round(a.radius, 3), col(a.get_facecolor()))] += 1
        elif isinstance(a, patches.Rectangle):
            if abs(a.get_width() - a.get_height()) < 1e-9 and not a.angle:
                seen_v[("square", rnd(a.get_x() + a.get_width() / 2, a.get_y() + a.get_height() / 2), round(a.get_width(), 3), col(a.get_facecolor()))] += 1
            else:
                th = math.radians(a.angle); w, h = a.get_width() / 2, a.get_height() / 2
                boxes.append((a.get_x() + w * math.cos(th) - h * math.sin(th), a.get_y() + w * math.sin(th) + h * math.cos(th), col(a.get_facecolor())))
        elif isinstance(a, patches.Polygon):
            p = a.get_xy()[:3]
            seen_v[("triangle", rnd(p[0][0] + 0.15, p[0][1]), 0, col(a.get_facecolor()))] += 1
        elif isinstance(a, patches.PathPatch):
            p = a.get_path().vertices
            seen_e[(tuple(sorted([rnd(*p[0]), rnd(*p[-1])])), col(a.get_edgecolor()))] += 1
        else: fail("unexpected shape %s", a)
    for l in ax.lines:
        X, Y = l.get_xdata(), l.get_ydata()
        if len(X) != 2: fail("a line with %d points", len(X))
        seen_e[(tuple(sorted([rnd(X[0], Y[0]), rnd(X[1], Y[1])])), col(l.get_color()))] += 1
    lo, hi = spec["rows"] or (-math.inf, math.inf)
    vs = [v for v in g.vertices() if lo <= g.row(v) <= hi]
    shape = {0: ("circle", 0.1, "black"), 1: ("circle", 0.2, "#ccffcc"), 2: ("circle", 0.2, "#ff8888"), 3: ("square", 0.2, "yellow"), 4: ("circle", 0.05, "black"), 5: ("triangle", 0, "black"), 6: ("square", 0.2, "#ccffcc")}
    want_v, want_e = Counter(), Counter()
    at = lambda v: rnd(g.row(v), -g.qubit(v))
    for v in vs:
        n, r, c = shape[int(g.type(v))]
        want_v[(n, at(v), r, col(c))] += 1
    hs = []
    for a, b, t in graphs.edges_of(g):
        if a not in vs or b not in vs: continue
        want_e[(tuple(sorted([at(a), at(b)])), col("#0099ff" if t == 2 and not spec["box"] else "gray" if t == 3 else "black"))] += 1
        if t == 2 and spec["box"]: hs.append((at(a), at(b)))
    if seen_v != want_v: fail("nodes drawn: extra %s, missing %s", dict(seen_v - want_v), dict(want_v - seen_v))
    if seen_e != want_e: fail("edges drawn: extra %s, missing %s", dict(seen_e - want_e), dict(want_e - seen_e))
    if len(boxes) != len(hs): fail("%d Hadamard boxes for %d Hadamard edges", len(boxes), len(hs))
    left = list(boxes)
    for p, q in hs:     # every edge has a box of its own on it, away from its ends
        d2 = (q[0] - p[0]) ** 2 + (q[1] - p[1]) ** 2
        def on(b):
            if d2 < 1e-12: return abs(b[0] - p[0]) + abs(b[1] - p[1]) < 1e-4
            s = ((b[0] - p[0]) * (q[0] - p[0]) + (b[1] - p[1]) * (q[1] - p[1])) / d2
            dx, dy = p[0] + s * (q[0] - p[0]) - b[0], p[1] + s * (q[1] - p[1]) - b[1]
            return 0.3 < s < 0.7 and math.hypot(dx, dy) < 1e-4
        c = [b for b in left if on(b)]
        if not c and not any(on(b) for b in boxes): fail("no Hadamard box on the edge %s-%s; boxes at %s", p, q, boxes)
        if c: left.remove(c[0])
    # texts: under every node with a phase, beside every node its name
    texts = [(round(float(t.get_position()[0]), 6), round(float(t.get_position()[1]), 6), t.get_text()) for t in ax.texts]
    def pick(cond, what):
        c = [t for t in texts if cond(t)]
        if not c: fail("%s is not written; texts: %s", what, texts)
        texts.remove(c[0])
    for v in vs:
        X, Y = at(v); p = g.phase(v); t = int(g.type(v)); h = t == 3
        if t == 6:
            l = str(g.vdata(v, "label", 1)); pick(lambda x: abs(x[0] - X) < 1e-4 and 0 < Y - x[1] < 0.6 and x[2] == l, "label %s of Z-box %s" % (l, v))
        elif p != (1 if h else 0): pick(lambda x: abs(x[0] - X) < 1e-4 and 0 < Y - x[1] < 0.6 and "\u03c0" in x[2] + ("\u03c0" if x[2] == "0" else "") and phase_ok(x[2], p, h), "phase %s of %s" % (p, v))
    if spec["labels"]:
        for v in vs:
            X, Y = at(v); pick(lambda x: abs(x[0] - X) < 0.5 and abs(x[1] - Y) < 0.5 and x[2] == str(v), "name of node %s" % v)
    if spec["scalar"]:
        s = g.scalar.to_latex(); pick(lambda x: x[2] == s, "scalar")
    if texts: fail("unexpected texts %s", texts)
    rec.nt(len(vs) >= 3 and bool(want_e)); rec.label(spec["k"])
    if spec["box"]: rec.label("boxes")

class Shown(list):
    def __call__(self, x): self.append(x)

def js_string(s, i):
    """Decode the JavaScript string literal in single quotes that starts at s[i]; returns value and the position behind."""
    if s[i] != "'": fail("no string literal at %r", s[i:i + 40])
    i += 1; out = []
    while True:
        if i >= len(s) or s[i] in "\n\r": fail("unterminated JavaScript string: ...%r", "".join(out)[-60:])
        ch = s[i]
        if ch == "'": return "".join(out), i + 1
        if ch == "\\":
            e = s[i + 1]
            if e == "u": out.append(chr(int(s[i + 2:i + 6], 16))); i += 6
            elif e == "x": out.append(chr(int(s[i + 2:i + 4], 16))); i += 4
            else: out.append({"n": "\n", "t": "\t", "r": "\r", "b": "\b", "f": "\f", "v": "\v", "0": "\0"}.get(e, e)); i += 2
        else: out.append(ch); i += 1

def check_d3(spec, rec):
    from pyzx import drawing
    from pyzx.utils import settings
    x, g = build(spec)
    before = graphs.snapshot(g) if x is g else None
    kw = {}
    if spec["hbox"] is not None: kw["auto_hbox"] = spec["hbox"]
    if spec["scale"] is not None: kw["scale"] = spec["scale"]
    if spec["scalar"]: kw["show_scalar"] = True
    if spec["seen"]: kw["vdata"] = list(spec["seen"])
    shown = Shown()
    old = settings.mode; had = {n: getattr(drawing, n, None) for n in ("display", "HTML")}
    import os, pyzx
    settings.javascript_location = os.path.join(os.path.dirname(pyzx.__file__), "js")      # found relative to the directory pyzx was imported in
    settings.mode = "notebook"; drawing.display = shown; drawing.HTML = lambda t: t
    try:
        with cut("draw_d3"): drawing.draw_d3(x, labels=spec["labels"], **kw)
    finally:
        settings.mode = old
        for n, f in had.items():
            if f is None: delattr(drawing, n)
            else: setattr(drawing, n, f)
    if before is not None:
        d = graphs.diff(before, graphs.snapshot(g))
        if d: fail("drawing changed the diagram: %s", d)
    if len(shown) != 1: fail("%d pages displayed", len(shown))
    page = shown[0]
    m = re.search(r'<div [^>]*id="(graph-output-\w+)"', page)
    if not m: fail("the page has no place for the picture")
    pos = page.rfind("showGraph('#%s'," % m.group(1))
    if pos < 0: fail("the page does not show the picture in its place")
    pos = page.index("JSON.parse(", pos) + len("JSON.parse(")
    text, pos = js_string(page, pos)
    if re.search(r"</script", page[page.index("<script"):pos], re.I): fail("the data of the picture ends the script element")
    try: data = json.loads(text)
    except ValueError as e: fail("the browser cannot parse the data of the picture: %s in %r", e, text[:300])
    m = re.fullmatch(r"\), ([^,]+), ([^,]+), ([^,]+),\s+([^,]+), (true|false), (true|false), (.*)\);\s*</script>", page[pos:], re.S)
    if not m: fail("malformed end of the page: %r", page[pos:pos + 200])
    w, h, scale, ns = map(float, m.group(1, 2, 3, 4))
    sc, e = js_string(m.group(7), 0)
    if e != len(m.group(7)): fail("malformed scalar %r", m.group(7))
    if sc != (g.scalar.to_unicode() if spec["scalar"] else ""): fail("scalar shown as %r", sc)
    if (m.group(6) == "true") != spec["labels"]: fail("labels=%s shown as %s", spec["labels"], m.group(6))
    if spec["hbox"] is not None and (m.group(5) == "true") != spec["hbox"]: fail("auto_hbox=%s shown as %s", spec["hbox"], m.group(5))
    if spec["scale"] is not None and scale != spec["scale"]: fail("scale %s instead of %s", scale, spec["scale"])
    if not (scale > 0 and ns > 0): fail("scale %s, node size %s", scale, ns)
    vs = {str(v): v for v in g.vertices()}
    if sorted(n["name"] for n in data["nodes"]) != sorted(vs): fail("nodes %s instead of %s", [n["name"] for n in data["nodes"]], list(vs))
    off = None
    for n in data["nodes"]:
        v = vs[n["name"]]; t = int(g.type(v))
        if n["t"] != t: fail("node %s of type %s shown as %s", v, t, n["t"])
        if t == 6:
            if n["phase"] != str(g.vdata(v, "label", 1)): fail("label of %s shown as %r", v, n["phase"])
        elif not phase_ok(n["phase"], g.phase(v), t == 3): fail("phase %s of %s shown as %r", g.phase(v), v, n["phase"])
        if n["ground"] != g.is_ground(v): fail("ground of %s shown as %s", v, n["ground"])
        want = [[k, g.vdata(v, k)] for k in spec["seen"] if k in list(g.vdata_keys(v)) and g.vdata(v, k) is not None]
        if n["vdata"] != want: fail("annotations %s of %s shown as %s", want, v, n["vdata"])
        o = (n["x"] - scale * float(g.row(v)), n["y"] - scale * float(g.qubit(v)))
        if off is None: off = o
        if abs(o[0] - off[0]) > 1e-6 * scale or abs(o[1] - off[1]) > 1e-6 * scale: fail("node %s is displaced: %s", v, n)
        if not (0 <= n["x"] <= w and 0 <= n["y"] <= h): fail("node %s at (%s, %s) lies outside the picture of size (%s, %s)", v, n["x"], n["y"], w, h)
    if Counter((min(int(l["source"]), int(l["target"])), max(int(l["source"]), int(l["target"])), l["t"]) for l in data["links"]) != Counter(graphs.edges_of(g)): fail("edges %s shown as %s", graphs.edges_of(g), data["links"])
    par = {}
    for l in data["links"]: par.setdefault(frozenset((l["source"], l["target"])), []).append(l)
    for ls in par.values():
        if sorted(l["index"] for l in ls) != list(range(len(ls))) or any(l["num_parallel"] != len(ls) for l in ls): fail("parallel edges numbered %s", [(l["index"], l["num_parallel"]) for l in ls])
    rec.nt(len(vs) >= 3 and bool(data["links"])); rec.label(spec["k"])

# ---- layouts ------------------------------------------------------------------------------
def check_layout(spec, rec):
    from pyzx import drawing
    g = gens.build_diagram(spec["d"]) if spec["what"] != "arrange" else gens.build_diagram(dict(spec["d"], **{"in": [], "out": []})) if not (spec["d"]["in"] or spec["d"]["out"]) else None
    if g is None: raise Reject("not a scalar diagram")
    a = graphs.snapshot(g, layout=False)
    with cut(spec["what"]):
        if spec["what"] == "arrange": drawing.arrange_scalar_diagram(g)
        else: drawing.pack_circuit_nf(g, spec["what"])
    d = graphs.diff(a, graphs.snapshot(g, layout=False))
    if d: fail("%s changed more than the layout: %s", spec["what"], d)
    rec.nt(g.num_vertices() >= 3); rec.label(spec["what"])
@st.composite
def lay(draw):
    w = draw(st.sampled_from(["arrange", "arrange", "grg", "gslc"]))
    return {"what": w, "d": draw(gens.diagram(imax=0, omax=0, vmin=1) if w == "arrange" else gens.diagram())}

SUBS = [
    Sub("number", lambda: numbers, check_number, 6000),
    Sub("matrix", matrices, check_matrix, 1500),
    Sub("phase", lambda: st.fixed_dictionaries({"n": st.integers(-2100, 2100), "m": st.one_of(st.integers(1, 16), st.integers(1, 1200)), "int": st.booleans()}), check_phase, 1500),
    Sub("matplotlib", pic, check_mpl, 700),
    Sub("d3", pic, check_d3, 2000),
    Sub("layout", lay, check_layout, 500),
]
