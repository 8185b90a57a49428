"""The command-line tools: python -m pyzx opt / tikz / cnots / phasepoly, and the file-to-file CNOT mapper."""
import contextlib, io, math, os, shutil, subprocess, sys, tempfile
from fractions import Fraction
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, Reject, fail, cut
from .. import gens, oracle, qasm

RULE = ("Circuit files of 1-4 qubits in qasm (2 and 3), qc, Quipper and qsim, with and without a telling file extension, run through `opt` with every combination of "
        "simplifier, phase-polynomial pass, output format, destination and verbosity; through `tikz`; generator commands with random sizes; bad input of every kind. "
        "Non-trivial: the circuit has at least three gates.")
ASSUMPTIONS = ["An error is a SystemExit with a non-zero code or an uncaught exception (exit status 1 from the shell).",
               "Without a destination `opt` writes <source without extension>.<format>, as its help says.",
               "Circuit unitaries are compared up to global phase (the text formats carry none)."]

QASM = ["ZPhase", "XPhase", "YPhase", "Z", "S", "S*", "T", "T*", "NOT", "Y", "HAD", "SX", "SX*", "CNOT", "CZ", "CY", "XCX", "SWAP", "CHAD", "CCZ", "TOF", "CSWAP", "CRZ", "CRX", "CPhase", "RZZ", "RXX", "U3", "U2"]
QC = ["Z", "S", "S*", "T", "T*", "NOT", "Y", "HAD", "CNOT", "CZ", "SWAP", "CCZ", "TOF"]
QUIP = ["ZPhase", "XPhase", "Z", "S", "S*", "T", "T*", "NOT", "HAD", "CNOT", "CZ", "SWAP", "CCZ", "TOF"]
QSIM = ["HAD", "ZPhase", "NOT", "Y", "CNOT", "SWAP"]
EIGHTHS = st.integers(1, 7).map(lambda k: str(Fraction(k, 4)))
EXTS = {"qasm": [".qasm", ".qasm", ".txt", ""], "qasm3": [".qasm", ".txt"], "qc": [".qc", ".tfc", ".x"], "quipper": [".quipper", ".quip", ".circuit", ""], "qsim": [".qsim"]}

@st.composite
def a_circuit(draw, f, gmax=12, nmax=4):
    names = {"qasm": QASM, "qasm3": QASM, "qc": QC, "quipper": QUIP, "qsim": QSIM}[f]
    names = [x for x in names if x in gens.ALL]
    kw = {}
    if draw(st.booleans()): kw["phases"] = EIGHTHS
    return draw(gens.circuit(nmin=1, nmax=nmax, gmax=gmax, names=tuple(names), **kw))

@st.composite
def opt_case(draw):
    f = draw(st.sampled_from(["qasm", "qasm", "qasm3", "qc", "quipper", "qsim"]))
    return {"c": draw(a_circuit(f)), "f": f, "ext": draw(st.sampled_from(EXTS[f])), "t": draw(st.sampled_from(["match", "match", None, None, "qasm", "qc", "quipper"])),
            "g": draw(st.sampled_from([None, None, "full", "cliff", "tele"])), "p": draw(st.booleans()), "v": draw(st.integers(0, 3)) == 0,
            "dest": draw(st.sampled_from([None, None, "out.txt", "sub/o.qasm", "o"])), "name": draw(st.sampled_from(["a", "my.circ", "qc file"])), "old": draw(st.booleans())}

def qsim_line(i, g):
    q = " ".join(map(str, g[1]))
    if g[0] == "ZPhase": return "%d rz %s %r\n" % (i, q, math.pi * float(gens.P(g[2][0])))
    if g[0] == "CNOT": return "%d fs %s %r %r\n" % (i, q, math.pi / 2, math.pi / 6)
    if g[0] == "SWAP": return "%d fs %s %r %r\n" % (i, q, -math.pi / 2, 0.5)
    return "%d %s %s\n" % (i, {"HAD": "hz_1_2", "NOT": "x_1_2", "Y": "y_1_2"}[g[0]], q)
def to_text(spec):
    f = spec["f"]; c = gens.build_circuit(spec["c"])
    if f == "qsim":
        return "%d\n" % spec["c"]["n"] + "".join(qsim_line(i, g) for i, g in enumerate(spec["c"]["gates"]))
    return {"qasm": c.to_qasm, "qasm3": lambda: c.to_qasm(3), "qc": c.to_qc, "quipper": c.to_quipper}[f]()

def run_cli(args, cwd):
    """Run the command in-process; returns (status, output)."""
    from pyzx.scripts import main
    buf = io.StringIO(); old = os.getcwd()
    os.chdir(cwd)
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            try: main(["pyzx"] + args); code = 0
            except SystemExit as e: code = 0 if e.code in (None, 0) else (e.code if isinstance(e.code, int) else 1)
            except Exception as e: code = "%s: %s" % (type(e).__name__, e)
    finally: os.chdir(old)
    return code, buf.getvalue()

def snapshot(d):
    r = {}
    for b, _, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(b, f)) as fh: r[os.path.relpath(os.path.join(b, f), d)] = fh.read()
    return r

def opt_args(spec, src):
    a = []
    if spec.get("dest"): a += ["-d", spec["dest"]]
    if spec["t"]: a += ["-t", spec["t"]]
    if spec["g"]: a += ["-g", spec["g"]]
    if spec["p"]: a += ["-p"]
    if spec["v"]: a += ["-v"]
    return ["opt"] + (a + [src] if len(src) % 2 else [src] + a)

def check_opt(spec, rec, runner=run_cli):
    import pyzx as zx
    f = spec["f"]
    try: text = to_text(spec)
    except Exception: raise Reject("format cannot express the circuit")
    d = tempfile.mkdtemp(prefix="pbt37")
    try:
        os.mkdir(os.path.join(d, "sub"))
        src = spec["name"] + spec["ext"]
        with open(os.path.join(d, src), "w") as fh: fh.write(text)
        try: c0 = zx.Circuit.load(os.path.join(d, src))
        except Exception: raise Reject("reader refused")
        U = oracle.lib_circuit_unitary(c0); n = c0.qubits
        kind = {"qasm3": "qasm"}.get(f, f)
        dtype = kind if spec["t"] in (None, "match") else spec["t"]
        dest = spec["dest"] or os.path.splitext(src)[0] + "." + dtype
        if spec["old"] and dest != src:
            with open(os.path.join(d, dest), "w") as fh: fh.write("old contents")
        before = snapshot(d)
        code, out = runner(opt_args(spec, src), d)
        after = snapshot(d)
        if code != 0:
            if dtype == "qsim":
                if after != before: fail("opt failed (%s) but changed files: %s", code, [k for k in after if before.get(k) != after[k]])
                rec.label("refused"); return
            if spec["p"] and "only works on Clifford+T" in str(code) + out:
                if after != before: fail("opt failed (%s) but changed files: %s", code, [k for k in after if before.get(k) != after[k]])
                if f != "qsim" and not any(len(g[2]) for g in spec["c"]["gates"]) and not any(g[0] in ("CRZ",) for g in spec["c"]["gates"]): fail("opt -p refused a Clifford+T circuit: %s", code)
                rec.label("refused"); return
            if f == "qsim" and spec["g"] == "tele" and any(len(g[1]) == 2 for g in spec["c"]["gates"]):      # fs gates have no circuit-shaped diagram
                if after != before: fail("opt failed (%s) but changed files: %s", code, [k for k in after if before.get(k) != after[k]])
                rec.label("refused"); return
            if dtype == "qc":
                if after != before: fail("opt failed (%s) but changed files: %s", code, [k for k in after if before.get(k) != after[k]])
                if f == "qc": fail("opt failed on a .qc circuit: %s\n%s", code, out)
                rec.label("refused"); return
            fail("opt failed: %s\n%s", code, out)
        changed = sorted(k for k in after if before.get(k) != after[k])
        if sorted(before) != sorted(k for k in after if k in before): fail("opt removed a file")
        if any(k != dest for k in changed): fail("opt wrote to %s instead of only %r", changed, dest)
        if dest not in after: fail("opt reported success but wrote nothing to %r", dest)
        if dtype == "qsim": fail("opt wrote a qsim file")
        try:
            c2 = {"qasm": zx.Circuit.from_qasm, "qc": zx.Circuit.from_qc, "quipper": zx.Circuit.from_quipper}[dtype](after[dest])
        except Exception as e: fail("output is not a readable %s file (%s: %s)\n%s", dtype, type(e).__name__, e, after[dest][:300])
        if c2.qubits != n: fail("output has %d qubits instead of %d", c2.qubits, n)
        if not oracle.same_up_to_phase(oracle.lib_circuit_unitary(c2), U, 1e-6): fail("opt wrote a circuit with another unitary")
        if dtype == "qasm":
            V = qasm.read_flat(after[dest], 3 if "OPENQASM 3" in after[dest] else 2)
            if isinstance(V, str): fail("opt wrote malformed qasm: %s", V)
            if not oracle.same_up_to_phase(V[1], U, 1e-6): fail("opt wrote qasm that means another unitary")
        if spec["v"] and "Starting circuit" not in out: fail("-v printed no information")
        rec.nt(len(spec["c"]["gates"]) >= 3); rec.label("%s->%s" % (f, dtype)); rec.label("g:%s" % spec["g"])
        if spec["p"]: rec.label("-p")
    finally: shutil.rmtree(d)

@st.composite
def bad_case(draw):
    k = draw(st.sampled_from(["missing", "format", "simp", "garbage", "syntax", "empty", "unknowngate", "destdir", "command", "nocommand", "nosource"]))
    return {"k": k, "tool": draw(st.sampled_from(["opt", "tikz"])), "ext": draw(st.sampled_from([".qasm", ".qc", ".quipper", ".txt", ""])), "c": draw(a_circuit("qasm", 6, 3)),
            "g": draw(st.sampled_from(["fulll", "none", "", "clif", "FULL", "teleport"])), "t": draw(st.sampled_from(["qasm3", "QASM", "txt", "qsim", "tikz"])),
            "text": draw(st.sampled_from(["hello world\n", "\x00\x01\x02", "{}", "Inputs\n1 2 3", "3.14 2 1\n", "qreg;;;"])), "old": draw(st.booleans())}

def check_bad(spec, rec):
    import pyzx as zx
    k, tool = spec["k"], spec["tool"]
    if k in ("format", "simp"): tool = "opt"
    d = tempfile.mkdtemp(prefix="pbt37")
    try:
        good = gens.build_circuit(spec["c"]).to_qasm()
        src = "in" + (spec["ext"] if k in ("garbage", "empty", "missing") else ".qasm")
        text = good
        if k == "garbage": text = spec["text"]
        elif k == "empty": text = ""
        elif k == "syntax": text = good.rstrip("\n") + "\ncx q[0] q[1\n"
        elif k == "unknowngate": text = good.rstrip("\n") + "\nfrobnicate q[0];\n"
        if k != "missing":
            with open(os.path.join(d, src), "w") as fh: fh.write(text)
        out = "result.x"
        if spec["old"]:
            with open(os.path.join(d, out), "w") as fh: fh.write("old contents")
        a = [tool, src] + ([out] if tool == "tikz" else ["-d", out])
        if k == "format": a += ["-t", spec["t"]]
        if k == "simp": a += ["-g", spec["g"]]
        if k == "destdir": a = [tool, src] + (["no/such/dir/o.tikz"] if tool == "tikz" else ["-d", "no/such/dir/o.qasm"])
        if k == "command": a = ["optt", src]
        if k == "nocommand": a = []
        if k == "nosource": a = ["opt"]
        if k in ("garbage", "empty"):
            try: zx.Circuit.load(os.path.join(d, src)); raise Reject("the reader accepts this file")
            except Reject: raise
            except Exception: pass
        before = snapshot(d)
        code, o = run_cli(a, d)
        after = snapshot(d)
        if code == 0: fail("%s: success status for bad input (%s)\n%s", " ".join(a), k, o[-300:])
        if after != before: fail("%s: failed but changed files %s", " ".join(a), [x for x in after if before.get(x) != after[x]])
        rec.nt(len(spec["c"]["gates"]) >= 1); rec.label(k)
    finally: shutil.rmtree(d)

@st.composite
def tikz_case(draw):
    f = draw(st.sampled_from(["qasm", "qasm", "qasm3", "qc", "quipper"]))
    return {"c": draw(a_circuit(f)), "f": f, "ext": draw(st.sampled_from(EXTS[f])), "name": draw(st.sampled_from(["a", "my.circ", "qc file"])),
            "dest": draw(st.sampled_from([None, "o.tikz", "sub/x"]))}

def check_tikz(spec, rec):
    import pyzx as zx
    try: text = to_text(spec)
    except Exception: raise Reject("format cannot express the circuit")
    d = tempfile.mkdtemp(prefix="pbt37")
    try:
        os.mkdir(os.path.join(d, "sub"))
        src = spec["name"] + spec["ext"]
        with open(os.path.join(d, src), "w") as fh: fh.write(text)
        try: c0 = zx.Circuit.load(os.path.join(d, src))
        except Exception: raise Reject("reader refused")
        U = oracle.lib_circuit_unitary(c0); n = c0.qubits
        dest = spec["dest"] or os.path.splitext(src)[0] + ".tikz"
        before = snapshot(d)
        code, out = run_cli(["tikz", src] + ([spec["dest"]] if spec["dest"] else []), d)
        if code != 0: fail("tikz failed: %s\n%s", code, out)
        after = snapshot(d)
        changed = sorted(k for k in after if before.get(k) != after[k])
        if changed != [dest]: fail("tikz wrote %s instead of %r", changed, dest)
        with cut("tikz_to_graph"): g = zx.tikz.tikz_to_graph(after[dest], warn_overlap=False, fuse_overlap=False)
        with cut("auto_detect_io"): g.auto_detect_io()
        if len(g.inputs()) != n or len(g.outputs()) != n: fail("picture has %d inputs and %d outputs for %d qubits", len(g.inputs()), len(g.outputs()), n)
        if not oracle.proportional(oracle.graph_matrix(g), U, 1e-6): fail("the picture means another map")
        rec.nt(len(spec["c"]["gates"]) >= 3); rec.label(spec["f"])
    finally: shutil.rmtree(d)

@st.composite
def gen_case(draw):
    return {"tool": draw(st.sampled_from(["cnots", "phasepoly"])), "q": draw(st.lists(st.integers(2, 6), min_size=1, max_size=2, unique=True)),
            "m": draw(st.integers(1, 3)), "d": draw(st.lists(st.integers(0, 12), min_size=1, max_size=2, unique=True)), "seed": draw(st.integers(0, 1 << 30))}

def check_gen(spec, rec):
    import random
    import pyzx as zx
    random.seed(spec["seed"]); np.random.seed(spec["seed"] % (1 << 31))
    d = tempfile.mkdtemp(prefix="pbt37")
    try:
        S = lambda l: [str(x) for x in l]
        a = [spec["tool"], "o", "-q"] + S(spec["q"]) + ["-m", str(spec["m"])] + (["-d"] if spec["tool"] == "cnots" else ["-p"]) + S(spec["d"])
        for _ in range(2):    # the same process may run the command more than once
            code, out = run_cli(a, d)
            if code != 0: fail("%s failed: %s\n%s", " ".join(a), code, out[-300:])
        after = snapshot(d)
        want = {"o/%dqubits/%d%s/Original%d.qasm" % (q, n, "" if spec["tool"] == "cnots" else "gadgets", i): (q, n) for q in spec["q"] for n in spec["d"] for i in range(spec["m"])}
        if sorted(after) != sorted(want): fail("files written: %s, expected %s", sorted(after), sorted(want))
        for p, (q, n) in want.items():
            with cut("from_qasm"): c = zx.Circuit.from_qasm(after[p])
            if c.qubits != q: fail("%s has %d qubits", p, c.qubits)
            names = [g.name for g in c.gates]
            if spec["tool"] == "cnots":
                if any(x != "CNOT" for x in names) or len(names) != n: fail("%s holds %s instead of %d CNOTs", p, names, n)
            elif any(x not in ("CNOT", "ZPhase", "S", "Z", "T") for x in names): fail("%s holds a gate outside phase polynomials: %s", p, set(names))
            elif sum(x != "CNOT" for x in names) > n: fail("%s holds more phases than the %d gadgets asked for", p, n)
        rec.nt(sum(spec["d"]) >= 3); rec.label(spec["tool"])
    finally: shutil.rmtree(d)

def shell(args, cwd):
    env = dict(os.environ); env["PYTHONPATH"] = os.environ.get("PBT_REPO", "/repo")
    p = subprocess.run([sys.executable, "-W", "ignore", "-m", "pyzx"] + args, cwd=cwd, env=env, capture_output=True, text=True, timeout=50)
    return p.returncode, p.stdout + p.stderr

@st.composite
def shell_case(draw):
    s = draw(opt_case()); s["t"] = draw(st.sampled_from([None, "qasm", "quipper"])); s["f"] = "qasm"; s["ext"] = ".qasm"; s["c"] = draw(a_circuit("qasm"))
    return s

def check_shell(spec, rec): check_opt(spec, rec, shell)

@st.composite
def map_case(draw):
    n = draw(st.integers(2, 6))
    pairs = st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)).filter(lambda p: p[0] != p[1])
    return {"n": n, "cx": draw(st.lists(pairs.map(list), max_size=15)), "mode": draw(st.sampled_from(["gauss", "steiner", "steiner", "genetic_gauss", "genetic_steiner", "pso_steiner"])),
            "arch": draw(st.sampled_from(["line", "circle", "fully_connected", "line"])), "seed": draw(st.integers(0, 1 << 30)), "str": draw(st.booleans())}

def check_map(spec, rec):
    import random
    import pyzx as zx
    from pyzx.scripts.circuit_router import map_cnot_circuit, sequential_map_cnot_circuits
    from pyzx.routing.cnot_mapper import ElimMode
    from pyzx.routing.architecture import create_architecture
    random.seed(spec["seed"]); np.random.seed(spec["seed"] % (1 << 31))
    n = spec["n"]; mode = ElimMode(spec["mode"])
    c = zx.Circuit(n)
    for a, b in spec["cx"]: c.add_gate("CNOT", a, b)
    M = np.eye(n, dtype=int)
    for a, b in spec["cx"]: M[b] ^= M[a]
    arch = create_architecture(spec["arch"], n_qubits=n)
    d = tempfile.mkdtemp(prefix="pbt37")
    try:
        src, dst = os.path.join(d, "in.qasm"), os.path.join(d, "out.qasm")
        with open(src, "w") as fh: fh.write(c.to_qasm())
        with contextlib.redirect_stdout(io.StringIO()):
            if mode.value.startswith("pso"):      # only meant for sequences of circuits: may be refused
                try: r = map_cnot_circuit(src, arch, mode=mode, dest_file=dst)
                except Exception:
                    if os.path.exists(dst): fail("failed but wrote a file")
                    rec.label("refused"); return
            else:
                with cut("map_cnot_circuit"): r = map_cnot_circuit(src, arch, mode=mode, dest_file=dst, population=6, iterations=3)
        with open(dst) as fh: text = fh.read()
        with cut("from_qasm"): c2 = zx.Circuit.from_qasm(text)
        if [(g.name, g.control, g.target) for g in c2.gates] != [(g.name, g.control, g.target) for g in r.gates]: fail("the file written holds another circuit than the one returned")
        edges = {frozenset(e) for e in arch.graph.edges()}
        R = np.eye(n, dtype=int)
        for g in c2.gates:
            if g.name != "CNOT": fail("mapped circuit has a %s", g.name)
            if mode.value.endswith("steiner") and frozenset((g.control, g.target)) not in edges: fail("CNOT %d,%d is not allowed on %s", g.control, g.target, arch.name)
            R[g.target] ^= R[g.control]
        if mode in (ElimMode.GAUSS_MODE, ElimMode.STEINER_MODE):
            if not (R == M).all(): fail("the mapped circuit implements another parity map")
        else:
            rows = sorted(map(tuple, R.tolist()))
            from itertools import permutations
            ok = any(sorted(map(tuple, M[:, list(p)].tolist())) == rows for p in permutations(range(n)))
            if not ok: fail("the mapped circuit is not the parity map up to qubit placement")
        rec.nt(len(spec["cx"]) >= 3); rec.label(spec["mode"])
    finally: shutil.rmtree(d)

SUBS = [Sub("opt", opt_case, check_opt, quick=1500),
        Sub("bad", bad_case, check_bad, quick=300),
        Sub("tikz", tikz_case, check_tikz, quick=400),
        Sub("gen", gen_case, check_gen, quick=120),
        Sub("shell", shell_case, check_shell, quick=24, thorough=200),
        Sub("map", map_case, check_map, quick=300)]
