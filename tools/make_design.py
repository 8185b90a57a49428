"""Writes DESIGN.md: the hand-written text below plus, per property, what the check module declares, the defects fixed and the planted bugs.
Run with a Python that can import pyzx's dependencies: /opt/venv/bin/python tools/make_design.py"""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.environ.get("PBT_REPO", "/repo"), V]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

INTRO = """# Design

Technique for every property: **property-based testing** (Hypothesis 6.x, from the pre-installed tooling venv) of the
library's Python API - generated inputs or operation histories, an executable oracle that does not share code with the
library, and shrinking of failures into a replay file. There are no not-applicable properties.

## How it is built

* `pbt/run.py` starts a check: `python3 pbt/run.py C07 --tier quick`. It runs itself again under the Python that has the
  library's dependencies (`/opt/venv/bin/python`), puts `/repo` (or `$PBT_REPO`) first on the path, imports the module
  `pbt/props/C07.py` and runs its sub-checks on 8 worker processes. Nothing is built: pure Python is read from `/repo`'s tree.
* `pbt/core.py`: a sub-check is a name, a strategy that draws a JSON *spec* (never library objects), and `check(spec, rec)`,
  which builds the library objects from the spec, runs the library and compares. `fail()` raises `Violation`; exceptions
  of the library where none is allowed are violations too (`cut()`); `Reject` discards a case the property does not speak
  about. Each case has 60 s of CPU time (non-termination is a violation). On a violation Hypothesis shrinks the spec, the
  result is written to `replays/<id>_<sub>.json`, confirmed by re-running it in a fresh process, and reported as
  `VIOLATION property=<id> replay=<path>`; `python3 pbt/run.py C07 --replay FILE` re-runs it alone.
  Violations are matched against `known_findings.json` (currently no open finding, so nothing is suppressed).
* Cases are seeded from `VERIF_SEED`, the property, the sub-check and the worker, so that a run is reproducible. The thorough
  tier runs 20 times as many cases of every sub-check. Evidence counts distinct specs that meet the module's stated
  non-triviality rule, with label histograms and samples.
* Oracles. `pbt/oracle.py`: textbook gate matrices and circuit unitaries (numpy, from the spec); contraction of a
  diagram read through the public query API by variable elimination, written from the standard interpretation (no use of
  `tensorfy`); completely positive maps for grounds; comparison exact / up to phase / up to factor. `pbt/graphs.py`: a plain
  labelled-graph model and history driver for the storage. `pbt/qasm.py`: independent reader of emitted OpenQASM. Others sit in the property's module.
* Generators. `pbt/gens.py`: circuits over every gate; arbitrary open diagrams (layouts, vertex order, wires between
  inputs, Hadamard boundary edges, isolated parts, parallel edges, scalars); diagrams *built around rule patterns*
  (`gl_diagram`: phase gadgets sharing targets, twins, leaves, Pauli interiors; `rg_diagram`: bipartite; `w_diagram`).
  Uniformly random diagrams almost never contain the coincidences that rewrite rules look for; pattern-built
  ones do, which is where most of the defects below were found.

Bounds: matrices are compared by dense contraction, so diagrams have up to about 10 open wires and 30 spiders, circuits up
to 5-7 qubits; bookkeeping properties (storage, JSON, difference, GF(2)) have no such limit and use up to 40 operations or 10x10
matrices (20x20 in `gauss_big`). Quick runs take 10-50 s per property on 8 cores, thorough runs 20 times that (not more than 15 min).

What is outside the family's reach or was left out: the D3/quantomatic/TikZiT user interfaces and pyquil (not installed);
drawing (pictures have no semantics to compare); the graph-tool and igraph storages (not installed); the external TOpt command; `pyzx router` -
its extraction code still uses the attribute API of an earlier library version and raises for every circuit
(a refusal, never a wrong result; porting it is not a small repair; `map_cnot_circuit` below it is judged in C37).

## Alarm or defect

Every alarm on the pinned tree was reduced by shrinking, reproduced by hand against the documentation, and became either a
`fix:` commit in /repo (listed per property below and in `known_findings.json`) or a correction of the check, recorded in
the "Reading" line of the property (what is deliberately not judged and why). No check was loosened to silence a real defect.

The decision taken in each unclear case is one of: *refusal* (an exception where the documentation restricts the input),
*documented loss* (e.g. teleportation does not track global phase), *convention* (e.g. orientation of `to_cnots`).

## Planted bugs

`tools/plant.py DEFS.py` clones /repo, applies one change, confirms that it builds, passes the stable tests and fails its
demonstration, runs the checks against it, and stores it under `seeded/`. Results:

"""

# id: (oracle, why generated search reaches what the tests cannot)
T = {
"C01": ("Product of textbook gate matrices (numpy) against (a) the matrix of the diagram by independent contraction and (b) `to_matrix`.",
        "Tests compare the library's own tensor of a few fixed circuits with itself; every gate kind at every placement, phase and layout needs an outside definition of the gates."),
"C02": ("Unitary of the spec against the unitary of the lowered gate list, read gate by gate; statistics recounted from the gates.",
        "Decompositions differ by placement and phase; tests see a handful."),
"C03": ("A unitary per circuit in a pool, updated by matrix algebra alongside every operation; all pool members are re-checked after every step, which catches aliasing.",
        "Aliasing and masks only show in histories."),
"C04": ("Unitaries of both sides; for promised cases the verdict must be positive.", "A wrong positive needs a nearly equal circuit, which the mutation generator makes on purpose."),
"C05": ("Contraction by variable elimination from the spec (not from the library's graph), including layout- and numbering-independence.", "All vertex kinds, arities, layouts and scalars; tests use circuit-shaped diagrams."),
"C06": ("The same operation on matrices.", "Boundary edge cases (Hadamard or direct wires, wires between two inputs, permuted boundaries) combine freely."),
"C07": ("Independent contraction before and after each strategy, scalar included.", "Tests compare up to scalar on seeded circuits; patterns such as connected gadget leaves, supplementarity pairs, isolated pairs or Hadamard self-loops never come up there."),
"C08": ("Own search for redexes on the result; counting of non-Clifford phases; CPU limit for termination; scalar value for closed Clifford diagrams.", "Normal forms are claims about all inputs; the search for a left-over redex is done by code that knows only the definition of each rule."),
"C09": ("Contraction after applying an arbitrary subset of the matches that a matcher reports under an arbitrary filter.", "Independence of matches only fails for particular overlapping pairs; strategies never apply subsets."),
"C10": ("Structure snapshot (everything but phases must be untouched), contraction up to phase, count of T phases against full reduction.", "Sign errors of teleported phases need a gadget that was transformed several times."),
"C11": ("Unitary of the extracted circuit against that of the source circuit, for every option.", "Extraction branches (gadgets, permutations, look-ahead, normal forms) depend on the reduced diagram's shape."),
"C12": ("Unitary and gate counts of the result against the source; also stale-state histories through repeated runs.", "Gate cancellation has many interacting pending states (Hadamards, Zs, NOTs, swaps)."),
"C13": ("Parity-phase table of the block (own bookkeeping), T-count, and the unitary of the whole circuit.", "The failing branches need particular ranks of the third-order tensor."),
"C14": ("Own reader of the written text (language version's standard gate definitions) and the library's reader, both against the spec's unitary.", "Phases at the edge of printing precision, every gate kind, both versions."),
"C15": ("The program tree is interpreted directly (gate definitions as recursive functions, broadcasting by definition); malformed programs must be refused.", "Grammar coverage: nesting, shadowed names, spacing, expressions; expressions are evaluated by exact rational arithmetic."),
"C16": ("Interpretation of the generated program, or the source circuit's unitary.", "Four readers and three writers with no tests on most of their statements."),
"C17": ("Structural comparison with the plain model and contraction of the loaded diagram.", "Names, annotations that look like numbers, gaps in vertex numbers, label precision."),
"C18": ("Own reader of TikZ text; expected structure of hand-written pictures.", "Layouts with overlaps and every style synonym."),
"C19": ("Structural equality of the patched diagram with the second diagram, directly and through JSON.", "Edits that interact: re-used indices, changed type together with phase, replaced edges."),
"C20": ("A complex number carried along.", "Accumulations that interact (zero, floats, spider pairs with every phase combination on a grid)."),
"C21": ("Dictionary-of-monomials polynomials with exact rationals, plus evaluation at several points.", "Algebraic laws over all expression trees."),
"C22": ("Substitute numbers (harness arithmetic) and contract: before and after must agree for the drawn assignment.", "Every rule has a Pauli/Clifford test that symbolic phases must not fool; Boolean variables make `2a` vanish."),
"C23": ("Plain dictionary model of a labelled graph, every query compared after every operation.", "Index re-use, insertion at given indices, bulk forms."),
"C24": ("Contraction of the spec with every parallel edge present.", "All multisets of edges in all orders over both insertion paths."),
"C25": ("Structural snapshots of one side while the other is modified.", "Shared mutable state shows only when both sides are changed."),
"C26": ("numpy elimination modulo 2.", "Chunked elimination has cases by block boundary and rank deficiency."),
"C27": ("CNOTs multiplied out over GF(2); membership of each CNOT in the coupling graph.", "Random labellings of random graphs; tests use named architectures with their default labelling."),
"C28": ("Own execution of the circuit on parities, collecting the phase for each.", "Heuristics and root choices differ by graph and polynomial."),
"C29": ("Sum of the contracted terms against the contraction of the diagram.", "All phase signs, numbers of T spiders and choices of spiders."),
"C30": ("Own layered search with elimination over all subsets (complete), and the definition of gflow for reported answers; linear algebra for MBQC steps.", "Soundness *and* completeness for all small open graphs."),
"C31": ("Contraction with H-boxes, scalar included.", "No test checks scalars for these rules."),
"C32": ("Check says no: nothing changes; yes: the map is the same.", "Every location, not the ones shown in tests; editor operations have no tests."),
"C33": ("Contraction up to a factor, recomputed scores.", "Moves next to boundaries, gadgets and shared neighbours; long annealing runs."),
"C34": ("Own contraction and bookkeeping, frequency bounds of 7 standard deviations (false alarm probability < 1e-11 per statistic).", "All parameter corners, including sums of probabilities that are 1 only up to rounding."),
"C35": ("Completely positive maps by doubling the contraction; direct density-matrix simulation of hybrid circuits.", "No test runs a simplifier on a diagram with grounds."),
"C36": ("quimb's contraction of the exported network against own contraction.", "Isolated spiders, direct wires, parallel edges, name gaps."),
"C37": ("The written file is read back (library reader and own QASM reader) and its unitary compared with the input's; a snapshot of the scratch directory tells what else was touched.", "Option combinations x formats; error paths (status and files) are untested."),
"C38": ("Breadth-first search and the definitions, on the coupling graph read edge by edge.", "Subsets of qubits, random placements and vertex orders; tests never ask for a path, a cut vertex or a tree and compare it with the graph."),
"C39": ("An independent reader: a LaTeX evaluator for printed numbers and matrices, a parser for phases, and the picture itself taken apart (matplotlib artists; the JSON a browser would decode from the d3 page).", "Numbers of every size and near-misses of the pretty-printed ones, every kind of node, annotations with quotes; tests only check that drawing does not raise."),
"C40": ("A model of the session (list of past states with a pointer), the browser's messages played by the harness, tensor evaluation with every boundary open for rewrites, C39's reader for the matrix shown.", "Histories that mix browser edits, rewrites, Python changes, undo, redo and paste; the editor has no tests."),
}

def main():
    known = json.load(open(os.path.join(V, "known_findings.json")))
    fixed = {}
    for l in known["fixed"]:
        _, p, rest = l.split(" ", 2)
        fixed.setdefault(p.split("=")[1], []).append(rest)
    out = [INTRO]
    sd = os.path.join(V, "seeded")
    res = {}
    rp = os.path.join(V, "tools", "plant_results.json")
    if os.path.exists(rp): res = json.load(open(rp))
    out.append("| planted bug | property | needs | caught by |\n|---|---|---|---|\n")
    for b in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        m = json.load(open(os.path.join(sd, b, "meta.json")))
        out.append("| %s | %s | %s | %s |\n" % (b, m["property"], m["needs"].replace("|", "/"), res.get(b, "check of %s" % m["property"])))
    extra = os.path.join(V, "tools", "design_notes.md")
    if os.path.exists(extra): out.append("\n" + open(extra).read())
    out.append("\n# Properties\n")
    for l in open(os.path.join(V, "properties.jsonl")):
        p = json.loads(l); i = p["id"]; m = importlib.import_module("pbt.props." + i)
        o, why = T[i]
        out.append("\n## %s %s\n\n%s\n\n" % (i, p["title"], p["statement"]))
        out.append("* **Generated and counted.** %s\n" % m.RULE)
        out.append("* **Oracle.** %s\n" % o)
        out.append("* **Beyond the tests.** %s\n" % why)
        out.append("* **Reading (what counts, what is not judged).** %s\n" % " ".join(m.ASSUMPTIONS))
        out.append("* **Sub-checks (cases per quick run; thorough: x20).** %s\n" % ", ".join("%s %d" % (s.name, s.quick) for s in m.SUBS))
        if i in fixed:
            out.append("* **Defects found here and repaired in /repo (%d).**\n" % len(fixed[i]))
            for f in fixed[i]: out.append("  * %s\n" % f)
        else: out.append("* **Defects found here.** none\n")
    open(os.path.join(V, "DESIGN.md"), "w").write("".join(out))
    print(len("".join(out)))
main()
