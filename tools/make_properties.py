"""Single source of /verif/properties.jsonl.  Run: python3 tools/make_properties.py"""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Converting a circuit to a diagram preserves its matrix",
 "For every circuit built from the documented gates, the diagram obtained from it (in any layout, in ZX or ZH style, in any storage backend) and the matrix obtained from it equal, including global phase and scalar, the product of the textbook unitaries of its gates. Inputs and outputs appear in qubit order.",
 ["inputs","programs"], "All circuits: any number of qubits, any sequence of gates of the gate set with any control/target placement and any rational phase; every conversion option.",
 "Tests compare a few random circuits against themselves (diagram against simplified diagram) and single gates with default placement; nothing compares every gate type, placement, phase and option with an independent unitary.",
 ["pyzx/circuit/__init__.py","pyzx/circuit/graphparser.py","pyzx/circuit/gates.py","pyzx/tensor.py"],
 [("circuit_to_graph","pyzx/circuit/graphparser.py"),("Gate.to_graph of every gate class","pyzx/circuit/gates.py")],
 ["Circuit.to_graph","Circuit.to_matrix","Circuit.to_tensor"])

prop("C02", "Lowering gates to the basic gate set keeps the unitary",
 "Replacing every gate of a circuit by its decomposition into basic gates, or splitting phase gates into elementary ones, yields a circuit over the same qubits that implements the same unitary up to global phase and consists only of gates of the promised basic set. Gate statistics (T-count, gate counts, depth) of the result describe exactly the gates present.",
 ["inputs","programs"], "All circuits over the full gate set, all placements and rational phases.",
 "Tests check only a handful of named gates at one phase; decompositions branch on phase and on multi-controlled structure.",
 ["pyzx/circuit/gates.py","pyzx/circuit/__init__.py"],
 [("Gate.to_basic_gates","pyzx/circuit/gates.py"),("Circuit.split_phase_gates / stats_dict / depth / tcount","pyzx/circuit/__init__.py")],
 ["Circuit.to_basic_gates","Circuit.split_phase_gates","Circuit.stats_dict","Circuit.tcount","Circuit.depth"])

prop("C03", "Circuit algebra: composition, tensor and adjoint mean what they say",
 "Sequential composition (also onto a chosen subset of qubits), parallel composition, adjoint, copying, and building a circuit by appending or prepending gates act on circuits exactly as matrix product, Kronecker product, conjugate transpose and identity act on their unitaries. The operands of the non-mutating forms are left unchanged and do not share later modifications with the result.",
 ["inputs","programs","histories"], "All circuits, all qubit masks, all interleavings of the construction operations.",
 "Tests compose one or two fixed circuits; gates are mutable objects shared between circuits, so aliasing and per-gate adjoints can only be judged over all gate types and operation orders.",
 ["pyzx/circuit/__init__.py","pyzx/circuit/gates.py"],
 [("add_circuit, tensor, adjoint, __add__, __matmul__","pyzx/circuit/__init__.py"),("Gate.reposition / to_adjoint / copy / __eq__","pyzx/circuit/gates.py")],
 ["Circuit.adjoint","Circuit.add_circuit","Circuit.tensor","Circuit.copy","Circuit.prepend_gate"])

prop("C04", "A positive circuit-equality verdict is never wrong",
 "When the equality check reports that two circuits are equal, their unitaries are equal up to a global phase (or up to a global phase and a permutation of output qubits when swaps are allowed). When both circuits are Clifford, or one is the other lowered to basic gates or is the same circuit, the check always reports equality of equal circuits.",
 ["inputs","programs"], "All pairs of circuits with the same number of qubits, in particular equal-by-construction pairs, one-gate mutations, and pairs differing by a permutation, a Pauli or a small phase.",
 "Tests try one positive and few negative pairs; soundness ranges over all pairs, and near-misses (a Pauli, a phase, a permutation) are exactly what it must reject.",
 ["pyzx/circuit/__init__.py","pyzx/graph/base.py","pyzx/simplify.py"],
 [("Circuit.verify_equality","pyzx/circuit/__init__.py"),("BaseGraph.is_id","pyzx/graph/base.py")],
 ["Circuit.verify_equality"])

prop("C05", "Diagram evaluation computes the standard interpretation exactly",
 "The tensor and matrix computed for a diagram equal, including scalar when requested, the contraction of the standard interpretations of its vertices and edges, independent of vertex numbering, layout and edge insertion order. Comparing two tensors answers true exactly when they agree up to a non-zero factor (or exactly, when scalars are preserved), and the reported correction factor is that factor.",
 ["inputs"], "All diagrams over boundaries, Z and X spiders, H-boxes, W nodes and Z-boxes with any connectivity, phases, edge types, input/output order and scalar.",
 "Tests evaluate circuits laid out in rows; index bookkeeping for same-row neighbours, wires from input to output, disconnected parts or arbitrary row orders is never sampled against an independent evaluator.",
 ["pyzx/tensor.py"],
 [("tensorfy","pyzx/tensor.py"),("compare_tensors, find_scalar_correction, compose_tensors, adjoint, is_unitary","pyzx/tensor.py")],
 ["BaseGraph.to_tensor","BaseGraph.to_matrix","compare_tensors","find_scalar_correction"])

prop("C06", "Diagram algebra matches linear algebra",
 "Composing diagrams, placing them in parallel, taking the adjoint, plugging basis states and effects into inputs and outputs, splitting off and merging subdiagrams, and detecting or normalising inputs and outputs have exactly the effect on the represented linear maps (scalars included) that the corresponding linear-algebra operation has. Diagrams that are arguments of non-mutating operations do not change.",
 ["inputs","histories"], "All diagrams with compatible boundaries, all state/effect strings, chains of such operations, both storage backends.",
 "Tests compose a few circuit diagrams; Hadamard boundary wires, direct input-output wires, parallel edges created by gluing and scalar factors are not enumerated.",
 ["pyzx/graph/base.py"],
 [("compose, tensor, adjoint, apply_state, apply_effect, merge, subgraph_from_vertices, auto_detect_io, normalize","pyzx/graph/base.py")],
 ["BaseGraph.compose","BaseGraph.__matmul__","BaseGraph.adjoint","BaseGraph.apply_state","BaseGraph.apply_effect"])

prop("C07", "Simplification strategies preserve the linear map exactly",
 "Running any simplification strategy (spider fusion, identity removal, local complementation, pivoting and its variants, bialgebra, copying, gadget fusion, supplementarity, interior/full Clifford simplification, full reduction, phase-free and scalar reduction, colour-changing and graph-like conversion, and their step-by-step variants) on any diagram it accepts (gadget and pivoting steps: graph-like ones) leaves the represented linear map unchanged including the global scalar. The boundary vertices keep their order.",
 ["inputs","programs"], "All ZX diagrams (circuit-derived and arbitrary, disconnected, with boundary-adjacent spiders, Hadamard wires, any phases) and every strategy, including sequences of strategies.",
 "Tests run each strategy on a handful of seeded random circuits and ignore scalars for many; correctness must hold on arbitrary diagrams and at every batch of simultaneous rewrites.",
 ["pyzx/simplify.py","pyzx/rules.py","pyzx/graph/base.py","pyzx/graph/scalar.py"],
 [("*_simp functions, to_gh, to_rg, to_graph_like, to_clifford_normal_form_graph","pyzx/simplify.py"),("match_* / rewrite rules","pyzx/rules.py"),("add_edge_table smart edges","pyzx/graph/graph_s.py")],
 ["tensor of the diagram before and after"])

prop("C08", "Simplification reaches its documented normal forms and never adds T gates",
 "Every strategy terminates, and afterwards no instance of the rules it exhausts remains: full reduction leaves a graph-like diagram without interior Clifford spiders that could be removed and without duplicate gadgets, reduces a Clifford diagram without inputs and outputs to a number, and Clifford normal form has its documented shape. Clifford-preserving strategies never increase the number of non-Clifford phases, and the reported numbers of rewrites agree with what happened.",
 ["inputs","programs"], "All ZX diagrams; every strategy; repeated application.",
 "Tests check T-count on a few circuits; termination and normal-form shape range over all diagrams.",
 ["pyzx/simplify.py","pyzx/rules.py"],
 [("simp loop, full_reduce, clifford_simp, interior_clifford_simp, to_clifford_normal_form_graph","pyzx/simplify.py"),("is_graph_like, tcount","pyzx/simplify.py")],
 ["full_reduce","clifford_simp","is_graph_like","tcount","Stats"])

prop("C09", "Any selection of rule matches can be applied soundly",
 "For every rewrite rule, any diagram, any restriction filter and any limit on the number of matches, the set of matches returned respects the filter and the limit, the matches are pairwise compatible, and applying them (one by one or together) leaves the linear map including scalar unchanged. A rule reporting no match leaves the diagram untouched.",
 ["inputs","schedules"], "All diagrams, all rules, all filters on vertices/edges, all match limits, all subsets of a returned match list.",
 "Tests always apply all matches of a rule; a filter or limit changes which overlapping matches are taken.",
 ["pyzx/rules.py","pyzx/simplify.py"],
 [("match_*_parallel / rewrite functions, apply_rule","pyzx/rules.py")],
 ["match_* functions","rules.apply_rule"])

prop("C10", "Phase teleportation keeps the diagram's shape and its meaning",
 "Teleporting phases of a circuit diagram yields a diagram with the same connectivity, only phases moved, implementing the same linear map up to a global phase, so that reading it back as a circuit gives the same gates except for phase values and the same unitary. The number of non-Clifford phases never increases and, for circuits, is the number full reduction leaves. The diagram given and the result can be simplified further as usual.",
 ["inputs","programs"], "All circuits and circuit-derived diagrams with rational phases.",
 "Tests run it on a few seeded circuits; phase-merging signs depend on the whole simplification history.",
 ["pyzx/simplify.py","pyzx/graph/base.py"],
 [("teleport_reduce, Simplifier.fuse_phases, phase_negate","pyzx/simplify.py")],
 ["teleport_reduce","Circuit.from_graph"])

prop("C11", "Circuit extraction returns an equivalent circuit",
 "From every diagram that came from a circuit, after any of the supported simplifications, every extraction procedure (with every combination of its options, including the look-ahead and Clifford-normal-form variants) returns a circuit with the same number of qubits implementing the same unitary up to global phase, or up to the documented output permutation when that is requested. Extraction without simplification from an untouched circuit diagram gives the circuit back, and reading any diagram that is laid out as a circuit gives a circuit for the same map.",
 ["inputs","programs","configurations"], "All circuits × simplification strategy × extraction option combination.",
 "Tests extract from a few seeded circuits with default options; linear-algebra heuristics and gadget pivots depend on graph connectivity.",
 ["pyzx/extract.py","pyzx/circuit/graphparser.py","pyzx/linalg.py"],
 [("extract_circuit, extract_simple, lookahead_*, extract_clifford_normal_form, graph_to_swaps","pyzx/extract.py"),("graph_to_circuit","pyzx/circuit/graphparser.py")],
 ["extract_circuit","Circuit.from_graph","lookahead_extract","extract_simple"])

prop("C12", "Circuit optimisers preserve the unitary and never get worse",
 "The circuit-level optimisers return a circuit over the same qubits implementing the same unitary up to global phase, without modifying their input, and never with a larger T-count; the gate-cancelling optimiser also never returns more two-qubit gates, except for those needed to undo reordering by swaps.",
 ["inputs","programs"], "All circuits over the accepted gate set, with and without swap handling.",
 "Tests optimise a few seeded circuits; commutation bookkeeping depends on the whole gate history.",
 ["pyzx/optimize.py","pyzx/todd.py"],
 [("basic_optimization, full_optimize, Optimizer","pyzx/optimize.py")],
 ["basic_optimization","full_optimize","phase_block_optimize"])

prop("C13", "Third-order T-count optimisation preserves the phase polynomial",
 "Optimising a block of CNOT and phase gates by parity-matrix methods gives gates implementing the same diagonal-and-linear unitary up to global phase with at most as many T gates; the block-wise optimiser built on it preserves the unitary of whole circuits, and its form for diagrams (todd_on_graph) preserves the linear map up to a scalar without adding T-phases.",
 ["inputs","programs"], "All CNOT+phase gate blocks, all circuits partitioned into such blocks, all graph-like diagrams with phase gadgets.",
 "Tests run a few random phase polynomials; the Clifford correction is recomputed from signed parity sums that only unusual coefficients exercise.",
 ["pyzx/todd.py","pyzx/optimize.py"],
 [("todd_simp, todd_iter, MultiLinearPoly.to_clifford, phase_gates_to_poly","pyzx/todd.py"),("todd_on_graph","pyzx/todd.py"),("phase_block_optimize, greedy_consume_gates","pyzx/optimize.py")],
 ["todd_simp","todd_on_graph","phase_block_optimize"])

prop("C14", "OpenQASM output round-trips",
 "Printing any circuit of supported gates as OpenQASM 2 or 3 and parsing the text gives a circuit with the same qubits implementing the same unitary up to the precision of printed phases, in the same gate order. Writing never changes the circuit.",
 ["inputs","programs"], "All circuits with gates that have a QASM form, all rational phases, both dialects.",
 "Tests round-trip a fixed list of gates with fixed phases.",
 ["pyzx/circuit/__init__.py","pyzx/circuit/gates.py","pyzx/circuit/qasmparser.py"],
 [("Circuit.to_qasm / from_qasm","pyzx/circuit/__init__.py"),("Gate.to_qasm","pyzx/circuit/gates.py"),("QASMParser","pyzx/circuit/qasmparser.py")],
 ["Circuit.to_qasm","Circuit.from_qasm"])

prop("C15", "OpenQASM programs are parsed with their standard meaning",
 "Every program in the supported OpenQASM subset (registers, register broadcast, standard-library gates with arithmetic phase expressions, user-defined gates, measurements, comments and spacing) is parsed to a circuit whose unitary is the one the language defines, up to global phase. Unsupported or malformed statements are rejected with an error instead of being silently misread, and one parse never influences the next.",
 ["inputs","programs","histories"], "All programs of the supported subset in both dialects, and malformed variants of them.",
 "Tests parse a list of one-line programs; expression forms, broadcasting, nested gate definitions and whitespace combine freely.",
 ["pyzx/circuit/qasmparser.py","pyzx/circuit/gates.py"],
 [("QASMParser.parse / parse_command / parse_phase_arg","pyzx/circuit/qasmparser.py"),("qasm_gate_table","pyzx/circuit/gates.py")],
 ["Circuit.from_qasm","qasm()"])

prop("C16", "The other circuit text formats round-trip",
 "Writing a circuit in the .qc or Quipper ASCII format and reading it back, from a string or from a file through automatic format detection, gives a circuit with the same unitary; the sQASM-style and qsim-style inputs are read with their documented meaning, and the emoji form shows the circuit. A gate that a format cannot express is rejected rather than written as something else.",
 ["inputs","programs"], "All circuits of gates expressible in the format, with the full range of phases and controls; all orderings of the format's statements.",
 "Tests load a few sample files and check the gate count.",
 ["pyzx/circuit/__init__.py","pyzx/circuit/qcparser.py","pyzx/circuit/quipperparser.py","pyzx/circuit/qsimparser.py","pyzx/circuit/gates.py"],
 [("to_qc / to_quipper / from_* / load / determine_file_type","pyzx/circuit/__init__.py"),("parse_qc, parse_quipper_block, parse_qsim","pyzx/circuit")],
 ["Circuit.to_qc","Circuit.to_quipper","Circuit.load"])

prop("C17", "JSON serialisation of diagrams and scalars is lossless",
 "Saving a diagram as JSON and loading it gives a diagram with the same vertices' kinds, phases, positions, annotations, edges, ground flags, inputs, outputs and scalar, hence the same linear map; serialising twice is stable. Scalars round-trip on their own too.",
 ["inputs","histories"], "All diagrams over every vertex kind, phase (rational or symbolic), edge type and scalar, in either backend, including ones produced by simplification or by loading and composing saved diagrams.",
 "Tests round-trip one circuit diagram and compare tensors.",
 ["pyzx/graph/jsonparser.py","pyzx/graph/scalar.py"],
 [("graph_to_json, json_to_graph, string_to_phase","pyzx/graph/jsonparser.py"),("Scalar.to_json / from_json","pyzx/graph/scalar.py")],
 ["BaseGraph.to_json","BaseGraph.from_json","Scalar.to_json"])

prop("C18", "TikZ export and import is lossless for diagrams",
 "Exporting a diagram to TikZ and importing the text again gives an isomorphic diagram representing the same linear map up to a scalar, whatever the layout. Text that is not such a picture is rejected with an error or a warning, not misread.",
 ["inputs"], "All diagrams of Z/X spiders, H-boxes, Z-boxes and W nodes with rational phases, arbitrary positions and edges.",
 "No test covers the importer; exporter tests check only that text is produced.",
 ["pyzx/tikz.py"],
 [("to_tikz, tikz_to_graph","pyzx/tikz.py")],
 ["BaseGraph.to_tikz","BaseGraph.from_tikz"])

prop("C19", "Applying the difference of two diagrams to the first gives the second",
 "For any two versions of a diagram, the computed difference applied to the first gives a diagram identical to the second in vertices, kinds, phases, positions, annotations, edges, and edge types, also after the difference has been through its JSON form. The diagrams compared are not modified.",
 ["inputs","histories"], "All pairs (diagram, edited or simplified diagram).",
 "Tests diff a few rewritten circuits.",
 ["pyzx/graph/diff.py"],
 [("GraphDiff.calculate_diff / apply_diff / to_json / from_json","pyzx/graph/diff.py")],
 ["GraphDiff"])

prop("C20", "Scalar bookkeeping equals complex arithmetic",
 "However a scalar is accumulated (powers of root two, phases, spider factors, spider pairs, floats, zero, multiplication with other scalars, copying and conjugation), the number it denotes equals the product of the complex numbers of its parts, and reading that number does not change it. Its equality to zero and its textual forms are consistent with that number.",
 ["inputs","histories"], "All sequences of scalar operations with rational phases.",
 "Tests check a few constants; phases reduce modulo two and special cases exist for particular phase values.",
 ["pyzx/graph/scalar.py"],
 [("Scalar.add_* / mult_with_scalar / copy / conjugate / to_number","pyzx/graph/scalar.py")],
 ["Scalar.to_number","complex(scalar)"])

prop("C21", "Symbolic phases obey the laws of polynomials",
 "Arithmetic on symbolic phase expressions (addition, subtraction, multiplication, powers, modular reduction of coefficients, equality, hashing, substitution) agrees with evaluating the expressions under every assignment, with Boolean variables idempotent under multiplication and the coefficients of Boolean terms modulo two where reduced as a phase. Parsing the printed form of an expression yields an equal expression. Comparison is a total order that agrees with equality.",
 ["inputs"], "All expressions over any number of real and Boolean variables with rational coefficients.",
 "Tests parse a handful of expressions.",
 ["pyzx/symbolic.py"],
 [("Poly, Term, Var operators","pyzx/symbolic.py"),("parse, poly_grammar","pyzx/symbolic.py")],
 ["Poly arithmetic","Poly.substitute","symbolic.parse"])

prop("C22", "Rewriting with symbolic phases commutes with substitution",
 "Simplifying a diagram whose phases are symbolic expressions and then substituting numbers represents the same linear map, up to the documented scalar limitations, as substituting first; so do teleportation, diagram algebra and extraction as far as they accept symbolic phases.",
 ["inputs","programs"], "All diagrams with symbolic phases, all strategies accepting them, all substitutions.",
 "Tests simplify one symbolic diagram.",
 ["pyzx/symbolic.py","pyzx/rules.py","pyzx/simplify.py"],
 [("phase arithmetic with Poly, is_pauli/is_clifford predicates","pyzx/utils.py")],
 ["full_reduce on symbolic diagrams"])

prop("C23", "Graph storage behaves like a labelled graph",
 "After any sequence of vertex and edge additions, removals and attribute changes, every query (vertices, edges, neighbours, degrees, incident edges, connectivity, types, phases, positions, ground flags, annotations, inputs, outputs, counts, numbering) of every storage backend agrees with a plain model of the graph. Removed elements leave no trace and new elements never reuse a live name.",
 ["histories"], "All operation sequences, for the simple-graph and multigraph backends.",
 "Tests perform a dozen fixed operations; stale adjacency or counters show only after particular histories.",
 ["pyzx/graph/base.py","pyzx/graph/graph_s.py","pyzx/graph/multigraph.py"],
 [("GraphS methods","pyzx/graph/graph_s.py"),("Multigraph methods","pyzx/graph/multigraph.py")],
 ["the graph API"],
 [("graph / nedges / _vindex / ty / _phase","adjacency, counters and attributes","pyzx/graph/graph_s.py")])

prop("C24", "Resolving parallel edges and self-loops preserves the linear map",
 "When several edges are added between the same vertices, or edges are added next to existing ones, or self-loops arise, the simplified storage represents the same linear map including scalar as the diagram with all the edges present, in every backend and for every combination of spider colours and edge types.",
 ["inputs"], "All multisets of plain and Hadamard edges between Z/X spiders, Z-boxes and (where a repeated connection is absorbed by copying) H-boxes, in all orders.",
 "Edge resolution is reached in tests only through rewrites on Z-spiders.",
 ["pyzx/graph/graph_s.py","pyzx/graph/multigraph.py","pyzx/graph/base.py"],
 [("add_edge_table","pyzx/graph/graph_s.py"),("Multigraph.add_edge auto-simplify","pyzx/graph/multigraph.py")],
 ["BaseGraph.add_edge_table","Multigraph.add_edge"])

prop("C25", "Copies of diagrams are faithful and isolated",
 "Copying, cloning, taking a backup or changing the backend of a diagram yields a diagram with the same vertices (up to renumbering), kinds, phases, edges, positions, annotations, ground flags, inputs, outputs and scalar; afterwards no change to one of the two is visible in the other.",
 ["histories"], "All diagrams in both backends, and all later modification sequences on either side.",
 "Tests copy a diagram and compare tensors once.",
 ["pyzx/graph/base.py","pyzx/graph/graph_s.py","pyzx/graph/multigraph.py"],
 [("copy / clone / merge / subgraph_from_vertices","pyzx/graph")],
 ["BaseGraph.copy","BaseGraph.clone"])

prop("C26", "GF(2) linear algebra is correct",
 "Matrix product, transpose, rank, row reduction in every mode (with and without recorded operations, with block elimination), inverse, solving and nullspace over GF(2) satisfy their defining equations for every matrix, the recorded row or column operations reproduce the reported result, and the gate sequences derived from a matrix implement exactly that linear map. Arguments are not changed unless documented.",
 ["inputs"], "All binary matrices of any shape, including empty, singular and non-square ones, and all option combinations.",
 "Tests use a few random matrices.",
 ["pyzx/linalg.py","pyzx/extract.py"],
 [("Mat2.gauss, inverse, rank, solve, nullspace, to_cnots","pyzx/linalg.py"),("greedy_reduction, column_optimal_swap, find_minimal_sums","pyzx/extract.py")],
 ["Mat2"])

prop("C27", "Architecture-constrained CNOT synthesis is correct and respects connectivity",
 "For every invertible parity map, architecture and elimination mode, the synthesised CNOT sequence implements the requested linear map (composed with the reported permutations when permutation is allowed) and, for connectivity-aware modes, uses only CNOTs between connected qubits. Re-synthesising a CNOT circuit gives an equal circuit.",
 ["inputs","configurations"], "All parity maps × built-in architecture families × modes × options.",
 "Tests use a few seeds on fixed architectures.",
 ["pyzx/routing/cnot_mapper.py","pyzx/routing/steiner.py","pyzx/routing/parity_maps.py","pyzx/routing/architecture.py","pyzx/parity_network.py"],
 [("gauss, permuted_gauss, sequential_gauss","pyzx/routing/cnot_mapper.py"),("steiner_gauss, rec_steiner_gauss","pyzx/routing/steiner.py"),("CNOT_tracker","pyzx/routing/parity_maps.py")],
 ["gauss","permuted_gauss","steiner_gauss","CNOT_tracker"])

prop("C28", "Phase-polynomial routing is correct and respects connectivity",
 "Routing a phase polynomial to an architecture with any method, root heuristic and split heuristic yields a circuit of CNOTs along allowed connections and Z phases which implements the same parities, phases and output permutation as the polynomial; converting a CNOT+phase circuit to a phase polynomial and back keeps its unitary.",
 ["inputs","configurations"], "All phase polynomials × architectures × methods × heuristics.",
 "Tests use a few seeded polynomials.",
 ["pyzx/routing/phase_poly.py","pyzx/routing/architecture.py","pyzx/parity_network.py"],
 [("route_phase_poly, PhasePoly.*_synth, fromCircuit","pyzx/routing/phase_poly.py"),("parity_network","pyzx/parity_network.py")],
 ["route_phase_poly","PhasePoly"])

prop("C29", "Stabilizer decomposition reproduces the amplitude",
 "Decomposing a diagram into a sum of stabilizer diagrams gives terms whose values add up exactly to the diagram's value (or to its tensor when it has open wires), with no more terms than the announced bound and no non-Clifford phase left in the end; individual magic-state replacements are exact identities. Post-selection and direct path-sum evaluation agree with the tensor, and post-selection never changes the original.",
 ["inputs","programs"], "All Clifford+T diagrams, all numbers of T spiders (each replacement rule is chosen by that number), all post-selections.",
 "Tests simulate a few circuits.",
 ["pyzx/simulate.py"],
 [("find_stabilizer_decomp, replace_magic_states, replace_*, max_terms_needed, calculate_path_sum, SumGraph.post_select","pyzx/simulate.py")],
 ["SumGraph","find_stabilizer_decomp","max_terms_needed"])

prop("C30", "Flow finding is sound and complete; MBQC helpers build what they claim",
 "When a generalised flow is reported for a diagram it satisfies the flow conditions, and one is reported whenever one exists. Cluster states, measurements and Pauli corrections built by the measurement-based helpers represent the claimed states and effects.",
 ["inputs"], "All open graphs with chosen inputs and outputs; all cluster shapes and measurement patterns.",
 "Tests check one or two diagrams with known answer.",
 ["pyzx/gflow.py","pyzx/mbqc.py"],
 [("gflow","pyzx/gflow.py"),("cluster_state, measure, apply_pauli","pyzx/mbqc.py")],
 ["gflow","cluster_state"])

prop("C31", "ZH-calculus rewriting preserves the linear map exactly",
 "Conversion to and from hypergraph form and every ZH rewrite and strategy (parallel and nested H-boxes, copying, hyper-pivot, not-removal, Hadamard absorption) leave the linear map including scalar unchanged on every ZH diagram they accept, terminate, and produce the documented form.",
 ["inputs","schedules"], "All ZH diagrams (Z/X spiders, H-boxes of any arity and phase), all rules and strategies.",
 "Tests run the strategies on a few Toffoli circuits.",
 ["pyzx/hsimplify.py","pyzx/hrules.py"],
 [("to_hypergraph_form, from_hypergraph_form, zh_simp, hsimp","pyzx/hsimplify.py"),("match_* / rules","pyzx/hrules.py")],
 ["hsimplify functions"])

prop("C32", "Interactive single rewrites preserve the linear map",
 "Every elementary rewrite offered for interactive proofs (fuse, unfuse, colour change, copy, push Paulis, bialgebra, remove or add identity, Euler expansion, and the other proof-editor actions), when its applicability check says it applies and it is applied at any location, leaves the linear map unchanged, up to scalar where documented; when it does not apply, nothing changes.",
 ["inputs","histories"], "All diagrams and all locations, sequences of such rewrites.",
 "Tests for these rewrites cover few hand-made diagrams.",
 ["pyzx/basicrules.py","pyzx/editor_actions.py","pyzx/rules.py"],
 [("check_* / rule functions","pyzx/basicrules.py"),("operations table and its matchers/rules","pyzx/editor_actions.py")],
 ["basicrules","editor_actions.operations"])

prop("C33", "Local-search moves and searches keep the diagram equivalent",
 "Every random local move used for circuit optimisation (local-complementation and pivot congruences) keeps the represented map up to a scalar, so annealing and genetic search starting from a circuit diagram return a diagram that is equivalent to the start and never scores worse than it.",
 ["inputs","schedules"], "All graph-like diagrams, all random choices, all search parameters.",
 "No test covers them.",
 ["pyzx/local_search"],
 [("congruences","pyzx/local_search/congruences.py"),("Annealer, GeneticOptimizer","pyzx/local_search")],
 ["congruences","simulated_annealing"])

prop("C34", "Random generators deliver what they promise",
 "Every random or structured generator returns a well-formed diagram or circuit of the requested size over the requested gate kinds (Clifford generators are Clifford, phase-polynomial generators have the requested parities, identity builders are identities), and is reproducible from its seed.",
 ["inputs","configurations"], "All sizes and probability settings, all seeds.",
 "Tests use generators as input sources but never judge them.",
 ["pyzx/generate.py"],
 [("cliffordT, cliffordTmeas, cliffords, CNOT_HAD_PHASE_circuit, phase_poly, ...","pyzx/generate.py")],
 ["generate functions"])

prop("C35", "Classically controlled and measured diagrams keep their channel",
 "For diagrams with ground (discard or classical) vertices and circuits with measurements or initialisation, simplification and graph conversion preserve the represented completely positive map; post-selecting and preparing qubits give the right operators.",
 ["inputs","programs"], "All hybrid diagrams with any placement of ground vertices, all simplification strategies that accept them.",
 "Tests cover a few ground diagrams syntactically.",
 ["pyzx/rules.py","pyzx/simplify.py","pyzx/circuit/gates.py","pyzx/graph/base.py"],
 [("ground handling in match_*/spider/id/gadget rules","pyzx/rules.py"),("Measurement, DiscardBit, InitAncilla, PostSelect","pyzx/circuit/gates.py")],
 ["full_reduce with grounds"])

prop("C36", "Exporting to a tensor-network library keeps the tensor",
 "The tensor network produced for an external contraction library contracts to the diagram's tensor including scalar, with open legs identifiable as the inputs and outputs.",
 ["inputs"], "All diagrams of supported vertex kinds.",
 "Tests compare two small circuits.",
 ["pyzx/quimb.py"],
 [("to_quimb_tensor","pyzx/quimb.py")],
 ["to_quimb_tensor"])

prop("C37", "Command-line optimisation and export tools keep the circuit's meaning",
 "Running the command-line circuit optimiser on a circuit file in any supported format with any option combination writes a circuit file implementing the same unitary, and the export tool writes a picture of the circuit given; bad input gives an error status and leaves no misleading output.",
 ["inputs","configurations"], "All input circuits × formats × option combinations.",
 "Tests run each script once.",
 ["pyzx/scripts/circ2circ.py","pyzx/scripts/circ2tikz.py","pyzx/__main__.py"],
 [("circ2circ.main","pyzx/scripts/circ2circ.py"),("circ2tikz.main","pyzx/scripts/circ2tikz.py")],
 ["python -m pyzx opt","python -m pyzx tikz"])

prop("C38", "Architecture queries answer for the coupling graph",
 "Every named or self-made architecture is a connected coupling graph of the advertised size with a consistent placement of qubits on vertices and a removal order that keeps the rest connected; neighbours, distances, shortest paths, cut vertices and arities are those of the graph, and the Steiner trees handed to the routers are trees of allowed couplings that reach all terminals, walked parents-first and then children-first.",
 ["inputs","configurations"], "All named architectures and sizes, all connected coupling graphs and placements, all subsets of qubits.",
 "Tests build a few small architectures and never compare the answers with the graph; the routers' correctness rests on them.",
 ["pyzx/routing/architecture.py"],
 [("Architecture, create_architecture, floyd_warshall, shortest_path, steiner_tree, rec_steiner_tree","pyzx/routing/architecture.py"),("steiner_gauss, rec_steiner_gauss","pyzx/routing/steiner.py")],
 ["create_architecture","Architecture.shortest_path","Architecture.steiner_tree"])

prop("C39", "Pictures and printed values say what the diagram and the numbers are",
 "A matplotlib or d3 picture shows exactly the nodes, colours, phases, labels and wires (plain or Hadamard) of the diagram or circuit, each where the layout puts it and nothing else; the text of phases, complex numbers and matrices reads back, by the ordinary rules of arithmetic, as the value printed (to the printed precision); automatic layouts keep the diagram.",
 ["inputs"], "All complex numbers and matrices, all phases, all diagrams and circuits, every layout and both storages, any annotation.",
 "Tests only check that drawing does not crash; no test reads a picture or a printed matrix back.",
 ["pyzx/drawing.py", "pyzx/utils.py"],
 [("draw_matplotlib, draw_d3, pretty_complex, matrix_to_latex","pyzx/drawing.py"),("phase_to_s, phase_fraction_to_s","pyzx/utils.py")],
 ["draw","draw_matplotlib","draw_d3","print_matrix","matrix_to_latex","phase_to_s"])

prop("C40", "The notebook editor keeps the diagram, its view and its history in step",
 "Whatever a user does in the notebook editor, the diagram in Python is the diagram shown: edits made in the browser arrive exactly, rewrite buttons keep the linear map including scalar (or refuse and change nothing), undo and redo step exactly through the past states with phases, labels, scalar, inputs and outputs, snapshots and copies stay what they were, and the matrix and scalar shown are those of the current diagram.",
 ["inputs","histories"], "All diagrams the editor can open and all histories of edits, selections, rewrites, undo, redo, snapshots, copies and pastes.",
 "The widget has no tests at all; what can go wrong needs histories (undo of a deletion, a refused rewrite, a paste after a rewrite).",
 ["pyzx/editor.py", "pyzx/editor_actions.py"],
 [("ZXEditorWidget, graph_to_json, graph_from_json, undo, redo, paste, _apply_operation","pyzx/editor.py"),("operations, bialgebra, pauli_push, euler_expansion","pyzx/editor_actions.py")],
 ["editor.edit","ZXEditorWidget.undo","ZXEditorWidget.redo","ZXEditorWidget.paste"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: 
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
