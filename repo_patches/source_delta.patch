From 77a9cc89efe71176b2a9702be42ae301fdda411e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:53 +0000
Subject: [PATCH 001/151] fix: repositioning RZZ kept the old control/target
 and repositioning FSim raised

---
 pyzx/circuit/gates.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index d4972e6..9ebdd55 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -818,6 +818,11 @@ class RZZ(ParityPhase):
         self.targets = (control, target)
         self.phase = phase
 
+    def reposition(self, mask, bit_mask = None):
+        g = super().reposition(mask, bit_mask)
+        g.control, g.target = g.targets
+        return g
+
 
 class FSim(Gate):
     name = 'FSim'
@@ -843,11 +848,6 @@ class FSim(Gate):
     def __str__(self) -> str:
         return "FSim({!s}, {!s}, {!s}, {!s})".format(self.control, self.target, self.theta, self.phi)
 
-    def reposition(self, mask, bit_mask = None):
-        g = self.copy()
-        g.targets = [mask[t] for t in g.targets]
-        return g
-
     def to_basic_gates(self):
         # TODO
         #cnots = [CNOT(self.targets[i],self.targets[i+1]) for i in range(len(self.targets)-1)]
-- 
2.43.0


From d95093a0d853f190126c55e80bf0ffb584d560a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:53 +0000
Subject: [PATCH 002/151] fix: gates with several phases (U2, U3, CU3, CU)
 compared equal whatever their phases

---
 pyzx/circuit/gates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index 9ebdd55..48142c5 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -167,7 +167,7 @@ class Gate(object):
 
     def __eq__(self, other: object) -> bool:
         if type(self) != type(other): return False
-        for a in ["target","control","phase","adjoint"]:
+        for a in ["target","control","phase","phases","adjoint"]:
             if hasattr(self,a):
                 if not hasattr(other,a): return False
                 if getattr(self,a) != getattr(other,a): return False
-- 
2.43.0


From badd068ef911876d6857779fb96da6da532e16f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:53 +0000
Subject: [PATCH 003/151] fix: adjoint of U2, U3, CU3, CU, CSX and FSim gates
 returned the gate itself

---
 pyzx/circuit/gates.py | 52 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 45 insertions(+), 7 deletions(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index 48142c5..1cf47da 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -454,15 +454,21 @@ class SX(XPhase):
 class CSX(Gate):
     name = 'CSX'
     qasm_name = 'csx'
-    def __init__(self, control: int, target: int) -> None:
+    def __init__(self, control: int, target: int, adjoint: bool=False) -> None:
         self.target = target
         self.control = control
+        self.adjoint = adjoint
 
     def to_basic_gates(self):
         return [HAD(self.target)] + \
-               CPhase(self.control,self.target,Fraction(1,2)).to_basic_gates() + \
+               CPhase(self.control,self.target,Fraction(1,2)*(-1 if self.adjoint else 1)).to_basic_gates() + \
                [HAD(self.target)]
 
+    def to_qasm(self):
+        if self.adjoint: # There is no QASM name for the adjoint
+            return "\n".join(g.to_qasm() for g in self.to_basic_gates())
+        return super().to_qasm()
+
     def to_graph(self, g, q_mapper, c_mapper):
         for gate in self.to_basic_gates():
             gate.to_graph(g, q_mapper, c_mapper)
@@ -829,8 +835,8 @@ class FSim(Gate):
     qsim_name = 'fs'
     print_phase = True
     def __init__(self, control:int, target:int, theta:FractionLike, phi:FractionLike):
-        # TODO: this version assumes theta is always (pi/2)
-        assert theta == Fraction(1, 2)
+        # TODO: this version assumes theta is always (pi/2) (or (-pi/2), which is needed for the adjoint)
+        assert theta in (Fraction(1, 2), Fraction(-1, 2))
         self.control = control
         self.target = target
         self.theta = theta
@@ -848,6 +854,12 @@ class FSim(Gate):
     def __str__(self) -> str:
         return "FSim({!s}, {!s}, {!s}, {!s})".format(self.control, self.target, self.theta, self.phi)
 
+    def to_adjoint(self):
+        g = self.copy()
+        g.theta, g.phi = -self.theta, -self.phi
+        g.phases = [g.theta, g.phi]
+        return g
+
     def to_basic_gates(self):
         # TODO
         #cnots = [CNOT(self.targets[i],self.targets[i+1]) for i in range(len(self.targets)-1)]
@@ -855,7 +867,7 @@ class FSim(Gate):
         return [self]
 
     def to_graph(self, g, q_mapper, _c_mapper):
-        # TODO: this version assumes theta is always (pi/2)
+        # TODO: this version assumes theta is always (pi/2) or (-pi/2)
         r = max(q_mapper.next_row(self.target), q_mapper.next_row(self.control))
         qmin = min(self.target,self.control)
         c0 = self.graph_add_node(g, q_mapper, VertexType.Z, self.control,r)
@@ -870,8 +882,10 @@ class FSim(Gate):
         pg0 = g.add_vertex(VertexType.Z, qmin+0.5,r+2)
         pg1 = g.add_vertex(VertexType.Z, qmin+0.5,r+3)
 
-        g.set_phase(c, Fraction(-1,2) * self.phi)
-        g.set_phase(t, Fraction(-1,2) * self.phi)
+        # Going from theta=pi/2 to theta=-pi/2 amounts to a Z gate on both qubits
+        zphase = 0 if self.theta > 0 else 1
+        g.set_phase(c, Fraction(-1,2) * self.phi + zphase)
+        g.set_phase(t, Fraction(-1,2) * self.phi + zphase)
         g.set_phase(pg1, (Fraction(1,2) * self.phi) - Fraction(1,2))
 
         g.add_edge((c, pg0), EdgeType.HADAMARD)
@@ -1061,6 +1075,12 @@ class U2(Gate):  # See https://arxiv.org/pdf/1707.03429.pdf
                 XPhase(self.target,phase=Fraction(1,2)),
                 ZPhase(self.target,phase=(self.theta+Fraction(1,2))%2)]
 
+    def to_adjoint(self):
+        g = self.copy()
+        g.theta, g.phi = 1-self.phi, -1-self.theta
+        g.phases = [g.theta, g.phi]
+        return g
+
     def to_graph(self, g, q_mapper, c_mapper):
         for gate in self.to_basic_gates():
             gate.to_graph(g, q_mapper, c_mapper)
@@ -1083,6 +1103,12 @@ class U3(Gate):  # See equation (5) of https://arxiv.org/pdf/1707.03429.pdf
                 XPhase(self.target,phase=Fraction(1,2)),
                 ZPhase(self.target,phase=(self.phi+3)%2)]
 
+    def to_adjoint(self):
+        g = self.copy()
+        g.theta, g.phi, g.rho = -self.theta, -self.rho, -self.phi
+        g.phases = [g.theta, g.phi, g.rho]
+        return g
+
     def to_graph(self, g, q_mapper, c_mapper):
         for gate in self.to_basic_gates():
             gate.to_graph(g, q_mapper, c_mapper)
@@ -1108,6 +1134,12 @@ class CU3(Gate):
                [CNOT(self.control, self.target)] + \
                U3(self.target,self.theta/2,self.phi,0).to_basic_gates()
 
+    def to_adjoint(self):
+        g = self.copy()
+        g.theta, g.phi, g.rho = -self.theta, -self.rho, -self.phi
+        g.phases = [g.theta, g.phi, g.rho]
+        return g
+
     def to_graph(self, g, q_mapper, c_mapper):
         for gate in self.to_basic_gates():
             gate.to_graph(g, q_mapper, c_mapper)
@@ -1132,6 +1164,12 @@ class CU(Gate):
         return [ZPhase(self.control,phase=self.gamma)] + \
                CU3(self.control,self.target,self.theta,self.phi,self.rho).to_basic_gates()
 
+    def to_adjoint(self):
+        g = self.copy()
+        g.theta, g.phi, g.rho, g.gamma = -self.theta, -self.rho, -self.phi, -self.gamma
+        g.phases = [g.theta, g.phi, g.rho, g.gamma]
+        return g
+
     def to_graph(self, g, q_mapper, c_mapper):
         for gate in self.to_basic_gates():
             gate.to_graph(g, q_mapper, c_mapper)
-- 
2.43.0


From 4c58f34f0a9fa3f4a97fe968fba1012b88e7f61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:38 +0000
Subject: [PATCH 004/151] fix: evaluating a diagram whose input is laid out
 after its neighbour, or is wired to another input, raised

---
 pyzx/tensor.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyzx/tensor.py b/pyzx/tensor.py
index 1e931fc..4bf3874 100644
--- a/pyzx/tensor.py
+++ b/pyzx/tensor.py
@@ -135,7 +135,11 @@ def tensorfy(g: 'BaseGraph[VT,ET]', preserve_scalar:bool=True) -> np.ndarray:
             d = len(neigh)
             if v in inputs:
                 if types[v] != VertexType.BOUNDARY: raise ValueError("Wrong type for input:", v, types[v])
-                continue # inputs already taken care of
+                for n in neigh: # inputs already taken care of, except for wires directly between two inputs
+                    if n in inputs and n < v:
+                        wire = had if g.edge_type(g.edge(v,n)) == EdgeType.HADAMARD else id2
+                        tensor = np.tensordot(tensor,wire,axes=(pop_and_shift([v,n],indices),[0,1]))
+                continue
             if v in outputs:
                 if d != 1: raise ValueError("Weird output")
                 if types[v] != VertexType.BOUNDARY: raise ValueError("Wrong type for output:",v, types[v])
@@ -161,7 +165,7 @@ def tensorfy(g: 'BaseGraph[VT,ET]', preserve_scalar:bool=True) -> np.ndarray:
                     t = Z_box_to_tensor(d, label)
                 else:
                     raise ValueError("Vertex %s has non-ZXH type but is not an input or output" % str(v))
-            nn = list(filter(lambda n: rows[n]<r or (rows[n]==r and n<v), neigh)) # TODO: allow ordering on vertex indices?
+            nn = list(filter(lambda n: n in inputs or rows[n]<r or (rows[n]==r and n<v), neigh)) # TODO: allow ordering on vertex indices?
             ety = {n:g.edge_type(g.edge(v,n)) for n in nn}
             nn.sort(key=lambda n: ety[n])
             for n in nn:
-- 
2.43.0


From 4610b3e541995b120b3e19309c073c0bae35bb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:38 +0000
Subject: [PATCH 005/151] fix: tensor of an isolated X spider had a spurious
 axis

---
 pyzx/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/tensor.py b/pyzx/tensor.py
index 4bf3874..faa353b 100644
--- a/pyzx/tensor.py
+++ b/pyzx/tensor.py
@@ -61,7 +61,7 @@ def X_to_tensor(arity: int, phase: float) -> np.ndarray:
     m = np.ones(2**arity, dtype = complex)
     if arity == 0:
         m[()] = 1 + np.exp(1j*phase)
-        return m
+        return m.reshape(())
     for i in range(2**arity):
         if bin(i).count("1")%2 == 0:
             m[i] += np.exp(1j*phase)
-- 
2.43.0


From 6449a0c45bad457ff1defcd90829bc452fba0971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:30 +0000
Subject: [PATCH 006/151] fix: scalar of a pair of spiders with opposite phases
 used the phase in units of pi as radians

---
 pyzx/graph/scalar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/graph/scalar.py b/pyzx/graph/scalar.py
index 7d9e2a9..5d6845c 100644
--- a/pyzx/graph/scalar.py
+++ b/pyzx/graph/scalar.py
@@ -265,7 +265,7 @@ class Scalar(object):
                     self.add_phase(Fraction(1))
                 return
             self.add_power(1)
-            self.add_float(math.cos(p1))
+            self.add_float(math.cos(math.pi*p1))
             return
         # Generic case
         self.add_power(-1)
-- 
2.43.0


From 2ff20381c364e580f7b94de899c4c33565dacd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:35 +0000
Subject: [PATCH 007/151] fix: making a diagram graph-like lost the Hadamard on
 a wire between two boundaries

---
 pyzx/simplify.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzx/simplify.py b/pyzx/simplify.py
index a0cda7f..dc801da 100644
--- a/pyzx/simplify.py
+++ b/pyzx/simplify.py
@@ -477,8 +477,9 @@ def to_graph_like(g: BaseGraph[VT,ET]) -> None:
                 z1 = g.add_vertex(ty=VertexType.Z)
                 z2 = g.add_vertex(ty=VertexType.Z)
                 z3 = g.add_vertex(ty=VertexType.Z)
+                et = g.edge_type(g.edge(v, n))
                 g.remove_edge(g.edge(v, n))
-                g.add_edge((v, z1), edgetype=EdgeType.SIMPLE)
+                g.add_edge((v, z1), edgetype=et)
                 g.add_edge((z1, z2), edgetype=EdgeType.HADAMARD)
                 g.add_edge((z2, z3), edgetype=EdgeType.HADAMARD)
                 g.add_edge((z3, n), edgetype=EdgeType.SIMPLE)
-- 
2.43.0


From e16b9633f68e3cdd3ae7231a90098a188fe28229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:39 +0000
Subject: [PATCH 008/151] fix: the bialgebra simplification ignored its scalar
 factor and the types of the edges it consumes

---
 pyzx/rules.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index 708a624..6f35c06 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -107,7 +107,9 @@ def match_bialg_parallel(
     i = 0
     m: List[MatchBialgType[VT]] = []
     while (num == -1 or i < num) and len(candidates) > 0:
-        v0, v1 = g.edge_st(candidates.pop())
+        e = candidates.pop()
+        if g.edge_type(e) != EdgeType.SIMPLE: continue
+        v0, v1 = g.edge_st(e)
         if g.is_ground(v0) or g.is_ground(v1):
             continue
         v0t = types[v0]
@@ -120,7 +122,8 @@ def match_bialg_parallel(
             v1n = [n for n in g.neighbors(v1) if not n == v0]
             if (
                 all([types[n] == v1t and phases[n] == 0 for n in v0n]) and
-                all([types[n] == v0t and phases[n] == 0 for n in v1n])):
+                all([types[n] == v0t and phases[n] == 0 for n in v1n]) and
+                all([g.edge_type(c) == EdgeType.SIMPLE for v in (v0, v1) for c in g.incident_edges(v)])):
                 i += 1
                 for v in v0n:
                     for c in g.incident_edges(v): candidates.discard(c)
@@ -138,6 +141,7 @@ def bialg(g: BaseGraph[VT,ET], matches: List[MatchBialgType[VT]]) -> RewriteOutp
     for m in matches:
         rem_verts.append(m[0])
         rem_verts.append(m[1])
+        g.scalar.add_power((len(m[2])-1) * (len(m[3])-1))
         es = [(i,j) for i in m[2] for j in m[3]]
         for e in es:
             if e in etab: etab[e][0] += 1
-- 
2.43.0


From f3719b9580ac85f293829348f04087bcef28e34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:05 +0000
Subject: [PATCH 009/151] fix: copy simplification took overlapping matches,
 giving a wrong scalar and phase

---
 pyzx/rules.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index 6f35c06..5fa8868 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -979,14 +979,17 @@ def match_copy(
     phases = g.phases()
     types = g.types()
     m: List[MatchCopyType[VT]] = []
+    touched: Set[VT] = set()
 
     while len(candidates) > 0:
         v = candidates.pop()
         if phases[v] not in (0,1) or types[v] != VertexType.Z or g.vertex_degree(v) != 1: continue
         w = list(g.neighbors(v))[0]
-        if types[w] != VertexType.Z: continue
+        if types[w] != VertexType.Z or w in touched: continue
         neigh = [n for n in g.neighbors(w) if n != v]
         m.append((v,w,phases[v],phases[w],neigh))
+        touched.add(w)
+        touched.update(neigh)
         candidates.discard(w)
         candidates.difference_update(neigh)
 
-- 
2.43.0


From 3914b19352ab536855c4a57fb28f1eb4d832ccbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:48 +0000
Subject: [PATCH 010/151] fix: lookahead extraction failed on diagrams without
 spiders left to extract

---
 pyzx/extract.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyzx/extract.py b/pyzx/extract.py
index c1de2ec..33b6d3c 100644
--- a/pyzx/extract.py
+++ b/pyzx/extract.py
@@ -1352,6 +1352,13 @@ def lookahead_extract_base(
         frontier.append(v)
         qubit_map[v] = i
 
+    if not frontier:  # The graph consists of wires only, so there is nothing to look ahead to
+        c1 = graph_to_swaps(g, up_to_perm)
+        d1 = get_optimize_value(c1, optimize_for_depth, True)
+        if best_d > d1 or best_d == -1:
+            best_c = c1
+        return best_c
+
     roots: List[Optional[LookaheadNode]] =\
         [LookaheadNode(g, Circuit(len(inputs)), frontier, qubit_map, gadgets, optimize_for_depth, hard_limit)]
 
-- 
2.43.0


From 13b40fbf0998c63d6f5f01ce76bc1f9f6a41c5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:03 +0000
Subject: [PATCH 011/151] fix: turning a matrix with a single row into CNOTs
 raised when optimising or using logarithmic blocks

---
 pyzx/linalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/linalg.py b/pyzx/linalg.py
index 994bfea..340dc3f 100644
--- a/pyzx/linalg.py
+++ b/pyzx/linalg.py
@@ -350,12 +350,12 @@ class Mat2(object):
             cn = CNOTMaker()
             blocksize = 5
             if use_log_blocksize:
-                blocksize = int(math.log2(self.rows()))
+                blocksize = max(1, int(math.log2(max(1, self.rows()))))
             self.copy().gauss(full_reduce=True,x=cn, blocksize=blocksize)
         else:
             best = 1000000
             best_cn = None
-            for size in range(1,self.rows()):
+            for size in range(1,max(2,self.rows())):
                 cn = CNOTMaker()
                 assert cn is not None
                 self.copy().gauss(full_reduce=True,x=cn, blocksize=size)
-- 
2.43.0


From db43f6563b6f833cea65046f1738781d5ac127f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:56 +0000
Subject: [PATCH 012/151] fix: Clifford normal form graph turned plain boundary
 wires next to a phase into Hadamards

---
 pyzx/simplify.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/simplify.py b/pyzx/simplify.py
index dc801da..0bb809c 100644
--- a/pyzx/simplify.py
+++ b/pyzx/simplify.py
@@ -549,7 +549,7 @@ def to_clifford_normal_form_graph(g: BaseGraph[VT,ET]) -> None:
         e = g.edge(v,i)
         if g.edge_type(e) == EdgeType.HADAMARD or g.phase(v) != 0:
             h = g.add_vertex(VertexType.Z, q, row=1, phase=g.phase(v))
-            g.add_edge((i,h),EdgeType.HADAMARD)
+            g.add_edge((i,h),g.edge_type(e))
             g.add_edge((h,v),EdgeType.SIMPLE)
             g.remove_edge(e)
             g.set_phase(v,0)
@@ -561,7 +561,7 @@ def to_clifford_normal_form_graph(g: BaseGraph[VT,ET]) -> None:
         e = g.edge(v,o)
         if g.edge_type(e) == EdgeType.HADAMARD or g.phase(v) != 0:
             h = g.add_vertex(VertexType.Z, q, row=7, phase=g.phase(v))
-            g.add_edge((h,o),EdgeType.HADAMARD)
+            g.add_edge((h,o),g.edge_type(e))
             g.add_edge((v,h),EdgeType.SIMPLE)
             g.remove_edge(e)
             g.set_phase(v,0)
-- 
2.43.0


From f3ec74c603bc2e1fb6e15e786191862ae02cc0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:05 +0000
Subject: [PATCH 013/151] fix: multigraph simplification of parallel edges and
 self-loops: scalar factor, Z-boxes next to Z-spiders, KeyError on self-loops,
 edge count

---
 pyzx/graph/multigraph.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyzx/graph/multigraph.py b/pyzx/graph/multigraph.py
index e3eaf1a..bf07687 100644
--- a/pyzx/graph/multigraph.py
+++ b/pyzx/graph/multigraph.py
@@ -161,7 +161,6 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
         for ep in edge_pairs: self.add_edge(ep, edgetype)
 
     def add_edge(self, edge_pair, edgetype=EdgeType.SIMPLE):
-        self.nedges += 1
         s,t = edge_pair
         if not t in self.graph[s]:
             e = Edge()
@@ -170,6 +169,7 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
         else:
             e = self.graph[s][t]
 
+        self.nedges -= e.s + e.h + e.w_io
         if edgetype == EdgeType.SIMPLE: e.add(s=1)
         elif edgetype == EdgeType.HADAMARD: e.add(h=1)
         else: e.add(w_io=1)
@@ -188,17 +188,18 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
                     self.scalar.add_power(-e.h)
                     e.h = 0
                 else: # apply spider and hopf to merge/cancel parallel edges
-                    if t1 == t2:
+                    if vertex_is_z_like(t1) == vertex_is_z_like(t2):
                         e.s = 1 if e.s > 0 else 0
-                        self.scalar.add_power(-2 * (e.h - (e.h % 2)))
+                        self.scalar.add_power(-(e.h - (e.h % 2)))
                         e.h = e.h % 2
                     else:
                         e.h = 1 if e.h > 0 else 0
-                        self.scalar.add_power(-2 * (e.s - (e.s % 2)))
+                        self.scalar.add_power(-(e.s - (e.s % 2)))
                         e.s = e.s % 2
             if e.is_empty():
                 del self.graph[s][t]
-                del self.graph[t][s]
+                if s != t: del self.graph[t][s]
+        self.nedges += e.s + e.h + e.w_io
 
         return (s,t, edgetype) if s <= t else (t,s,edgetype)
 
-- 
2.43.0


From 473c445077347299910a04826a9d7295f767ffa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:05 +0000
Subject: [PATCH 014/151] fix: multigraph ignored W-IO edges in degrees and
 counts, listed no edges of a single vertex and raised for unconnected ones

---
 pyzx/graph/multigraph.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyzx/graph/multigraph.py b/pyzx/graph/multigraph.py
index bf07687..6ee125a 100644
--- a/pyzx/graph/multigraph.py
+++ b/pyzx/graph/multigraph.py
@@ -209,7 +209,7 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
             # remove all edges
             for v1 in vs:
                 e = self.graph[v][v1]
-                self.nedges -= e.s + e.h
+                self.nedges -= e.s + e.h + e.w_io
                 del self.graph[v][v1]
                 if v != v1: del self.graph[v1][v]
             # remove the vertex
@@ -276,7 +276,9 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
                         for _ in range(e.s): yield (v0, v1, EdgeType.SIMPLE)
                         for _ in range(e.h): yield (v0, v1, EdgeType.HADAMARD)
                         for _ in range(e.w_io): yield (v0, v1, EdgeType.W_IO)
-        elif t != None:
+        elif t is None:
+            for v1 in self.graph[s]: yield from self.edges(s, v1)
+        elif t in self.graph[s]:
             s, t = (s, t) if s < t else (t, s)
             e = self.graph[s][t]
             for _ in range(e.s): yield (s, t, EdgeType.SIMPLE)
@@ -322,6 +324,7 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
         for e in self.graph[vertex].values():
             d += e.s
             d += e.h
+            d += e.w_io
         return d
 
     def incident_edges(self, vertex):
-- 
2.43.0


From 958723945c15504ed1d3b46a02c5a3d4c700ac6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:05 +0000
Subject: [PATCH 015/151] fix: cloning a graph dropped its grounds and shared
 vertex data (and multigraph edges) with the original

---
 pyzx/graph/graph_s.py    |  5 ++++-
 pyzx/graph/multigraph.py | 11 +++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/pyzx/graph/graph_s.py b/pyzx/graph/graph_s.py
index 902479c..f83b5cc 100644
--- a/pyzx/graph/graph_s.py
+++ b/pyzx/graph/graph_s.py
@@ -56,7 +56,8 @@ class GraphS(BaseGraph[int,Tuple[int,int]]):
         cpy._maxq = self._maxq
         cpy._rindex = self._rindex.copy()
         cpy._maxr = self._maxr
-        cpy._vdata = self._vdata.copy()
+        cpy._grounds = self._grounds.copy()
+        cpy._vdata = {v: d.copy() for v, d in self._vdata.items()}
         cpy.scalar = self.scalar.copy()
         cpy._inputs = tuple(list(self._inputs))
         cpy._outputs = tuple(list(self._outputs))
@@ -65,6 +66,8 @@ class GraphS(BaseGraph[int,Tuple[int,int]]):
         cpy.phase_master = self.phase_master
         cpy.phase_mult = self.phase_mult.copy()
         cpy.max_phase_index = self.max_phase_index
+        cpy.merge_vdata = self.merge_vdata
+        cpy.variable_types = self.variable_types.copy()
         return cpy
 
     def vindex(self): return self._vindex
diff --git a/pyzx/graph/multigraph.py b/pyzx/graph/multigraph.py
index 6ee125a..2546a59 100644
--- a/pyzx/graph/multigraph.py
+++ b/pyzx/graph/multigraph.py
@@ -83,8 +83,12 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
 
     def clone(self) -> 'Multigraph':
         cpy = Multigraph()
+        cpy._auto_simplify = self._auto_simplify
+        for v in self.graph: cpy.graph[v] = dict()
         for v, d in self.graph.items():
-            cpy.graph[v] = d.copy()
+            for v1, e in d.items():
+                if v1 < v: continue
+                cpy.graph[v][v1] = cpy.graph[v1][v] = Edge(e.s, e.h, e.w_io)
         cpy._vindex = self._vindex
         cpy.nedges = self.nedges
         cpy.ty = self.ty.copy()
@@ -93,7 +97,8 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
         cpy._maxq = self._maxq
         cpy._rindex = self._rindex.copy()
         cpy._maxr = self._maxr
-        cpy._vdata = self._vdata.copy()
+        cpy._grounds = self._grounds.copy()
+        cpy._vdata = {v: d.copy() for v, d in self._vdata.items()}
         cpy.scalar = self.scalar.copy()
         cpy._inputs = tuple(list(self._inputs))
         cpy._outputs = tuple(list(self._outputs))
@@ -102,6 +107,8 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
         cpy.phase_master = self.phase_master
         cpy.phase_mult = self.phase_mult.copy()
         cpy.max_phase_index = self.max_phase_index
+        cpy.merge_vdata = self.merge_vdata
+        cpy.variable_types = self.variable_types.copy()
         return cpy
 
     def set_auto_simplify(self, s: bool):
-- 
2.43.0


From a4b127f9905a87e0cb83cf17312f09820e5f63d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:05 +0000
Subject: [PATCH 016/151] fix: copying a graph dropped the types of its
 symbolic variables

---
 pyzx/graph/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index 7420213..cdaeaad 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -152,6 +152,7 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
         g.track_phases = self.track_phases
         g.scalar = self.scalar.copy(conjugate=adjoint)
         g.merge_vdata = self.merge_vdata
+        g.variable_types = self.variable_types.copy()
         mult:int = 1
         if adjoint:
             mult = -1
-- 
2.43.0


From f4c9201718d31f70cca6c9bcc19f84ca59a7839c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:05 +0000
Subject: [PATCH 017/151] fix: tensor product of graphs took the grounds of the
 second graph from the first, and shared its vertex data

---
 pyzx/graph/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index cdaeaad..20a91c5 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -330,8 +330,8 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
         vdata = other._vdata
         vertex_map = dict()
         for v in other.vertices():
-            w = g.add_vertex(ts[v],qs[v]+height,rs[v],phases[v],g.is_ground(v))
-            if v in vdata: g._vdata[w] = vdata[v]
+            w = g.add_vertex(ts[v],qs[v]+height,rs[v],phases[v],other.is_ground(v))
+            if v in vdata: g._vdata[w] = vdata[v].copy()
             vertex_map[v] = w
         for e in other.edges():
             s,t = other.edge_st(e)
-- 
2.43.0


From c9426fe1b78000f11ea79bbf8b84182fac4dc5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:05 +0000
Subject: [PATCH 018/151] fix: is_id accepted Hadamard wires as identities

---
 pyzx/graph/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index 20a91c5..9b5298f 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -538,6 +538,7 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
 
         for i in range(len(inputs)):
             if not self.connected(inputs[i], outputs[i]): return False
+            if self.edge_type(self.edge(inputs[i], outputs[i])) != EdgeType.SIMPLE: return False
         return True
 
     def vindex(self) -> VT:
-- 
2.43.0


From f90b825e895547f506feafc30e9ac3a68a17bdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:05 +0000
Subject: [PATCH 019/151] fix: adding a list of edges overwrote parallel edges
 between spiders instead of resolving them

---
 pyzx/graph/graph_s.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyzx/graph/graph_s.py b/pyzx/graph/graph_s.py
index f83b5cc..20d3059 100644
--- a/pyzx/graph/graph_s.py
+++ b/pyzx/graph/graph_s.py
@@ -118,7 +118,10 @@ class GraphS(BaseGraph[int,Tuple[int,int]]):
 
     def add_edges(self, edge_pairs, edgetype=EdgeType.SIMPLE):
         for s,t in edge_pairs:
-            self.nedges += 1
+            if t in self.graph[s] and vertex_is_zx_like(self.ty[s]) and vertex_is_zx_like(self.ty[t]):
+                self.add_edge((s,t), edgetype)
+                continue
+            if t not in self.graph[s]: self.nedges += 1
             self.graph[s][t] = edgetype
             self.graph[t][s] = edgetype
     
-- 
2.43.0


From 8c66c5b6fd0025e7e3af4be911428587729ab143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:05 +0000
Subject: [PATCH 020/151] fix: listing the edges between two unconnected
 vertices returned an edge

---
 pyzx/graph/graph_s.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/graph/graph_s.py b/pyzx/graph/graph_s.py
index 20d3059..3b605cc 100644
--- a/pyzx/graph/graph_s.py
+++ b/pyzx/graph/graph_s.py
@@ -225,6 +225,7 @@ class GraphS(BaseGraph[int,Tuple[int,int]]):
 
     def edges(self, s=None, t=None):
         if s is not None and t is not None:
+            if t in self.graph[s]:
                 yield (s,t) if s < t else (t,s)
         elif s is not None:
             for t in self.graph[s]:
-- 
2.43.0


From a2c69b09db506c3040caf839fee061e37f22e576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:04 +0000
Subject: [PATCH 021/151] fix: adjoint of a graph did not conjugate the labels
 of Z-boxes

---
 pyzx/graph/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index 9b5298f..151ae11 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -173,6 +173,8 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
             vtab[v] = i
             for k in self.vdata_keys(v):
                 g.set_vdata(i, k, self.vdata(v, k))
+            if adjoint and ty[v] == VertexType.Z_BOX:
+                set_z_box_label(g, i, get_z_box_label(g, i).conjugate())
         for v in self.grounds():
             g.set_ground(vtab[v], True)
 
-- 
2.43.0


From 0c7ebe0024cd6704edb3d7aa49ab3865b202f93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:04 +0000
Subject: [PATCH 022/151] fix: composing graphs raised KeyError when a wire
 joins two of the glued boundaries

---
 pyzx/graph/base.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index 151ae11..019d45b 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -274,6 +274,19 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
         if len(outputs) != len(inputs):
             raise TypeError("Outputs of first graph must match inputs of second.")
 
+        # A wire between two boundaries that are both consumed by the composition (a cup or cap)
+        # has no vertex left to attach to, so we first place an identity spider on it.
+        for graph, boundary in ((self, outputs), (other, inputs)):
+            for e in list(graph.edges()):
+                s,t = graph.edge_st(e)
+                if s in boundary and t in boundary:
+                    et = graph.edge_type(e)
+                    w = graph.add_vertex(VertexType.Z,
+                        (graph.qubit(s)+graph.qubit(t))/2, (graph.row(s)+graph.row(t))/2)
+                    graph.remove_edge(e)
+                    graph.add_edge((s,w), et)
+                    graph.add_edge((w,t), EdgeType.SIMPLE)
+
         plugs: List[Tuple[VT,VT,EdgeType]] = []
         for k in range(len(outputs)):
             o = outputs[k]
-- 
2.43.0


From 7330eb3370934f86caf24e72e29c6c2fa5cc1940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:04 +0000
Subject: [PATCH 023/151] fix: merge and subgraph_from_vertices dropped vertex
 data, merge returned the edges of the other graph

---
 pyzx/graph/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index 019d45b..6e48861 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -399,12 +399,12 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
         edges = []
         for v in other.vertices():
             w = self.add_vertex(ty[v],qs[v],rs[v],phase[v],v in grounds)
+            if v in other._vdata: self._vdata[w] = other._vdata[v].copy()
             vert_map[v] = w
         for e in other.edges():
             s,t = other.edge_st(e)
             f = (vert_map[s],vert_map[t])
-            self.add_edge(f,other.edge_type(e))
-            edges.append(e)
+            edges.append(self.add_edge(f,other.edge_type(e)))
         return (list(vert_map.values()),edges)
 
     def subgraph_from_vertices(self,verts: List[VT]) -> 'BaseGraph':
@@ -427,6 +427,7 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
         vert_map = dict()
         for v in verts:
             w = g.add_vertex(ty[v],qs[v],rs[v],phase[v],v in grounds)
+            if v in self._vdata: g._vdata[w] = self._vdata[v].copy()
             vert_map[v] = w
         for e in edges:
             s,t = self.edge_st(e)
-- 
2.43.0


From 3cfb487306d4fa99ca00d00b65af70aa6eedd55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:45 +0000
Subject: [PATCH 024/151] fix: latex and unicode forms of a scalar dropped the
 factor of its phase nodes, or its power and phase

---
 pyzx/graph/scalar.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyzx/graph/scalar.py b/pyzx/graph/scalar.py
index 5d6845c..e5855bf 100644
--- a/pyzx/graph/scalar.py
+++ b/pyzx/graph/scalar.py
@@ -131,7 +131,7 @@ class Scalar(object):
         if abs(f+1) < 0.001: #f \approx -1
             s += "-"
         elif abs(f-1) > 0.0001: #f \neq 1
-            s += str(self.floatfactor)
+            s += str(f)
         if self.power2 != 0:
             s += r"\sqrt{{2}}^{{{:d}}}".format(self.power2)
         if self.phase not in (0,1):
@@ -158,12 +158,11 @@ class Scalar(object):
             f *= -1
             phase -= 1
 
-        if abs(f+1) > 0.001 and abs(f-1) > 0.001:
-            return str(f)
-
         s = ""
         if abs(f+1) < 0.001: #f \approx -1
             s += "-"
+        elif abs(f-1) > 0.001: #f \neq 1
+            s += str(f)
         if self.power2 != 0:
             s += r"√2"
             if self.power2 < 0:
-- 
2.43.0


From 58587f8bb743463b95142b196c889d76f32422b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:08 +0000
Subject: [PATCH 025/151] fix: scalars with a complex factor could not be saved
 as JSON, unknown scalars loaded as a list

---
 pyzx/graph/scalar.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyzx/graph/scalar.py b/pyzx/graph/scalar.py
index e5855bf..7b28d28 100644
--- a/pyzx/graph/scalar.py
+++ b/pyzx/graph/scalar.py
@@ -180,19 +180,22 @@ class Scalar(object):
     def to_json(self) -> str:
         d = {"power2": self.power2, "phase": str(self.phase)}
         if abs(self.floatfactor - 1) > 0.00001:
-            d["floatfactor"] =  self.floatfactor
+            f = complex(self.floatfactor)
+            d["floatfactor"] = f.real if f.imag == 0 else str(f)
         if self.phasenodes:
             d["phasenodes"] = [str(p) for p in self.phasenodes]
         if self.is_zero:
             d["is_zero"] = self.is_zero
         if self.is_unknown:
-            d["is_unknown"] = self.is_unknown,
+            d["is_unknown"] = self.is_unknown
         return json.dumps(d)
 
     @classmethod
     def from_json(cls, s: str) -> 'Scalar':
         d = json.loads(s)
         d["phase"] = Fraction(d["phase"])
+        if isinstance(d.get("floatfactor"), str):
+            d["floatfactor"] = complex(d["floatfactor"])
         if "phasenodes" in d:
             d["phasenodes"] = [Fraction(p) for p in d["phasenodes"]]
         scalar = Scalar()
-- 
2.43.0


From 806fbf60f213117c3da8ed9ba1de3d8267f75d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:24 +0000
Subject: [PATCH 026/151] fix: the square of a Boolean variable was not reduced
 to the variable

---
 pyzx/symbolic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/symbolic.py b/pyzx/symbolic.py
index 152b888..1aea85a 100644
--- a/pyzx/symbolic.py
+++ b/pyzx/symbolic.py
@@ -114,7 +114,7 @@ class Term:
             if v not in vs: vs[v] = c
             else: vs[v] += c
             # TODO deal with fractional / symbolic powers
-            if v.is_bool and c > 1:
+            if v.is_bool and vs[v] > 1:
                 vs[v] = 1
         return Term([(v, c) for v, c in vs.items()])
 
-- 
2.43.0


From 5eb79178e5e1483f4d88be7b68e49bdf8bc6b86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:24 +0000
Subject: [PATCH 027/151] fix: reducing a symbolic phase modulo 2 changed the
 coefficients of continuous variables, dropped complex terms and kept zero
 terms

---
 pyzx/symbolic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyzx/symbolic.py b/pyzx/symbolic.py
index 1aea85a..91d1a38 100644
--- a/pyzx/symbolic.py
+++ b/pyzx/symbolic.py
@@ -227,7 +227,11 @@ class Poly:
         return self * (self ** (other - 1))
 
     def __mod__(self, other: int) -> 'Poly':
-        return Poly([(c % other, t) for c, t in self.terms if not isinstance(c, complex)])
+        # Only coefficients of integer-valued terms can be reduced: the value of a term
+        # containing a continuous variable is not an integer.
+        terms = [(c % other if not isinstance(c, complex) and all(v.is_bool for v, _ in t.vars) else c, t)
+                 for c, t in self.terms]
+        return Poly([(c, t) for c, t in terms if c != 0])
 
     def __repr__(self) -> str:
         return f'Poly({str(self)})'
-- 
2.43.0


From 3525ae80f66e00cbb17fd503712ee361a0121831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:34 +0000
Subject: [PATCH 028/151] fix: the printed form of symbolic expressions with
 negative coefficients or powers, and of zero, could not be parsed

---
 pyzx/symbolic.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyzx/symbolic.py b/pyzx/symbolic.py
index 91d1a38..c51079f 100644
--- a/pyzx/symbolic.py
+++ b/pyzx/symbolic.py
@@ -245,7 +245,7 @@ class Poly:
                 ts.append(f'{t}')
             else:
                 ts.append(f'{c}{t}')
-        return ' + '.join(ts)
+        return ' + '.join(ts) if ts else '0'
 
     def __eq__(self, other: object) -> bool:
         if isinstance(other, (int, float, Fraction)):
@@ -341,14 +341,15 @@ def new_const(coeff: Union[int, Fraction]) -> Poly:
 poly_grammar = Lark("""
     start      : "(" start ")" | term ("+" term)*
     term       : (intf | frac)? factor ("*" factor)*
-    ?factor    : intf | frac | pi | pifrac | var
+    ?factor    : intf | frac | pi | pifrac | var | pow
     var        : CNAME
+    pow        : var "^" INT
     intf       : INT
     pi         : "\\pi" | "pi"
     frac       : INT "/" INT
     pifrac     : [INT] pi "/" INT
 
-    %import common.INT
+    INT        : /-?[0-9]+/
     %import common.CNAME
     %import common.WS
     %ignore WS
@@ -372,6 +373,9 @@ class PolyTransformer(Transformer):
         v = str(items[0])
         return self._new_var(v)
 
+    def pow(self, items: List[Any]) -> Poly:
+        return items[0] ** int(items[1])
+
     def pi(self, _: List[Any]) -> Poly:
         return new_const(1)
 
-- 
2.43.0


From 0079c900d03750ce0cb5b9d2dd9e8ed2bd3d86c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:49 +0000
Subject: [PATCH 029/151] fix: the symbolic constant zero was not equal to zero

---
 pyzx/symbolic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/symbolic.py b/pyzx/symbolic.py
index c51079f..7037267 100644
--- a/pyzx/symbolic.py
+++ b/pyzx/symbolic.py
@@ -335,7 +335,7 @@ def new_var(name: str, types_dict: Union[bool, Dict[str, bool]]) -> Poly:
     return Poly([(1, Term([(Var(name, types_dict), 1)]))])
 
 def new_const(coeff: Union[int, Fraction]) -> Poly:
-    return Poly([(coeff, Term([]))])
+    return Poly([(coeff, Term([]))] if coeff != 0 else [])
 
 
 poly_grammar = Lark("""
-- 
2.43.0


From c60cb22bc0ce1cf9b65974af0b4c30feeb2b5de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:06 +0000
Subject: [PATCH 030/151] fix: parsing a symbolic term reduced its coefficient
 modulo 2 before all factors were read

---
 pyzx/symbolic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyzx/symbolic.py b/pyzx/symbolic.py
index 7037267..8a9afaa 100644
--- a/pyzx/symbolic.py
+++ b/pyzx/symbolic.py
@@ -367,7 +367,10 @@ class PolyTransformer(Transformer):
         return reduce(add, items)
 
     def term(self, items: List[Poly]) -> Poly:
-        return reduce(mul, items)
+        # Coefficients of Boolean terms are reduced modulo 2 in every product,
+        # so collect the full coefficient and the full term first.
+        coeff = reduce(mul, [p for p in items if not p.free_vars()], new_const(1))
+        return reduce(mul, [p for p in items if p.free_vars()], new_const(1)) * coeff
 
     def var(self, items: List[Any]) -> Poly:
         v = str(items[0])
-- 
2.43.0


From d315cf6b8173a2bbce152fa09bb53877cfede8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:45 +0000
Subject: [PATCH 031/151] fix: converting a zero scalar to a complex number
 raised TypeError

---
 pyzx/graph/scalar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/graph/scalar.py b/pyzx/graph/scalar.py
index 7b28d28..f01a482 100644
--- a/pyzx/graph/scalar.py
+++ b/pyzx/graph/scalar.py
@@ -110,7 +110,7 @@ class Scalar(object):
         return self.copy(conjugate=True)
 
     def to_number(self) -> complex:
-        if self.is_zero: return 0
+        if self.is_zero: return 0j
         val = cexp(self.phase)
         for node in self.phasenodes: # Node should be a Fraction
             val *= 1+cexp(node)
-- 
2.43.0


From 10264ada2d744f33cfea8920e0e648c9f49ef837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:26 +0000
Subject: [PATCH 032/151] fix: saving a graph as JSON merged vertices that
 carry the same name

---
 pyzx/graph/jsonparser.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pyzx/graph/jsonparser.py b/pyzx/graph/jsonparser.py
index e2bb638..255b0de 100644
--- a/pyzx/graph/jsonparser.py
+++ b/pyzx/graph/jsonparser.py
@@ -17,7 +17,7 @@
 import json
 import re
 from fractions import Fraction
-from typing import List, Dict, Any, Optional, Callable, Union, TYPE_CHECKING
+from typing import List, Dict, Set, Any, Optional, Callable, Union, TYPE_CHECKING
 
 from ..utils import FractionLike, EdgeType, VertexType, phase_to_s
 from .graph import Graph
@@ -185,23 +185,23 @@ def graph_to_json(g: BaseGraph[VT,ET], include_scalar: bool=True) -> str:
     wire_vs: Dict[str, Dict[str, Any]] = {}
     edges: Dict[str, Dict[str, str]] = {}
     names: Dict[VT, str] = {}
-    freenamesv = ["v"+str(i) for i in range(g.num_vertices()+g.num_edges())]
-    freenamesb = ["b"+str(i) for i in range(g.num_vertices())]
+    used: Set[str] = set()
+    # Names stored on vertices are kept, but every name can be used only once
+    # (composing graphs that were loaded from JSON gives several vertices the same name).
+    taken = set(g.vdata(v, 'name') for v in g.vertices())
+    freenamesv = [n for n in ("v"+str(i) for i in range(2*g.num_vertices()+g.num_edges())) if n not in taken]
+    freenamesb = [n for n in ("b"+str(i) for i in range(2*g.num_vertices())) if n not in taken]
     inputs = g.inputs()
     outputs = g.outputs()
     for v in g.vertices():
         t = g.type(v)
         coord = [round(g.row(v),3),round(-g.qubit(v),3)]
         name = g.vdata(v, 'name')
-        if not name:
+        if not name or name in used:
             if t == VertexType.BOUNDARY: name = freenamesb.pop(0)
             else: name = freenamesv.pop(0)
-        else:
-            try:
-                freenamesb.remove(name) if t==VertexType.BOUNDARY else freenamesv.remove(name)
-            except:
-                pass
 
+        used.add(name)
         names[v] = name
         if t == VertexType.BOUNDARY:
             wire_vs[name] = {"annotation":{"boundary":True,"coord":coord}}
-- 
2.43.0


From 106cc07b71a1e9e23a2c5bbfb199e2867068f27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:26 +0000
Subject: [PATCH 033/151] fix: graphs with Z-boxes with a plain number as
 label, or with annotations that look like numbers, did not survive JSON

---
 pyzx/graph/jsonparser.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pyzx/graph/jsonparser.py b/pyzx/graph/jsonparser.py
index 255b0de..5b042d7 100644
--- a/pyzx/graph/jsonparser.py
+++ b/pyzx/graph/jsonparser.py
@@ -112,8 +112,8 @@ def json_to_graph(js: str, backend:Optional[str]=None) -> BaseGraph:
         for key, value in attr['annotation'].items():
             if key == 'coord':
                 continue
-            elif key == 'label':
-                if type(value) != complex:
+            elif key == 'label' and g.type(v) == VertexType.Z_BOX:
+                if isinstance(value, str):
                     value = string_to_phase(value,g)
             g.set_vdata(v, key, value)
 
@@ -230,7 +230,7 @@ def graph_to_json(g: BaseGraph[VT,ET], include_scalar: bool=True) -> str:
             elif t==VertexType.Z_BOX:
                 node_vs[name]["data"]["type"] = "Z_box"
                 zbox_label = g.vdata(v, 'label', 1)
-                if type(zbox_label) == Fraction:
+                if isinstance(zbox_label, (Fraction, Poly)):
                     zbox_label = phase_to_s(zbox_label)
                 node_vs[name]["annotation"]["label"] = zbox_label
             else: raise Exception("Unkown vertex type "+ str(t))
@@ -336,11 +336,15 @@ class ComplexDecoder(json.JSONDecoder):
         json.JSONDecoder.__init__(self, object_hook=self.object_hook, *args, **kwargs)
 
     def object_hook(self, dct):
-        for k, v in dct.items():
-            if isinstance(v, str):
-                try:
-                    dct[k] = complex(v)
-                except ValueError:
-                    pass
+        # Complex numbers only occur as annotations of vertices. Other strings that happen
+        # to read as a number must stay strings.
+        annotation = dct.get('annotation')
+        if isinstance(annotation, dict):
+            for k, v in annotation.items():
+                if isinstance(v, str):
+                    try:
+                        if str(complex(v)) == v: annotation[k] = complex(v)
+                    except ValueError:
+                        pass
         return dct
 
-- 
2.43.0


From 229fdc45f035809bf3884974eebf78ba6b99bb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:26 +0000
Subject: [PATCH 034/151] fix: graphs with phases with large denominators could
 not be loaded from their JSON

---
 pyzx/graph/jsonparser.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyzx/graph/jsonparser.py b/pyzx/graph/jsonparser.py
index 5b042d7..e3a5c50 100644
--- a/pyzx/graph/jsonparser.py
+++ b/pyzx/graph/jsonparser.py
@@ -70,6 +70,12 @@ def string_to_phase(string: str, g: Union[BaseGraph,'GraphDiff']) -> Union[Fract
         except Exception as e:
             raise ValueError(e)
 
+def phase_to_string(phase: FractionLike) -> str:
+    """The inverse of `string_to_phase`. In contrast to `phase_to_s`, it never rounds the phase."""
+    if isinstance(phase, Fraction) and phase.denominator > 256:
+        return "{:d}\u03c0/{:d}".format(phase.numerator, phase.denominator)
+    return phase_to_s(phase)
+
 def json_to_graph(js: str, backend:Optional[str]=None) -> BaseGraph:
     """Converts the json representation of a .qgraph Quantomatic graph into
     a pyzx graph."""
@@ -231,10 +237,10 @@ def graph_to_json(g: BaseGraph[VT,ET], include_scalar: bool=True) -> str:
                 node_vs[name]["data"]["type"] = "Z_box"
                 zbox_label = g.vdata(v, 'label', 1)
                 if isinstance(zbox_label, (Fraction, Poly)):
-                    zbox_label = phase_to_s(zbox_label)
+                    zbox_label = phase_to_string(zbox_label)
                 node_vs[name]["annotation"]["label"] = zbox_label
             else: raise Exception("Unkown vertex type "+ str(t))
-            phase = phase_to_s(g.phase(v))
+            phase = phase_to_string(g.phase(v))
             if phase: node_vs[name]["data"]["value"] = phase
             if g.is_ground(v):
                 node_vs[name]["data"]["ground"] = True
-- 
2.43.0


From 49538316ea575303eec292bbdb71a706800c90d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:44 +0000
Subject: [PATCH 035/151] fix: scalars with symbolic phases could not be loaded
 from JSON

---
 pyzx/graph/jsonparser.py |  2 +-
 pyzx/graph/scalar.py     | 19 ++++++++++++++-----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/pyzx/graph/jsonparser.py b/pyzx/graph/jsonparser.py
index e3a5c50..52cc87e 100644
--- a/pyzx/graph/jsonparser.py
+++ b/pyzx/graph/jsonparser.py
@@ -178,7 +178,7 @@ def json_to_graph(js: str, backend:Optional[str]=None) -> BaseGraph:
         edges[e] = amount
 
     if "scalar" in j:
-        g.scalar = Scalar.from_json(j["scalar"])
+        g.scalar = Scalar.from_json(j["scalar"], g.variable_types)
     g.add_edge_table(edges)
 
     return g
diff --git a/pyzx/graph/scalar.py b/pyzx/graph/scalar.py
index f01a482..537bc19 100644
--- a/pyzx/graph/scalar.py
+++ b/pyzx/graph/scalar.py
@@ -20,11 +20,11 @@ import math
 import cmath
 import copy
 from fractions import Fraction
-from typing import List
+from typing import Dict, List, Optional
 import json
 
 from ..utils import FloatInt, FractionLike
-from ..symbolic import Poly
+from ..symbolic import Poly, new_var, parse
 
 __all__ = ['Scalar']
 
@@ -191,13 +191,22 @@ class Scalar(object):
         return json.dumps(d)
 
     @classmethod
-    def from_json(cls, s: str) -> 'Scalar':
+    def from_json(cls, s: str, variable_types: Optional[Dict[str,bool]]=None) -> 'Scalar':
+        types: Dict[str,bool] = variable_types if variable_types is not None else {}
+        def _new_var(name: str) -> Poly:
+            types.setdefault(name, False) # Unknown variables are taken to be continuous
+            return new_var(name, types)
+        def to_phase(p: str) -> FractionLike:
+            try:
+                return Fraction(p)
+            except ValueError:
+                return parse(p, _new_var)
         d = json.loads(s)
-        d["phase"] = Fraction(d["phase"])
+        d["phase"] = to_phase(d["phase"])
         if isinstance(d.get("floatfactor"), str):
             d["floatfactor"] = complex(d["floatfactor"])
         if "phasenodes" in d:
-            d["phasenodes"] = [Fraction(p) for p in d["phasenodes"]]
+            d["phasenodes"] = [to_phase(p) for p in d["phasenodes"]]
         scalar = Scalar()
         scalar.__dict__.update(d)
         return scalar
-- 
2.43.0


From ae9f10fb09db6a3f42d24e4a19b34fe4b2e6191a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:23 +0000
Subject: [PATCH 036/151] fix: graph differences ignored the data of new
 vertices, shared vertex data between graphs and could set it to None

---
 pyzx/graph/diff.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyzx/graph/diff.py b/pyzx/graph/diff.py
index 66f2e64..3a3b487 100644
--- a/pyzx/graph/diff.py
+++ b/pyzx/graph/diff.py
@@ -71,7 +71,7 @@ class GraphDiff(Generic[VT, ET]):
 				if g1.phase(v) != g2.phase(v):
 					self.changed_phases[v] = g2.phase(v)
 				if g1._vdata.get(v, None) != g2._vdata.get(v, None):
-					self.changed_vdata[v] = g2._vdata.get(v, None)
+					self.changed_vdata[v] = dict(g2._vdata.get(v, {}))
 				pos1 = g1.qubit(v), g1.row(v)
 				pos2 = g2.qubit(v), g2.row(v)
 				if pos1 != pos2:
@@ -81,6 +81,8 @@ class GraphDiff(Generic[VT, ET]):
 					self.changed_vertex_types[v] = g2.type(v)
 				if g2.phase(v) != 0:
 					self.changed_phases[v] = g2.phase(v)
+				if g2._vdata.get(v):
+					self.changed_vdata[v] = dict(g2._vdata[v])
 				pos2 = g2.qubit(v), g2.row(v)
 				self.changed_pos[v] = pos2
 
@@ -106,7 +108,7 @@ class GraphDiff(Generic[VT, ET]):
 			if v in self.changed_phases:
 				g.set_phase(v,self.changed_phases[v])
 			if v in self.changed_vdata:
-				g._vdata[v] = self.changed_vdata[v]
+				g._vdata[v] = dict(self.changed_vdata[v])
 		for st, ty in self.new_edges:
 			g.add_edge(st,ty)
 
@@ -124,7 +126,7 @@ class GraphDiff(Generic[VT, ET]):
 
 		for v in self.changed_vdata:
 			if v in self.new_verts: continue
-			g._vdata[v] = self.changed_vdata[v]
+			g._vdata[v] = dict(self.changed_vdata[v])
 
 		for e in self.changed_edge_types:
 			g.set_edge_type(e,self.changed_edge_types[e])
-- 
2.43.0


From 083e7a515b99090425ba3d5a65a6508f1ba0b24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:13 +0000
Subject: [PATCH 037/151] fix: the JSON form of graph differences lost variable
 types, precision of phases, and could not store fractional labels

---
 pyzx/graph/diff.py       | 16 +++++++++++-----
 pyzx/graph/jsonparser.py | 10 +++++-----
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/pyzx/graph/diff.py b/pyzx/graph/diff.py
index 3a3b487..139c55f 100644
--- a/pyzx/graph/diff.py
+++ b/pyzx/graph/diff.py
@@ -17,12 +17,14 @@
 import copy
 import json
 from collections import Counter
+from fractions import Fraction
 from typing import Any, Callable, Generic, Optional, List, Dict, Tuple
 
-from ..utils import VertexType, EdgeType, FractionLike, FloatInt, phase_to_s
+from ..utils import VertexType, EdgeType, FractionLike, FloatInt
+from ..symbolic import Poly
 from .base import BaseGraph, VT, ET
 from .graph_s import GraphS
-from .jsonparser import ComplexDecoder, ComplexEncoder, string_to_phase
+from .jsonparser import ComplexDecoder, ComplexEncoder, phase_to_string, string_to_phase
 
 class GraphDiff(Generic[VT, ET]):
 	removed_verts: List[VT]
@@ -137,7 +139,9 @@ class GraphDiff(Generic[VT, ET]):
 		changed_edge_types_str_dict = {}
 		for key, value in self.changed_edge_types.items():
 			changed_edge_types_str_dict[f"{key[0]},{key[1]}"] = value # type: ignore
-		changed_phases_str = {k: phase_to_s(v) for k, v in self.changed_phases.items()}
+		changed_phases_str = {k: phase_to_string(v) for k, v in self.changed_phases.items()}
+		changed_vdata = {v: {k: {"phase": phase_to_string(x)} if isinstance(x, (Fraction, Poly)) else x
+			for k, x in data.items()} for v, data in self.changed_vdata.items()}
 		return json.dumps({
 			"removed_verts": self.removed_verts,
 			"new_verts": self.new_verts,
@@ -147,7 +151,7 @@ class GraphDiff(Generic[VT, ET]):
 			"changed_edge_types": changed_edge_types_str_dict,
 			"changed_phases": changed_phases_str,
 			"changed_pos": self.changed_pos,
-			"changed_vdata": self.changed_vdata,
+			"changed_vdata": changed_vdata,
 			"variable_types": self.variable_types
 		},  cls=ComplexEncoder)
 
@@ -155,6 +159,7 @@ class GraphDiff(Generic[VT, ET]):
 	def from_json(json_str: str) -> "GraphDiff":
 		d = json.loads(json_str, cls=ComplexDecoder)
 		gd = GraphDiff(GraphS(),GraphS())
+		gd.variable_types = d.get("variable_types", {})
 		gd.removed_verts = d["removed_verts"]
 		gd.new_verts = d["new_verts"]
 		gd.removed_edges = list(map(tuple, d["removed_edges"])) # type: ignore
@@ -163,7 +168,8 @@ class GraphDiff(Generic[VT, ET]):
 		gd.changed_edge_types = map_dict_keys(d["changed_edge_types"], lambda x: tuple(map(int, x.split(","))))
 		gd.changed_phases = {int(k): string_to_phase(v,gd) for k, v in d["changed_phases"].items()}
 		gd.changed_pos = map_dict_keys(d["changed_pos"], int)
-		gd.changed_vdata = map_dict_keys(d["changed_vdata"], int)
+		gd.changed_vdata = {int(v): {k: string_to_phase(x["phase"],gd) if isinstance(x, dict) and set(x) == {"phase"} else x
+			for k, x in data.items()} for v, data in d["changed_vdata"].items()}
 		return gd
 
 def map_dict_keys(d: Dict[str, Any], f: Callable[[str], Any]) -> Dict[Any, Any]:
diff --git a/pyzx/graph/jsonparser.py b/pyzx/graph/jsonparser.py
index 52cc87e..38d970b 100644
--- a/pyzx/graph/jsonparser.py
+++ b/pyzx/graph/jsonparser.py
@@ -342,14 +342,14 @@ class ComplexDecoder(json.JSONDecoder):
         json.JSONDecoder.__init__(self, object_hook=self.object_hook, *args, **kwargs)
 
     def object_hook(self, dct):
-        # Complex numbers only occur as annotations of vertices. Other strings that happen
+        # Complex numbers only occur as data of vertices. Other strings that happen
         # to read as a number must stay strings.
-        annotation = dct.get('annotation')
-        if isinstance(annotation, dict):
-            for k, v in annotation.items():
+        for data in (dct.get('annotation'), *dict(dct.get('changed_vdata') or {}).values()):
+            if not isinstance(data, dict): continue
+            for k, v in data.items():
                 if isinstance(v, str):
                     try:
-                        if str(complex(v)) == v: annotation[k] = complex(v)
+                        if str(complex(v)) == v: data[k] = complex(v)
                     except ValueError:
                         pass
         return dct
-- 
2.43.0


From 2a0ff9f1d456b990c7ac11ce450dec097ecf77b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:53 +0000
Subject: [PATCH 038/151] fix: symbolic phases with a variable named e were
 read as numbers in scientific notation

---
 pyzx/graph/jsonparser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzx/graph/jsonparser.py b/pyzx/graph/jsonparser.py
index 38d970b..7ab184a 100644
--- a/pyzx/graph/jsonparser.py
+++ b/pyzx/graph/jsonparser.py
@@ -50,7 +50,8 @@ def string_to_phase(string: str, g: Union[BaseGraph,'GraphDiff']) -> Union[Fract
         if s == '': return Fraction(1)
         if s == '-': return Fraction(-1)
         if '.' in s or 'e' in s:
-            return Fraction(float(s))
+            # Keep the spaces: '3e + 1' is a symbolic expression
+            return Fraction(float(re.sub(r'\\?(pi|\u03c0)', '', string.lower())))
         elif '/' in s:
             a, b = s.split("/", 2)
             if not a:
-- 
2.43.0


From 063b4fc78dca2f4e7f6d0c036d5795d7c2abed1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:20 +0000
Subject: [PATCH 039/151] fix: parity phase gates on one qubit could not be
 written as QASM, qc or Quipper

---
 pyzx/circuit/gates.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index 1cf47da..c266193 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -226,7 +226,7 @@ class Gate(object):
         n = self.quipper_name
         if n == 'undefined':
             bg = self.to_basic_gates()
-            if len(bg) == 1:
+            if len(bg) == 1 and bg[0] is self:
                 raise TypeError("Gate {} doesn't have a Quipper description".format(str(self)))
             return "\n".join(g.to_quipper() for g in bg)
         s = 'QGate["{}"]{}({!s})'.format(n,
@@ -241,7 +241,7 @@ class Gate(object):
         n = self.qasm_name
         if n == 'undefined':
             bg = self.to_basic_gates()
-            if len(bg) == 1:
+            if len(bg) == 1 and bg[0] is self:
                 raise TypeError("Gate {} doesn't have a QASM description".format(str(self)))
             return "\n".join(g.to_qasm() for g in bg)
         if hasattr(self, "adjoint") and self.adjoint:
@@ -269,7 +269,7 @@ class Gate(object):
                     raise TypeError("Gate {} doesn't have a .qc description".format(str(self)))
             else:
                 bg = self.to_basic_gates()
-                if len(bg) == 1:
+                if len(bg) == 1 and bg[0] is self:
                     raise TypeError("Gate {} doesn't have a .qc description".format(str(self)))
             return "\n".join(g.to_qc() for g in bg)
         args = []
-- 
2.43.0


From 2eaa47691419425cefccad84778f75e6d4d9a92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:34 +0000
Subject: [PATCH 040/151] fix: QASM programs using a gate whose name ends in
 'gate' could not be read

---
 pyzx/circuit/qasmparser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyzx/circuit/qasmparser.py b/pyzx/circuit/qasmparser.py
index a92341e..41c6e54 100644
--- a/pyzx/circuit/qasmparser.py
+++ b/pyzx/circuit/qasmparser.py
@@ -67,8 +67,9 @@ class QASMParser(object):
         data = "\n".join(r)
         # Strip the custom command definitions from the normal commands
         while True:
-            i = data.find("gate ")
-            if i == -1: break
+            match = re.search(r"\bgate\s", data)
+            if match is None: break
+            i = match.start()
             j = data.find("}", i)
             self.parse_custom_gate(data[i:j+1])
             data = data[:i] + data[j+1:]
-- 
2.43.0


From ea4f04ba53e4e10f7030ed60d768b3226b51b530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:34 +0000
Subject: [PATCH 041/151] fix: QASM statements on the line of the include
 statement were dropped

---
 pyzx/circuit/qasmparser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzx/circuit/qasmparser.py b/pyzx/circuit/qasmparser.py
index 41c6e54..03b2b1b 100644
--- a/pyzx/circuit/qasmparser.py
+++ b/pyzx/circuit/qasmparser.py
@@ -60,7 +60,8 @@ class QASMParser(object):
 
         if self.qasm_version == 2 and r[0].startswith('include "qelib1.inc";') or \
                 self.qasm_version == 3 and r[0].startswith('include "stdgates.inc";'):
-            r.pop(0)
+            # Keep what follows the include statement on the same line
+            r[0] = r[0].split(";", 1)[1].strip()
         elif strict:
             raise TypeError("File is not importing standard library")
 
-- 
2.43.0


From 14bd9b47efe28dbf7cac96096e5ead429d11b69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:34 +0000
Subject: [PATCH 042/151] fix: the QASM parser kept the language version of the
 previous program

---
 pyzx/circuit/qasmparser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/circuit/qasmparser.py b/pyzx/circuit/qasmparser.py
index 03b2b1b..50c6185 100644
--- a/pyzx/circuit/qasmparser.py
+++ b/pyzx/circuit/qasmparser.py
@@ -37,6 +37,7 @@ class QASMParser(object):
         self.circuit: Optional[Circuit] = None
 
     def parse(self, s: str, strict:bool=True) -> Circuit:
+        self.qasm_version = settings.default_qasm_version
         self.gates = []
         self.custom_gates = {}
         self.registers = {}
-- 
2.43.0


From 88dde0191e383c6bed7df008d06d93ece4ebe243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:35 +0000
Subject: [PATCH 043/151] fix: QASM qubit indices beyond the size of a register
 were read as qubits of other registers

---
 pyzx/circuit/qasmparser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzx/circuit/qasmparser.py b/pyzx/circuit/qasmparser.py
index 50c6185..41dcecc 100644
--- a/pyzx/circuit/qasmparser.py
+++ b/pyzx/circuit/qasmparser.py
@@ -148,6 +148,7 @@ class QASMParser(object):
             raise TypeError("Unsupported operation {}".format(c))
         if name == "qreg":
             regname, sizep = args[0].split("[",1)
+            if regname in registers: raise TypeError("Duplicate register {}".format(regname))
             size = int(sizep[:-1])
             registers[regname] = (self.qubit_count, size)
             self.qubit_count += size
@@ -160,6 +161,8 @@ class QASMParser(object):
                 regname, valp = a.split("[",1)
                 val = int(valp[:-1])
                 if regname not in registers: raise TypeError("Invalid register {}".format(regname))
+                if not 0 <= val < registers[regname][1]:
+                    raise TypeError("Qubit index out of range: {}".format(c))
                 qubit_values.append([registers[regname][0]+val])
             else:
                 if is_range:
-- 
2.43.0


From 3d264a6d6f973aad00526105ff69db9bc9a878a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:35 +0000
Subject: [PATCH 044/151] fix: surplus qubit arguments of QASM gates, and
 parameters of gates without parameters, were ignored

---
 pyzx/circuit/qasmparser.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/pyzx/circuit/qasmparser.py b/pyzx/circuit/qasmparser.py
index 41dcecc..1e4ca9a 100644
--- a/pyzx/circuit/qasmparser.py
+++ b/pyzx/circuit/qasmparser.py
@@ -181,46 +181,46 @@ class QASMParser(object):
             argset = [q[j] for q in qubit_values]
             if name in self.custom_gates:
                 circ = self.custom_gates[name]
-                if len(argset) != circ.qubits:
+                if len(argset) != circ.qubits or len(phases) != 0:
                     raise TypeError("Argument amount does not match gate spec: {}".format(c))
                 for g in circ.gates:
                     gates.append(g.reposition(argset))
             elif name in ('x', 'y', 'z', 's', 't', 'h', 'sx'):
-                if len(phases) != 0: raise TypeError("Invalid specification {}".format(c))
+                if len(argset) != 1 or len(phases) != 0: raise TypeError("Invalid specification {}".format(c))
                 g = qasm_gate_table[name](argset[0])  # type: ignore # mypy can't handle Gate subclasses with different number of parameters
                 gates.append(g)
             elif name in ('sdg', 'tdg', 'sxdg'):
-                if len(phases) != 0: raise TypeError("Invalid specification {}".format(c))
+                if len(argset) != 1 or len(phases) != 0: raise TypeError("Invalid specification {}".format(c))
                 g = qasm_gate_table[name](argset[0],adjoint=True)  # type: ignore
                 gates.append(g)
             elif name in ('rx', 'ry', 'rz', 'p', 'u1'):
-                if len(phases) != 1: raise TypeError("Invalid specification {}".format(c))
+                if len(argset) != 1 or len(phases) != 1: raise TypeError("Invalid specification {}".format(c))
                 g = qasm_gate_table[name](argset[0],phase=phases[0])  # type: ignore
                 gates.append(g)
             elif name == 'u2':
-                if len(phases) != 2: raise TypeError("Invalid specification {}".format(c))
+                if len(argset) != 1 or len(phases) != 2: raise TypeError("Invalid specification {}".format(c))
                 gates.append(qasm_gate_table[name](argset[0], phases[0], phases[1]))  # type: ignore
             elif name in ('u3', 'u', 'U'):
-                if len(phases) != 3: raise TypeError("Invalid specification {}".format(c))
+                if len(argset) != 1 or len(phases) != 3: raise TypeError("Invalid specification {}".format(c))
                 gates.append(qasm_gate_table[name](argset[0], phases[0], phases[1], phases[2]))  # type: ignore
             elif name in ('cx', 'CX', 'cy', 'cz', 'ch', 'csx', 'swap'):
-                if len(phases) != 0: raise TypeError("Invalid specification {}".format(c))
+                if len(argset) != 2 or len(phases) != 0: raise TypeError("Invalid specification {}".format(c))
                 g = qasm_gate_table[name](control=argset[0],target=argset[1])  # type: ignore
                 gates.append(g)
             elif name in ('crx', 'cry', 'crz', 'cp', 'cphase', 'cu1', 'rxx', 'rzz'):
-                if len(phases) != 1: raise TypeError("Invalid specification {}".format(c))
+                if len(argset) != 2 or len(phases) != 1: raise TypeError("Invalid specification {}".format(c))
                 g = qasm_gate_table[name](argset[0],argset[1],phase=phases[0])  # type: ignore
                 gates.append(g)
             elif name in ('ccx', 'ccz', 'cswap'):
-                if len(phases) != 0: raise TypeError("Invalid specification {}".format(c))
+                if len(argset) != 3 or len(phases) != 0: raise TypeError("Invalid specification {}".format(c))
                 g = qasm_gate_table[name](ctrl1=argset[0],ctrl2=argset[1],target=argset[2])  # type: ignore
                 gates.append(g)
             elif name == 'cu3':
-                if len(phases) != 3: raise TypeError("Invalid specification {}".format(c))
+                if len(argset) != 2 or len(phases) != 3: raise TypeError("Invalid specification {}".format(c))
                 g = qasm_gate_table[name](control=argset[0],target=argset[1],theta=phases[0],phi=phases[1],rho=phases[2])  # type: ignore
                 gates.append(g)
             elif name == 'cu':
-                if len(phases) != 4: raise TypeError("Invalid specification {}".format(c))
+                if len(argset) != 2 or len(phases) != 4: raise TypeError("Invalid specification {}".format(c))
                 g = qasm_gate_table[name](control=argset[0],target=argset[1],theta=phases[0],phi=phases[1],rho=phases[2],gamma=phases[3])  # type: ignore
                 gates.append(g)
             else:
-- 
2.43.0


From 90b3d7681b7e99bf8724cb5aaa89cce80787e4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:35 +0000
Subject: [PATCH 045/151] fix: QASM phases such as pi/2*3, 2*3*pi, pi*pi or
 pi-1 were silently read as other numbers

---
 pyzx/circuit/qasmparser.py | 41 ++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/pyzx/circuit/qasmparser.py b/pyzx/circuit/qasmparser.py
index 1e4ca9a..86bf475 100644
--- a/pyzx/circuit/qasmparser.py
+++ b/pyzx/circuit/qasmparser.py
@@ -232,23 +232,30 @@ class QASMParser(object):
             phase = float(val)/math.pi
         except ValueError:
             if val.find('pi') == -1: raise TypeError("Invalid specification {}".format(val))
-            try:
-                val = val.replace('pi', '')
-                val = val.replace('*','')
-                if val.find('/') != -1:
-                    n, d = val.split('/',1)
-                    n = n.strip()
-                    if not n: n = 1
-                    elif n == '-': n = -1
-                    else: n = int(n)
-                    d = int(d.strip())
-                    phase = Fraction(n,d)
-                else:
-                    val = val.strip()
-                    if not val: phase = 1
-                    elif val == '-': phase = -1
-                    else: phase = float(val)
-            except: raise TypeError("Invalid specification {}".format(val))
+            # A product or quotient of numbers and pi, such as -3*pi/4, that is linear in pi
+            coefficient = Fraction(1)
+            pi_power = 0
+            op = '*'
+            factor = re.compile(r"\s*(-?)\s*(?:(pi\b)|(\d+\.?\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?))\s*")
+            pos = 0
+            while True:
+                match = factor.match(val, pos)
+                if match is None: raise TypeError("Invalid specification {}".format(val))
+                value = Fraction(match.group(3) or 1) * (-1 if match.group(1) else 1)
+                if op == '/' and value == 0: raise TypeError("Invalid specification {}".format(val))
+                coefficient = coefficient*value if op == '*' else coefficient/value
+                if match.group(2): pi_power += 1 if op == '*' else -1
+                pos = match.end()
+                if pos == len(val): break
+                if val[pos] in '*/':
+                    op = val[pos]
+                    pos += 1
+                elif op == '*' and match.group(3) and val.startswith('pi', pos): # Things like 2pi
+                    op = '*'
+                else: raise TypeError("Invalid specification {}".format(val))
+            if pi_power == 1: phase = coefficient
+            elif pi_power == 0: phase = float(coefficient)/math.pi
+            else: raise TypeError("Invalid specification {}".format(val))
         phase = Fraction(phase).limit_denominator(100000000)
         return phase
 
-- 
2.43.0


From 7c2be001e8be48cdc646d38d056fadee11f58635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:35 +0000
Subject: [PATCH 046/151] fix: Y gates written in the .qc format, and indented
 comments, could not be read

---
 pyzx/circuit/qcparser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/circuit/qcparser.py b/pyzx/circuit/qcparser.py
index adf82d3..04b3216 100644
--- a/pyzx/circuit/qcparser.py
+++ b/pyzx/circuit/qcparser.py
@@ -39,9 +39,8 @@ def parse_qc(data: str) -> Circuit:
     qcount = len(labels)
 
     for l in data[data.find("BEGIN")+6:data.find("END")].splitlines():
-        if l.startswith('#'): continue
         l = l.strip()
-        if not l: continue
+        if not l or l.startswith('#'): continue
         try: gname, targetstr = l.split(' ',1)
         except ValueError:
             raise ValueError("Couldn't parse line {}".format(l))
@@ -51,6 +50,7 @@ def parse_qc(data: str) -> Circuit:
             t = targets[0]
             if gname in ('tof', 't1', 'not', 'x'): gates.append(NOT(t))
             elif gname == 'z': gates.append(Z(t))
+            elif gname == 'y': gates.append(Y(t))
             elif gname in ('s', 'p'): gates.append(S(t))
             elif gname in ('s*', 'p*'): gates.append(S(t,adjoint=True))
             elif gname == 't': gates.append(T(t))
-- 
2.43.0


From 29b54581da84e754dbd82360011a65ee67872718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:35 +0000
Subject: [PATCH 047/151] fix: adjoint gates without a .qc name were written as
 'undefined*'

---
 pyzx/circuit/gates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index c266193..ac778a1 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -260,7 +260,7 @@ class Gate(object):
 
     def to_qc(self) -> str:
         n = self.qc_name
-        if hasattr(self, "adjoint") and self.adjoint:
+        if n != 'undefined' and hasattr(self, "adjoint") and self.adjoint:
             n += "*"
         if n == 'undefined':
             if isinstance(self, (ZPhase, XPhase)):
-- 
2.43.0


From eae78b1e573ff866f60dbcc69224606077e0ebd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:35 +0000
Subject: [PATCH 048/151] fix: Y, Y rotations and SX did not survive the
 Quipper format (the phase was lost or the text unreadable)

---
 pyzx/circuit/gates.py         | 7 ++++++-
 pyzx/circuit/quipperparser.py | 5 ++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index ac778a1..7b8aa79 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -451,6 +451,9 @@ class SX(XPhase):
         super().__init__(target, Fraction(1,2)*(-1 if adjoint else 1))
         self.adjoint = adjoint
 
+    def to_quipper(self):
+        return XPhase(self.target, self.phase).to_quipper()
+
 class CSX(Gate):
     name = 'CSX'
     qasm_name = 'csx'
@@ -489,7 +492,9 @@ class YPhase(Gate):
             return True
         return False
 
-    def __str__(self) -> str:
+    def to_quipper(self):
+        if not self.print_phase:
+            return super().to_quipper()
         return 'QRot["exp(-i%Y)",{!s}]({!s})'.format(math.pi*self.phase/2,self.target)
 
     def to_basic_gates(self):
diff --git a/pyzx/circuit/quipperparser.py b/pyzx/circuit/quipperparser.py
index 348e47c..31794af 100644
--- a/pyzx/circuit/quipperparser.py
+++ b/pyzx/circuit/quipperparser.py
@@ -54,6 +54,8 @@ def parse_quipper_block(lines: List[str]) -> Circuit:
                 gtype = "ZPhase"
             elif gate[i+4:i+8] == '-i%X':
                 gtype = "XPhase"
+            elif gate[i+4:i+8] == '-i%Y':
+                gtype = "YPhase"
             else:
                 raise TypeError("Unsupported expression: " + gate) 
             val = gate[gate.find(',')+1: gate.find(']')]
@@ -78,7 +80,8 @@ def parse_quipper_block(lines: List[str]) -> Circuit:
         adjoint = g.find("*")!=-1
         if len(l) == 1 or (len(l) == 2 and l[1].find("nocontrol") != -1):  # no controls
             if gname == "H": c.add_gate("HAD", t)
-            elif gname == "not": c.add_gate("NOT", t)
+            elif gname in ("not", "X"): c.add_gate("NOT", t)
+            elif gname == "Y": c.add_gate("Y", t)
             elif gname == "Z": c.add_gate("Z", t)
             elif gname == "S": c.add_gate("S", t, adjoint=adjoint)
             elif gname == "T": c.add_gate("T", t, adjoint=adjoint)
-- 
2.43.0


From 1ec1810e81065418e9ef9f82085b250d7f3afbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:35 +0000
Subject: [PATCH 049/151] fix: XCX was written as a controlled X in the Quipper
 format, and controlled X could not be read

---
 pyzx/circuit/gates.py         | 2 +-
 pyzx/circuit/quipperparser.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index 7b8aa79..2f2be40 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -629,7 +629,7 @@ class XCX(CZ):
     name = 'XCX'
     qasm_name = 'undefined'
     qc_name = 'undefined'
-    quipper_name = 'X'
+    quipper_name = 'undefined'
     def to_graph(self, g, q_mapper, _c_mapper):
         r = max(q_mapper.next_row(self.target), q_mapper.next_row(self.control))
         t = self.graph_add_node(g, q_mapper, VertexType.X, self.target, r)
diff --git a/pyzx/circuit/quipperparser.py b/pyzx/circuit/quipperparser.py
index 31794af..04fdd10 100644
--- a/pyzx/circuit/quipperparser.py
+++ b/pyzx/circuit/quipperparser.py
@@ -113,7 +113,7 @@ def parse_quipper_block(lines: List[str]) -> Circuit:
         ctrl = int(ctrls[1:])
         if gname == "not": c.add_gate("CNOT", ctrl, t)
         elif gname == "Z": c.add_gate("CZ", ctrl, t)
-        elif gname == "X": c.add_gate("CX", ctrl, t)
+        elif gname == "X": c.add_gate("CNOT", ctrl, t)
         else:
             raise TypeError("Unsupported controlled gate: " + gname)
     return c
-- 
2.43.0


From bb88864849d683fa9c4c941c7ad449918eabdc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:35 +0000
Subject: [PATCH 050/151] fix: QASM files without extension were taken for .qc
 files because of the include of qelib1.inc

---
 pyzx/circuit/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/circuit/__init__.py b/pyzx/circuit/__init__.py
index 1d349bf..e688f78 100644
--- a/pyzx/circuit/__init__.py
+++ b/pyzx/circuit/__init__.py
@@ -538,10 +538,10 @@ def determine_file_type(circuitfile: str) -> str:
         f.close()
         if data.startswith('Inputs:'):
             return "quipper"
-        if data.find('.v') != -1 or data.find('.i') != -1 or data.find('.o') != -1:
-            return "qc"
         if data.find('QASM') != -1:
             return "qasm"
+        if data.find('.v') != -1 or data.find('.i') != -1 or data.find('.o') != -1:
+            return "qc"
 
         raise TypeError("Couldn't determine circuit format.")
 
-- 
2.43.0


From 85bb4409e8dfa219def817bce92287fd2ce03784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:35 +0000
Subject: [PATCH 051/151] fix: unknown gates in qsim files were silently
 dropped

---
 pyzx/circuit/qsimparser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzx/circuit/qsimparser.py b/pyzx/circuit/qsimparser.py
index e614fd0..ac8d381 100644
--- a/pyzx/circuit/qsimparser.py
+++ b/pyzx/circuit/qsimparser.py
@@ -54,6 +54,8 @@ def parse_qsim(data: str) -> Circuit:
             theta = float(gdesc[4]) / math.pi
             phi = float(gdesc[5]) / math.pi
             gates.append(FSim(q, q1, Fraction(theta), Fraction(phi)))
+        else:
+            raise TypeError("Unknown gate: " + l)
 
     c = Circuit(qcount)
     c.gates = gates
-- 
2.43.0


From 235f1669040848757e89585556d2e12cb9e6d14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:35 +0000
Subject: [PATCH 052/151] fix: the qsim gate hz_1_2 was read as the root of
 (X-Y)/sqrt(2) instead of (X+Y)/sqrt(2)

---
 pyzx/circuit/qsimparser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/circuit/qsimparser.py b/pyzx/circuit/qsimparser.py
index ac8d381..3d5cca0 100644
--- a/pyzx/circuit/qsimparser.py
+++ b/pyzx/circuit/qsimparser.py
@@ -40,9 +40,9 @@ def parse_qsim(data: str) -> Circuit:
             phase = float(gdesc[3]) / math.pi
             gates.append(ZPhase(target = q, phase = Fraction(phase)))
         elif gdesc[1] == 'hz_1_2':
-            gates.append(ZPhase(target = q, phase = Fraction(1,4)))
-            gates.append(XPhase(target = q, phase = Fraction(1,2)))
             gates.append(ZPhase(target = q, phase = Fraction(-1,4)))
+            gates.append(XPhase(target = q, phase = Fraction(1,2)))
+            gates.append(ZPhase(target = q, phase = Fraction(1,4)))
         elif gdesc[1] == 'x_1_2':
             gates.append(XPhase(target = q, phase = Fraction(1,2)))
         elif gdesc[1] == 'y_1_2':
-- 
2.43.0


From 51716059dd0a4eab840d452b7f6b6f1ca4d035d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:35 +0000
Subject: [PATCH 053/151] fix: emoji form of circuits showed phases of pi/2 as
 pi/4

---
 pyzx/circuit/gates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index 2f2be40..e8ed495 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -324,7 +324,7 @@ class ZPhase(Gate):
     def to_emoji(self,strings: List[List[str]]) -> None:
         s = ''
         phase = self.phase % 2
-        if phase == Fraction(1,2): s = ':Zp4:'
+        if phase == Fraction(1,2): s = ':Zp2:'
         elif phase == Fraction(1,4): s = ':Zp4:'
         elif phase == Fraction(1,1): s = ':Zp:'
         elif phase == Fraction(3,4): s = ':Z3p4:'
@@ -404,7 +404,7 @@ class XPhase(Gate):
     def to_emoji(self,strings: List[List[str]]) -> None:
         s = ''
         phase = self.phase % 2
-        if phase == Fraction(1,2): s = ':Xp4:'
+        if phase == Fraction(1,2): s = ':Xp2:'
         elif phase == Fraction(1,4): s = ':Xp4:'
         elif phase == Fraction(1,1): s = ':Xp:'
         elif phase == Fraction(3,4): s = ':X3p4:'
-- 
2.43.0


From e5fb483cf8137c75e59f110cbf66c662ab622f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:16 +0000
Subject: [PATCH 054/151] fix: X and Z phases of -1, 2 or 0 beyond [0,2) were
 not split into basic gates, so such gates had no .qc form

---
 pyzx/circuit/gates.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index e8ed495..9062953 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -338,15 +338,16 @@ class ZPhase(Gate):
         return 1 if self.phase.denominator > 2 else 0
 
     def split_phases(self) -> List['ZPhase']:
-        if not self.phase: return []
-        if self.phase == 1: return [Z(self.target)]
-        if self.phase.denominator == 2:
-            if self.phase.numerator % 4 == 1:
+        phase = self.phase % 2
+        if not phase: return []
+        if phase == 1: return [Z(self.target)]
+        if phase.denominator == 2:
+            if phase.numerator % 4 == 1:
                 return [S(self.target)]
             else: return [S(self.target, adjoint=True)]
-        elif self.phase.denominator == 4:
+        elif phase.denominator == 4:
             gates: List['ZPhase'] = []
-            n = self.phase.numerator % 8
+            n = phase.numerator % 8
             if n == 3 or n == 5:
                 gates.append(Z(self.target))
                 n = (n-4)%8
@@ -423,15 +424,16 @@ class XPhase(Gate):
         return 1 if self.phase.denominator > 2 else 0
 
     def split_phases(self) -> List[Gate]:
-        if not self.phase: return []
-        if self.phase == 1: return [NOT(self.target)]
+        phase = self.phase % 2
+        if not phase: return []
+        if phase == 1: return [NOT(self.target)]
         gates: List[Gate] = [HAD(self.target)]
-        if self.phase.denominator == 2:
-            if self.phase.numerator % 4 == 1:
+        if phase.denominator == 2:
+            if phase.numerator % 4 == 1:
                 gates.append(S(self.target))
             else: gates.append(S(self.target, adjoint=True))
-        elif self.phase.denominator == 4:
-            n = self.phase.numerator % 8
+        elif phase.denominator == 4:
+            n = phase.numerator % 8
             if n == 3 or n == 5:
                 gates.append(Z(self.target))
                 n = (n-4)%8
-- 
2.43.0


From 598b8cd1c41b2652c6adcd1b7b1efa001ca7e613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:34 +0000
Subject: [PATCH 055/151] fix: CSWAP was written as a doubly controlled Z in
 the .qc and Quipper formats; SWAP and XCX were shown as CZ in the emoji form

---
 pyzx/circuit/gates.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index 9062953..b6db2e6 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -644,6 +644,10 @@ class XCX(CZ):
     def to_basic_gates(self):
         return [HAD(self.control), CNOT(self.control,self.target), HAD(self.control)]
 
+    def to_emoji(self,strings: List[List[str]]) -> None:
+        for gate in self.to_basic_gates():
+            gate.to_emoji(strings)
+
 class SWAP(CZ):
     name = 'SWAP'
     qasm_name = 'swap'
@@ -654,6 +658,10 @@ class SWAP(CZ):
         c2 = CNOT(self.target, self.control)
         return [c1,c2,c1]
 
+    def to_emoji(self,strings: List[List[str]]) -> None:
+        for gate in self.to_basic_gates():
+            gate.to_emoji(strings)
+
     def to_graph(self, g, q_mapper, c_mapper):
         for gate in self.to_basic_gates():
             gate.to_graph(g, q_mapper, c_mapper)
@@ -1048,6 +1056,8 @@ class Tofolli(CCZ):
 class CSWAP(CCZ):
     name = 'CSWAP'
     qasm_name = 'cswap'
+    qc_name = 'undefined'
+    quipper_name = 'undefined'
 
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, CSWAP): return False
@@ -1067,6 +1077,9 @@ class CSWAP(CCZ):
         for gate in self.to_basic_gates():
             gate.to_graph(g, q_mapper, c_mapper)
 
+    def to_quipper(self):
+        return Gate.to_quipper(self)
+
 class U2(Gate):  # See https://arxiv.org/pdf/1707.03429.pdf
     name = 'U2'
     qasm_name = 'u2'
-- 
2.43.0


From 6b047dcab6fb9f0b3b60deba32af75ff578a219a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:21 +0000
Subject: [PATCH 056/151] fix: local complementation and gadget pivots did not
 respect the limit on the number of matches

---
 pyzx/rules.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index 5fa8868..bd551dc 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -503,13 +503,13 @@ def match_pivot_gadget(
         if len(v1n) == 1: continue # It is a phase gadget
         bad_match = False
         discard_edges: List[ET] = []
-        for i,l in enumerate((v0n, v1n)):
+        for side,l in enumerate((v0n, v1n)):
             for n in l:
                 if types[n] != VertexType.Z:
                     bad_match = True
                     break
                 ne = list(g.incident_edges(n))
-                if i==0 and len(ne) == 1 and not (e == ne[0]): # v0 is a phase gadget
+                if side==0 and len(ne) == 1 and not (e == ne[0]): # v0 is a phase gadget
                     bad_match = True
                     break
                 discard_edges.extend(ne)
@@ -735,6 +735,7 @@ def match_lcomp_parallel(
 
         for n in vn: candidates.discard(n)
         m.append((v,vn))
+        i += 1
     return m
 
 def lcomp(g: BaseGraph[VT,ET], matches: List[MatchLcompType[VT]]) -> RewriteOutputType[VT,ET]:
-- 
2.43.0


From 487edbb89fd0c231b34633d8b54399cd420c1b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:22 +0000
Subject: [PATCH 057/151] fix: removing isolated Z-boxes and W nodes gave a
 wrong scalar, and pairs of spiders with phases adding up to an odd multiple
 of pi beyond pi were not flagged as zero

---
 pyzx/graph/base.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index 6e48861..ef3bc9a 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -15,6 +15,7 @@
 # limitations under the License.
 
 import abc
+import cmath
 import math
 import copy
 from fractions import Fraction
@@ -796,6 +797,10 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
                     raise TypeError("Diagram is not a well-typed ZX-diagram: contains isolated boundary vertex.")
                 elif ty == VertexType.H_BOX:
                     self.scalar.add_phase(self.phase(v))
+                elif ty == VertexType.Z_BOX:
+                    self.scalar.add_float(1 + complex(get_z_box_label(self, v)))
+                elif vertex_is_w(ty):
+                    self.scalar.add_float(0.0)
                 else: self.scalar.add_node(self.phase(v))
             if d == 1: # It has a unique neighbor
                 if v in rem: continue # Already taken care of
@@ -811,16 +816,27 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
                 t2 = self.type(w)
                 if t1 == VertexType.H_BOX: t1 = VertexType.Z # 1-ary H-box is just a Z spider
                 if t2 == VertexType.H_BOX: t2 = VertexType.Z
-                if t1==t2:
+                if not (vertex_is_zx(t1) and vertex_is_zx(t2)): # There is a Z-box or a W node
+                    amps = []
+                    for u, t in ((v,t1), (w,t2)):
+                        if vertex_is_w(t): amps.append((0, 1)) # 1-ary W node
+                        elif t == VertexType.Z_BOX: amps.append((1, complex(get_z_box_label(self, u))))
+                        else: amps.append((1, cmath.exp(1j*math.pi*self.phase(u)))) # type: ignore
+                    (a0, a1), (b0, b1) = amps
+                    if (et == EdgeType.HADAMARD) == (VertexType.X in (t1,t2)):
+                        self.scalar.add_float(a0*b0 + a1*b1)
+                    else:
+                        self.scalar.add_float((a0*b0 + a0*b1 + a1*b0 - a1*b1)/math.sqrt(2))
+                elif t1==t2:
                     if et == EdgeType.SIMPLE:
-                        self.scalar.add_node(self.phase(v)+self.phase(w))
+                        self.scalar.add_node((self.phase(v)+self.phase(w))%2)
                     else:
                         self.scalar.add_spider_pair(self.phase(v), self.phase(w))
                 else:
                     if et == EdgeType.SIMPLE:
                         self.scalar.add_spider_pair(self.phase(v), self.phase(w))
                     else:
-                        self.scalar.add_node(self.phase(v)+self.phase(w))
+                        self.scalar.add_node((self.phase(v)+self.phase(w))%2)
         self.remove_vertices(rem)
 
     def remove_edges(self, edges: List[ET]) -> None:
-- 
2.43.0


From c147db82594adf7db39f0f2f1c88c4b60fa12faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:00 +0000
Subject: [PATCH 058/151] fix: fusion of W nodes matched W nodes joined by two
 inputs or two outputs, or joined more than once

---
 pyzx/rules.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index bd551dc..11877d5 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -341,7 +341,13 @@ def match_w_fusion_parallel(
         v0, v1 = g.edge_st(e)
         v0t = types[v0]
         v1t = types[v1]
-        if vertex_is_w(v0t) and vertex_is_w(v1t):
+        if vertex_is_w(v0t) and vertex_is_w(v1t) and v0t != v1t:
+            # an output of one W node goes into the other W node
+            v_in, v_out = (v0, v1) if v0t == VertexType.W_INPUT else (v1, v0)
+            second_out = get_w_partner(g, v_in)
+            if second_out == v_out: continue # the W node is connected to itself
+            if any(g.connected(second_out, w) for w in (v_out, get_w_partner(g, v_out))):
+                continue # fusing would connect the W node to itself
             i += 1
             candidates_to_remove: List[VT] = []
             candidates_to_remove.extend(list(g.neighbors(v0)))
-- 
2.43.0


From a57fc754b4a87af2dc6677e4cee2f14f6cd521e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:22 +0000
Subject: [PATCH 059/151] fix: gadget and boundary pivots matched spiders
 joined by plain edges, changing the map of diagrams that a restricted
 simplification left non-graph-like

---
 pyzx/rules.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index 11877d5..f21e740 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -511,7 +511,7 @@ def match_pivot_gadget(
         discard_edges: List[ET] = []
         for side,l in enumerate((v0n, v1n)):
             for n in l:
-                if types[n] != VertexType.Z:
+                if types[n] != VertexType.Z or g.edge_type(g.edge((v0,v1)[side],n)) != EdgeType.HADAMARD:
                     bad_match = True
                     break
                 ne = list(g.incident_edges(n))
@@ -566,7 +566,7 @@ def match_pivot_boundary(
         w = None
         bound = None
         for n in g.neighbors(v):
-            if types[n] != VertexType.Z:
+            if types[n] != VertexType.Z or g.edge_type(g.edge(v,n)) != EdgeType.HADAMARD:
                 good_vert = False
                 break
             if len(g.neighbors(n)) == 1: # v is a phase gadget
@@ -583,7 +583,7 @@ def match_pivot_boundary(
             for b in g.neighbors(n):
                 if types[b] == VertexType.BOUNDARY:
                     boundaries.append(b)
-                elif types[b] != VertexType.Z:
+                elif types[b] != VertexType.Z or g.edge_type(g.edge(n,b)) != EdgeType.HADAMARD:
                     wrong_match = True
             if len(boundaries) != 1 or wrong_match: # n is not on the boundary,
                 continue             # has too many boundaries or has neighbors of wrong type
-- 
2.43.0


From 48c6b53ae792f9aad4a1d11b0e39b28049974aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:56 +0000
Subject: [PATCH 060/151] fix: phase gadget fusion matched leaves joined by
 plain edges, changing the map of diagrams that are not graph-like

---
 pyzx/rules.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index f21e740..3b83ce6 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -842,6 +842,7 @@ def match_phase_gadgets(g: BaseGraph[VT,ET],vertexf:Optional[Callable[[VT],bool]
     else: candidates = g.vertex_set()
 
     phases = g.phases()
+    types = g.types()
 
     parities: Dict[FrozenSet[VT], List[VT]] = dict()
     gadgets: Dict[VT,VT] = dict()
@@ -855,6 +856,10 @@ def match_phase_gadgets(g: BaseGraph[VT,ET],vertexf:Optional[Callable[[VT],bool]
             n = list(g.neighbors(v))[0]
             if phases[n] not in (0,1): continue # Not a real phase gadget (happens for scalar diagrams)
             if n in gadgets: continue # Not a real phase gadget (happens for scalar diagrams)
+            if types[v] != VertexType.Z or any(types[w] == VertexType.Z and g.edge_type(g.edge(n,w)) != EdgeType.HADAMARD for w in g.neighbors(n)):
+                continue # Not a real phase gadget (happens for diagrams that are not graph-like)
+            if types[n] != VertexType.Z or any(types[w] not in (VertexType.Z, VertexType.BOUNDARY) for w in g.neighbors(n)):
+                continue
             if n in inputs or n in outputs: continue # Not a real phase gadget (happens for non-unitary diagrams)
             gadgets[n] = v
             par = frozenset(set(g.neighbors(n)).difference({v}))
-- 
2.43.0


From b87826527f4febb5e00dda0e49fb12af11f1f1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:20 +0000
Subject: [PATCH 061/151] fix: removing identities next to a cancelling edge
 left isolated spiders, so that full_reduce did not always reduce closed
 Clifford diagrams to a number

---
 pyzx/rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index 3b83ce6..4e11c4c 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -828,7 +828,7 @@ def remove_ids(g: BaseGraph[VT,ET], matches: List[MatchIdType[VT]]) -> RewriteOu
         if not e in etab: etab[e] = [0,0]
         if et == EdgeType.SIMPLE: etab[e][0] += 1
         else: etab[e][1] += 1
-    return (etab, rem, [], False)
+    return (etab, rem, [], True)
 
 MatchGadgetType = Tuple[VT,VT,FractionLike,List[VT],List[VT]]
 
-- 
2.43.0


From 2929317d3bcc6e4d806681ece21fb95b323a88c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:24 +0000
Subject: [PATCH 062/151] fix: supplementarity matched a spider twice when
 several spiders without neighbors were present

---
 pyzx/rules.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index 4e11c4c..97979ce 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -925,6 +925,7 @@ def match_supplementarity(g: BaseGraph[VT,ET], vertexf:Optional[Callable[[VT],bo
         par = frozenset(neigh)
         if par in parities:
             for w in parities[par]:
+                if w in taken: continue
                 if (phases[v]-phases[w]) % 2 == 1 or (phases[v]+phases[w]) % 2 == 1:
                     m.append((v,w,1,par))
                     taken.update({v,w})
-- 
2.43.0


From f4367b6b280ac1c8beed8a3588c6bca6f3389950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:59 +0000
Subject: [PATCH 063/151] fix: teleport_reduce left phase tracking switched on,
 so that simplifying its argument or its result afterwards raised a KeyError

---
 pyzx/simplify.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyzx/simplify.py b/pyzx/simplify.py
index 0bb809c..5933101 100644
--- a/pyzx/simplify.py
+++ b/pyzx/simplify.py
@@ -215,15 +215,18 @@ def teleport_reduce(g: BaseGraph[VT,ET], quiet:bool=True, stats:Optional[Stats]=
     The only thing that is different in the output graph are the location and value of the phases."""
     s = Simplifier(g)
     s.full_reduce(quiet=quiet, stats=stats)
+    s.mastergraph.track_phases = False
     return s.mastergraph
 
 
 class Simplifier(Generic[VT, ET]):
     """Class used for :func:`teleport_reduce`."""
     def __init__(self, g: BaseGraph[VT,ET]) -> None:
-        g.track_phases = True
+        track_phases = g.track_phases
+        g.track_phases = True # The copies get a phase index for each vertex
         self.mastergraph = g.copy()
         self.simplifygraph = g.copy()
+        g.track_phases = track_phases
         self.simplifygraph.set_phase_master(self)
         self.phantom_phases: Dict[VT, Tuple[VT,int]] = dict()
 
-- 
2.43.0


From 1dd1650fca00124a0f9b4fb484cb26bad356a182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:09 +0000
Subject: [PATCH 064/151] fix: phase teleportation lost the sign of a spider
 whose non-Clifford phase is stored at another vertex, returning a different
 circuit

---
 pyzx/simplify.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzx/simplify.py b/pyzx/simplify.py
index 5933101..94be6b0 100644
--- a/pyzx/simplify.py
+++ b/pyzx/simplify.py
@@ -256,8 +256,9 @@ class Simplifier(Generic[VT, ET]):
                 p1 = self.mastergraph.phase(v3)
                 if (p1+p2).denominator <= 2:
                     del self.phantom_phases[v1]
-                v1,i1 = v3,i3
                 m1 = cast(Literal[1, -1], m1*self.simplifygraph.phase_mult[i3])
+                self.simplifygraph.phase_mult[i1] = m1 # Index i1 now points to v3
+                v1,i1 = v3,i3
             else:
                 self.phantom_phases[v1] = (v2,i2)
                 self.simplifygraph.phase_mult[i2] = m2
-- 
2.43.0


From 3f8e9d93ddc07df1927f17bc688267a2b55282d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:38 +0000
Subject: [PATCH 065/151] fix: the recursive Steiner elimination removes qubits
 only when the rest stays reducible

The removal order took the largest non-cutting qubit and the recursion took any depth-first path
over all qubits, so that on about one in twenty small coupling graphs the map was left unreduced
or a ValueError was raised.
---
 pyzx/routing/architecture.py | 35 +++++++++++++++++++++++++++++++++--
 pyzx/routing/steiner.py      | 22 ++++++++++++++--------
 2 files changed, 47 insertions(+), 10 deletions(-)

diff --git a/pyzx/routing/architecture.py b/pyzx/routing/architecture.py
index 28fbfce..a832aff 100644
--- a/pyzx/routing/architecture.py
+++ b/pyzx/routing/architecture.py
@@ -138,14 +138,45 @@ class Architecture():
         reduce_order = []
         while vertices:
             all_cutting = self._is_cutting(vertices) # Get which vertices are cutting
-            # All False indices correspond to a leaf, we want the first one
-            leaf = all_cutting.index(False)
+            # All False indices correspond to a leaf, we want the first one that can be reduced and removed
+            # without losing the properties of the labels that the recursive reduction relies on.
+            leaves = [i for i, cutting in enumerate(all_cutting) if not cutting]
+            leaf = leaves[0]
+            for i in leaves:
+                if self._is_path(vertices[:i+1]) and self._is_post_ordered(vertices[:i] + vertices[i+1:]):
+                    leaf = i
+                    break
             # Which logical qubit is stored in the leaf node?
             reduce_order.append(self.vertex2qubit(vertices[leaf]))
             del vertices[leaf]
 
         return reduce_order
 
+    def _is_path(self, vertices: List[int]) -> bool:
+        """Whether each of the given vertices is a neighbor of the next one."""
+        return all(w in self.get_neighboring_vertices(v) for v, w in zip(vertices, vertices[1:]))
+
+    def _is_post_ordered(self, vertices: List[int]) -> bool:
+        """
+        Whether the given vertices, sorted from the largest to the smallest label, are labeled as :func:`_place_qubits` does,
+        i.e. whether the labels are a post-ordering of a depth-first traversal of the subgraph of these vertices.
+        """
+        # Traverse in the reverse order: the path from the root to the previous vertex should contain
+        # all earlier neighbors of the next vertex.
+        path: List[int] = []
+        visited: Set[int] = set()
+        for v in vertices:
+            earlier = self.get_neighboring_vertices(v) & visited
+            if visited and not earlier:
+                return False
+            while path and path[-1] not in earlier:
+                path.pop()
+            if not earlier <= set(path):
+                return False
+            path.append(v)
+            visited.add(v)
+        return True
+
     def _place_qubits(self, start_vertex=None) -> List[int]:
         # Start at start_vertex and label the graph using DFT and post-ordered labeling
         # If no start_vertex is given, start at the node with the highest index
diff --git a/pyzx/routing/steiner.py b/pyzx/routing/steiner.py
index 4e28321..fb4e9d1 100644
--- a/pyzx/routing/steiner.py
+++ b/pyzx/routing/steiner.py
@@ -244,14 +244,20 @@ def rec_steiner_gauss(
                 # Pick the maximal vertex k in R: k = max(usable_nodes)
                 # Pick the maximal leaf k' in R: k' = cols[i] = c
                 # Let W be the set of vertices in the shortest path from k' to k (inclusive)
-                path = architecture.shortest_path(
-                    c, max(usable_nodes)
-                )  # , usable_nodes)
-                if path is None:
-                    raise ValueError(
-                        f"The architecture is not connected using when considering nodes 0..{max(usable_nodes)}"
-                    )
-                rec_qubits = [architecture.vertex2qubit(v) for v in path]
+                # W has to stay in R and to be traversed in the order of the labels
+                rec_qubits = sorted(q for q in usable_nodes if q >= c)
+                if not all(
+                    q2 in architecture.get_neighboring_qubits(q1)
+                    for q1, q2 in zip(rec_qubits, rec_qubits[1:])
+                ):
+                    path = architecture.shortest_path(
+                        c, max(usable_nodes)
+                    )  # , usable_nodes)
+                    if path is None:
+                        raise ValueError(
+                            f"The architecture is not connected using when considering nodes 0..{max(usable_nodes)}"
+                        )
+                    rec_qubits = [architecture.vertex2qubit(v) for v in path]
 
                 # Apply steiner up:
                 # Pick the nodes of the steiner tree: all rows with a 1 in column c or the pivot row (diagonal)
-- 
2.43.0


From c15a495d903a2a865536b81681852ad34ae18139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:54 +0000
Subject: [PATCH 066/151] fix: the walk over a Steiner tree only follows edges
 of the tree

steiner_tree walked along any coupling between vertices of the tree, so that the shape, and in the
directed case the direction, of the walk was not that of the tree.
---
 pyzx/routing/architecture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/routing/architecture.py b/pyzx/routing/architecture.py
index a832aff..0ac759e 100644
--- a/pyzx/routing/architecture.py
+++ b/pyzx/routing/architecture.py
@@ -441,7 +441,7 @@ class Architecture():
         
         while queue != []:
             node = queue.pop(0)
-            neighbors = [v for v in self.graph.neighbors(node) if v in tree_vertices and v not in visited]
+            neighbors = [v for v in self.graph.neighbors(node) if (node, v) in edges and v not in visited]
 
             for v in neighbors:
                 queue.append(v)
-- 
2.43.0


From b3836425c910f43613777ef67224951e7b8e633e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:56 +0000
Subject: [PATCH 067/151] fix: the CNOT tracker tracks gates however they are
 added

CNOTs added by name or prepended were not applied to the parity matrix, and a tracker made from a
circuit shared its list of gates with that circuit.
---
 pyzx/routing/parity_maps.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pyzx/routing/parity_maps.py b/pyzx/routing/parity_maps.py
index f14c885..a2c5105 100644
--- a/pyzx/routing/parity_maps.py
+++ b/pyzx/routing/parity_maps.py
@@ -65,19 +65,18 @@ class CNOT_tracker(Circuit):
 
     def row_add(self, q0: int, q1: int):
         """Track a row addition operation on the matrix"""
-        self.add_gate("CNOT", q0, q1)
-        self.matrix.row_add(q0, q1)
+        self.add_gate(CNOT(q0, q1))
 
     def add_gate(self, gate: Union[Gate,str], *args, **kwargs):
+        if isinstance(gate, str):
+            gate = gate_types[gate](*args, **kwargs)
+        super().add_gate(gate)
         if isinstance(gate, CNOT):
-            self.row_add(gate.control, gate.target)
-        else:
-            super().add_gate(gate, *args, **kwargs)
+            self.matrix.row_add(gate.control, gate.target)
 
     def col_add(self, q0: int, q1: int):
         """Track a column addition operation on the matrix"""
         self.prepend_gate("CNOT", q1, q0)
-        self.matrix.col_add(q0, q1)
 
     @staticmethod
     def get_metric_names() -> List[str]:
@@ -105,6 +104,8 @@ class CNOT_tracker(Circuit):
             gate_class = gate_types[gate]
             gate = gate_class(*args, **kwargs)
         self.gates.insert(0, gate)
+        if isinstance(gate, CNOT):
+            self.matrix.col_add(gate.target, gate.control)
 
     def to_qasm(self, version: int = 2) -> str:
         qasm = super().to_qasm(version)
@@ -115,7 +116,7 @@ class CNOT_tracker(Circuit):
     @staticmethod
     def from_circuit(circuit: Circuit) -> "CNOT_tracker":
         new_circuit = CNOT_tracker(circuit.qubits, name=circuit.name)
-        new_circuit.gates = circuit.gates
+        new_circuit.gates = list(circuit.gates)
         new_circuit.update_matrix()
         return new_circuit
 
-- 
2.43.0


From 5a16d0d3dcd1e306693f5a205d73e4d91eccddd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:56 +0000
Subject: [PATCH 068/151] fix: CNOT depth of a tracker counts every layer

The gate that started a new layer was not itself recorded as part of it, so that consecutive
CNOTs on the same qubits counted as half as many layers.
---
 pyzx/routing/parity_maps.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/pyzx/routing/parity_maps.py b/pyzx/routing/parity_maps.py
index a2c5105..cc6ff94 100644
--- a/pyzx/routing/parity_maps.py
+++ b/pyzx/routing/parity_maps.py
@@ -51,17 +51,12 @@ class CNOT_tracker(Circuit):
 
     def cnot_depth(self) -> int:
         """Returns the CNOT/CZ depth of the tracked circuit."""
-        depth = 1
-        previous_gates: List[int] = []
+        depths: Dict[int, int] = {}  # The depth reached on each qubit
         for g in self.gates:
             if hasattr(g, "name") and g.name in ["CNOT", "CZ"]:
-                if g.control in previous_gates or g.target in previous_gates:  # type: ignore # Overlapping gate
-                    # Start a new CNOT layer
-                    previous_gates = []
-                    depth += 1
-                else:
-                    previous_gates += [g.control, g.target]  # type: ignore
-        return depth
+                q0, q1 = g.control, g.target  # type: ignore
+                depths[q0] = depths[q1] = max(depths.get(q0, 0), depths.get(q1, 0)) + 1
+        return max(depths.values(), default=0)
 
     def row_add(self, q0: int, q1: int):
         """Track a row addition operation on the matrix"""
-- 
2.43.0


From b0cd90194b7523fa8a1f81f0fb6ed63547919143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:28 +0000
Subject: [PATCH 069/151] fix: steiner_gauss performs the full reduction

The downward phase of the reduction was never run, so that full_reduce left the map triangular.
---
 pyzx/routing/steiner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/routing/steiner.py b/pyzx/routing/steiner.py
index fb4e9d1..a080c5c 100644
--- a/pyzx/routing/steiner.py
+++ b/pyzx/routing/steiner.py
@@ -68,6 +68,7 @@ def steiner_gauss(
                     row_add(s1, s0)
                     if debug:
                         print(matrix[s0, col], matrix[s1, col])
+        else:
             if (
                 next_check is not None and matrix[next_check[0], col] == 0
             ):  # root is zero
-- 
2.43.0


From b47392400243835c5603a47e725c92d200a93a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:12 +0000
Subject: [PATCH 070/151] fix: Steiner trees of placed qubits use the distances
 between those qubits

steiner_tree compared and indexed by vertex of the coupling graph where the precomputed distances and
the elimination count qubits, which differ whenever the placement is not the identity.
---
 pyzx/routing/architecture.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyzx/routing/architecture.py b/pyzx/routing/architecture.py
index 0ac759e..4eaa19a 100644
--- a/pyzx/routing/architecture.py
+++ b/pyzx/routing/architecture.py
@@ -129,8 +129,9 @@ class Architecture():
             until indicates the number of qubits to consider, for "full" the distance is calculated only between qubits with index <= until),
             and for "upper" the distance is calculated only between qubits with index >= until)
         """
-        return {"upper": [self.floyd_warshall(self.vertices[until:], upper=True) for until, v in enumerate(self.vertices)],
-                "full": [self.floyd_warshall(self.vertices[:until+1], upper=False) for until, v in enumerate(self.vertices)]}
+        vertices = sorted(self.vertices, key=self.vertex2qubit)
+        return {"upper": [self.floyd_warshall(vertices[until:], upper=True) for until, v in enumerate(vertices)],
+                "full": [self.floyd_warshall(vertices[:until+1], upper=False) for until, v in enumerate(vertices)]}
 
     def _get_reduce_order(self) -> List[int]:
         vertices = list(sorted(self.vertices, reverse=True, key=self.vertex2qubit)) # sort qubits from large to small
@@ -395,14 +396,14 @@ class Architecture():
         target_nodes = set(self.qubit2vertex(q) for q in qubits_to_use)
 
         # Check that all nodes are valid and that there are no duplicates
-        assert all(n >= root if upper else n <= root for n in target_nodes)
+        assert all(q >= start_qubit if upper else q <= start_qubit for q in qubits_to_use)
         assert len(qubits_to_use) == len(set(qubits_to_use))
         
         # The vertices and edges of the generated tree
         tree_vertices: Set[int] = {root}
         edges: Set[Tuple[int,int]] = set()
-        # Map with all distances between nodes with index <= root (if not upper) or index >= root (if upper), and the corresponding shortest paths
-        distances: Dict[Tuple[int,int], Tuple[int,List[Tuple[int,int]]]] = self.distances["upper"][root] if upper else self.distances["full"][root]
+        # Map with all distances between qubits with index <= start_qubit (if not upper) or index >= start_qubit (if upper), and the corresponding shortest paths
+        distances: Dict[Tuple[int,int], Tuple[int,List[Tuple[int,int]]]] = self.distances["upper"][start_qubit] if upper else self.distances["full"][start_qubit]
         # Nodes that are not yet in the tree
         remaining_nodes = set(n for n in target_nodes if n != root)
         # Non-target nodes added to the tree
-- 
2.43.0


From 3f033195daebdc1c5e70303ff2e69edaa169be6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:48 +0000
Subject: [PATCH 071/151] fix: placing the parities of a partition kept every
 unplaced row at parity 0

The permutation started out as all zeros while the placement looks for entries that are None, so that
with optimize_parity_order parities were lost and the synthesised circuit missed their phases.
---
 pyzx/routing/phase_poly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/routing/phase_poly.py b/pyzx/routing/phase_poly.py
index b3ad677..073c1eb 100644
--- a/pyzx/routing/phase_poly.py
+++ b/pyzx/routing/phase_poly.py
@@ -490,7 +490,7 @@ class PhasePoly:
     def _place_parities(self, parities: Union[Mat2, MatLike]) -> List[int]:
         if isinstance(parities, Mat2):
             parities = parities.data
-        permutation = [0] * self.n_qubits
+        permutation: List[Any] = [None] * self.n_qubits
         skipped_parities = []
         # Greedily map identity rows
         for i, parity in enumerate(parities):
-- 
2.43.0


From f6b52be4f1faebc90289fe149d5e078e01d52dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:48 +0000
Subject: [PATCH 072/151] fix: from_hypergraph_form only fuses arity-1 H-boxes
 attached by a simple edge

---
 pyzx/hsimplify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/hsimplify.py b/pyzx/hsimplify.py
index f20e572..a049b99 100644
--- a/pyzx/hsimplify.py
+++ b/pyzx/hsimplify.py
@@ -118,7 +118,7 @@ def from_hypergraph_form(g: BaseGraph[VT,ET]) -> None:
     for h in hs:
         if g.vertex_degree(h) == 1:
             n = next(iter(g.neighbors(h)))
-            if types[n] == VertexType.Z:
+            if types[n] == VertexType.Z and g.edge_type(g.edge(h,n)) == EdgeType.SIMPLE:
                 g.set_phase(n, phases[n] + phases[h])
                 g.remove_vertex(h)
     hadamard_simp(g,quiet=True)
-- 
2.43.0


From 0cb0806099f6c3c85888de3d9c5051d1f1e32a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:48 +0000
Subject: [PATCH 073/151] fix: hbox_parallel_not only matches when a Z-spider
 is on the other side of the NOT

---
 pyzx/hrules.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzx/hrules.py b/pyzx/hrules.py
index 13d36f4..7bcd71f 100644
--- a/pyzx/hrules.py
+++ b/pyzx/hrules.py
@@ -234,7 +234,8 @@ def match_hbox_parallel_not(
         for n in g.neighbors(h):
             if g.vertex_degree(n) != 2 or phases[n] != 1: continue # If it turns out to be useful, this rule can be generalised to allow spiders of arbitrary phase here
             v = [v for v in g.neighbors(n) if v != h][0] # The other neighbor of n
-            if not g.connected(v,h): continue
+            if types[v] != VertexType.Z or not g.connected(v,h): continue
+            if g.edge_type(g.edge(v,h)) != EdgeType.SIMPLE: continue
             if not is_NOT_gate(g,n,h,v):
                 continue
             break
-- 
2.43.0


From 963dca0470f975fa08bec3bf491acacebe2b94db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:48 +0000
Subject: [PATCH 074/151] fix: scalar of the hyper-pivot next to a boundary

---
 pyzx/hrules.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyzx/hrules.py b/pyzx/hrules.py
index 7bcd71f..591bf12 100644
--- a/pyzx/hrules.py
+++ b/pyzx/hrules.py
@@ -543,7 +543,9 @@ def hpivot(g: BaseGraph[VT,ET], m: hpivot_match_output) -> None:
     h, v0, v1, v0b, v1b, v0nn, v1nn = m[0]
     g.remove_vertices([v for v in g.neighbors(v0) if types[v] == VertexType.H_BOX])
     g.remove_vertices([v for v in g.neighbors(v1) if types[v] == VertexType.H_BOX])
-    g.scalar.add_power(2) # Applying a Fourier Hyperpivot adds a scalar of 2
+    # Applying a Fourier Hyperpivot adds a scalar of 2,
+    # or of sqrt(2) if one of the vertices stays because it is connected to a boundary
+    g.scalar.add_power(2 - len(v0b) - len(v1b))
     
     if len(v0b) == 0:
         g.remove_vertex(v0)
-- 
2.43.0


From db3d4c7f8237e5ec129cdf028e7521b03d74429f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:48 +0000
Subject: [PATCH 075/151] fix: hyper-pivot with overlapping or empty H-box
 neighbourhoods

---
 pyzx/hrules.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyzx/hrules.py b/pyzx/hrules.py
index 591bf12..98cb482 100644
--- a/pyzx/hrules.py
+++ b/pyzx/hrules.py
@@ -567,10 +567,11 @@ def hpivot(g: BaseGraph[VT,ET], m: hpivot_match_output) -> None:
             f_phase = (phase * phase_mult) % 2
             if f_phase == 0: continue
             for vvs in combinations(v0nn, weight):
-                us = tuple(sorted(sum(vvs, ws)))
+                us = tuple(sorted(set(sum(vvs, ws)))) # Z-spiders copy: a double connection is the same as a single one
 
-                # TODO: check if this is the right thing to do (and update scalar)
-                if len(us) == 0: continue
+                if len(us) == 0:
+                    g.scalar.add_phase(f_phase)
+                    continue
 
                 # if us in hboxes:
                 #     h0 = hboxes[us]
-- 
2.43.0


From dba6b1518200c65c0591446bf6e45db1ccd7d8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:48 +0000
Subject: [PATCH 076/151] fix: Intro rule for H-boxes connected to a spider
 both directly and via a NOT

---
 pyzx/hrules.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/hrules.py b/pyzx/hrules.py
index 98cb482..1a8a216 100644
--- a/pyzx/hrules.py
+++ b/pyzx/hrules.py
@@ -404,6 +404,7 @@ def match_par_hbox_intro(
             vs = neighbors_regular.symmetric_difference(neighbors_regular2)
             if g.phase(h) != g.phase(h2): continue  # TODO: Allow intro rule with different phases.
             if len(neighbors_single) != len(neighbors_single2): continue  # TODO: Allow different sets of neighbours here.
+            if vs != neighbors_NOT.symmetric_difference(neighbors_NOT2): continue
             if len(vs) != 1: # To use the Intro rule, the H-boxes should differ on exactly one position on where there are NOTs.
                 continue
             # We have a match!
-- 
2.43.0


From ad9a5070a42c33c3744e73a0fec6c73f9cc0a9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:48 +0000
Subject: [PATCH 077/151] fix: H-box fusion no longer fuses adjacent pairs at
 once, which lost the edges between them

---
 pyzx/hrules.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyzx/hrules.py b/pyzx/hrules.py
index 1a8a216..97e8e33 100644
--- a/pyzx/hrules.py
+++ b/pyzx/hrules.py
@@ -75,8 +75,10 @@ def match_connected_hboxes(g: BaseGraph[VT,ET],
         if ty[v1] != VertexType.H_BOX or ty[v2] != VertexType.H_BOX: continue
         if g.phase(v1) != 1 and g.phase(v2) != 1: continue
         m.add(e)
-        candidates.difference_update(g.incident_edges(v1))
-        candidates.difference_update(g.incident_edges(v2))
+        # Neighbouring H-boxes can't be fused in the same round, because their shared edges move
+        for v in (v1, v2):
+            for n in g.neighbors(v):
+                candidates.difference_update(g.incident_edges(n))
     return list(m)
 
 def fuse_hboxes(g: BaseGraph[VT,ET], matches: List[ET]) -> rules.RewriteOutputType[VT,ET]:
-- 
2.43.0


From 8fe07c0fd997bfa05eddd1391d2ffba535add507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:30 +0000
Subject: [PATCH 078/151] fix: hyper-pivot no longer matches an H-box next to a
 boundary

---
 pyzx/hrules.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/hrules.py b/pyzx/hrules.py
index 97e8e33..92f187d 100644
--- a/pyzx/hrules.py
+++ b/pyzx/hrules.py
@@ -484,6 +484,7 @@ def match_hpivot(
         ): continue
 
         v0, v1 = g.neighbors(h)
+        if types[v0] != VertexType.Z or types[v1] != VertexType.Z: continue
 
         v0n = set(g.neighbors(v0))
         v1n = set(g.neighbors(v1))
-- 
2.43.0


From 7883e4f84d6bed98ff9034f13a907a59059f1248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:48 +0000
Subject: [PATCH 079/151] fix: copy_X and copy_Z did nothing when the neighbour
 has a non-Pauli phase

---
 pyzx/basicrules.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyzx/basicrules.py b/pyzx/basicrules.py
index 18eebc0..17c2593 100644
--- a/pyzx/basicrules.py
+++ b/pyzx/basicrules.py
@@ -132,6 +132,10 @@ def check_copy_X(g: BaseGraph[VT,ET], v: VT) -> bool:
 def copy_X(g: BaseGraph[VT,ET], v: VT) -> bool:
     if not check_copy_X(g, v): return False
     nv = next(iter(g.neighbors(v)))
+    # Any phase of the Z spider only contributes a global phase
+    if g.phase(v) == 1:
+        g.scalar.add_phase(g.phase(nv))
+    g.set_phase(nv, 0)
     strong_comp(g, v, nv)
 
     return True
-- 
2.43.0


From 6a80d2429f7fe8c08b41154c9bb0182766fe43a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:48 +0000
Subject: [PATCH 080/151] fix: pi_commute_Z changed the neighbours while
 iterating over them and lost a scalar

---
 pyzx/basicrules.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzx/basicrules.py b/pyzx/basicrules.py
index 17c2593..dc48976 100644
--- a/pyzx/basicrules.py
+++ b/pyzx/basicrules.py
@@ -145,8 +145,9 @@ def check_pi_commute_Z(g: BaseGraph[VT, ET], v: VT) -> bool:
 
 def pi_commute_Z(g: BaseGraph[VT, ET], v: VT) -> bool:
     if not check_pi_commute_Z(g, v): return False
+    g.scalar.add_phase(g.phase(v))
     g.set_phase(v, -g.phase(v))
-    ns = g.neighbors(v)
+    ns = list(g.neighbors(v))
     for w in ns:
         e = g.edge(v, w)
         et = g.edge_type(e)
-- 
2.43.0


From a609512e0f5243ed78755604e0fb5a1320acc6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:48 +0000
Subject: [PATCH 081/151] fix: remove_id only removes spiders, not W nodes and
 H-boxes

---
 pyzx/basicrules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/basicrules.py b/pyzx/basicrules.py
index dc48976..c0de0df 100644
--- a/pyzx/basicrules.py
+++ b/pyzx/basicrules.py
@@ -49,7 +49,7 @@ from typing import Tuple, List
 from .graph.base import BaseGraph, VT, ET
 from .rules import apply_rule, w_fusion, z_to_z_box
 from .utils import (EdgeType, VertexType, get_w_io, get_z_box_label, is_pauli,
-                    set_z_box_label, vertex_is_w, vertex_is_z_like, toggle_vertex, toggle_edge)
+                    set_z_box_label, vertex_is_w, vertex_is_z_like, vertex_is_zx, toggle_vertex, toggle_edge)
 
 def color_change_diagram(g: BaseGraph[VT,ET]):
     """Color-change an entire diagram by applying Hadamards to the inputs and ouputs."""
@@ -248,7 +248,7 @@ def check_remove_id(g: BaseGraph[VT,ET], v: VT) -> bool:
         return False
     if g.type(v) == VertexType.Z_BOX and get_z_box_label(g, v) == 1:
         return True
-    elif g.type(v) != VertexType.Z_BOX and g.phase(v) == 0:
+    elif vertex_is_zx(g.type(v)) and g.phase(v) == 0:
         return True
     return False
 
-- 
2.43.0


From 35b096b4111694c7c0ccb0ed233bd650b4aead19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:48 +0000
Subject: [PATCH 082/151] fix: fuse does not apply to W nodes that are
 connected in a cycle

---
 pyzx/basicrules.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyzx/basicrules.py b/pyzx/basicrules.py
index c0de0df..9ff82df 100644
--- a/pyzx/basicrules.py
+++ b/pyzx/basicrules.py
@@ -228,9 +228,10 @@ def check_fuse_w(g: BaseGraph[VT,ET], v1: VT, v2: VT) -> bool:
     if vertex_is_w(g.type(v1)) and vertex_is_w(g.type(v2)):
         v1_in, v1_out = get_w_io(g, v1)
         v2_in, v2_out = get_w_io(g, v2)
-        if g.edge_type(g.edge(v1_in, v2_out)) == EdgeType.SIMPLE or \
-           g.edge_type(g.edge(v2_in, v1_out)) == EdgeType.SIMPLE:
-            return True
+        for w_in, w_out, u_in, u_out in ((v1_in, v1_out, v2_in, v2_out), (v2_in, v2_out, v1_in, v1_out)):
+            if g.connected(w_in, u_out) and g.edge_type(g.edge(w_in, u_out)) == EdgeType.SIMPLE:
+                # fusing must not connect the W node to itself
+                return not (g.connected(w_out, u_out) or g.connected(w_out, u_in))
     return False
 
 def fuse_w(g: BaseGraph[VT,ET], v1: VT, v2: VT) -> bool:
-- 
2.43.0


From 42008643eb23729ad8a98d31c804be2ffdda50be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:08 +0000
Subject: [PATCH 083/151] fix: pi_commute_Z placed phaseless spiders instead of
 pi phases on the other legs

---
 pyzx/basicrules.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzx/basicrules.py b/pyzx/basicrules.py
index 9ff82df..ef69a1d 100644
--- a/pyzx/basicrules.py
+++ b/pyzx/basicrules.py
@@ -158,7 +158,8 @@ def pi_commute_Z(g: BaseGraph[VT, ET], v: VT) -> bool:
             g.remove_edge(e)
             c = g.add_vertex(VertexType.X,
                     qubit=0.5*(g.qubit(v) + g.qubit(w)),
-                    row=0.5*(g.row(v) + g.row(w)))
+                    row=0.5*(g.row(v) + g.row(w)),
+                    phase=1)
             g.add_edge((v, c))
             g.add_edge((c, w), edgetype=et)
     return True
-- 
2.43.0


From cf5594768cea6c153fb29ccb264b04cad6c7762a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:24 +0000
Subject: [PATCH 084/151] fix: scalar of the bialgebra rule between X-spiders
 and H-boxes in the editor

---
 pyzx/editor_actions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/editor_actions.py b/pyzx/editor_actions.py
index 25b119f..0b70a43 100644
--- a/pyzx/editor_actions.py
+++ b/pyzx/editor_actions.py
@@ -273,7 +273,7 @@ def bialgebra(g: BaseGraph[VT,ET],
             g.scalar.add_power((g.vertex_degree(v)-2)*(g.vertex_degree(w)-2))
         else: #g.type(w) == VertexType.H_BOX
             t = VertexType.Z
-            g.scalar.add_power(g.vertex_degree(v)-2)
+            g.scalar.add_power(2-g.vertex_degree(v))
         for n in g.neighbors(w):
             if n == v: continue
             r = 0.6*g.row(w) + 0.4*g.row(n)
-- 
2.43.0


From 34bb2f558a2da597a7089a62c13789e5bee98379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:24 +0000
Subject: [PATCH 085/151] fix: the editor no longer adds Z identities inside W
 nodes

---
 pyzx/editor_actions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/editor_actions.py b/pyzx/editor_actions.py
index 0b70a43..04239ac 100644
--- a/pyzx/editor_actions.py
+++ b/pyzx/editor_actions.py
@@ -154,7 +154,7 @@ def match_edge(
         ) -> List[ET]:
     if edgef is not None: candidates = set([e for e in g.edges() if edgef(e)])
     else: candidates = g.edge_set()
-    return list(candidates)
+    return [e for e in candidates if g.edge_type(e) != EdgeType.W_IO]
 
 
 def euler_expansion(g: BaseGraph[VT,ET], 
-- 
2.43.0


From 770726e7c680722fb10ceea778357a6c051971d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:24 +0000
Subject: [PATCH 086/151] fix: scalar of pushing a Pauli through an arity 3
 H-box in the editor

---
 pyzx/editor_actions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/editor_actions.py b/pyzx/editor_actions.py
index 04239ac..a1e1e05 100644
--- a/pyzx/editor_actions.py
+++ b/pyzx/editor_actions.py
@@ -131,6 +131,7 @@ def pauli_push(g: BaseGraph[VT,ET],
         if not vertex_is_zx(g.type(v)): # v is H_BOX
             if len(new_verts) == 2:
                 etab[upair(new_verts[0],new_verts[1])] = [0,1]
+                g.scalar.add_power(1) # sqrt(2) difference between an H-box and an H-edge
             else:
                 r = (g.row(v) + sum(g.row(n) for n in new_verts)) / (len(new_verts) + 1)
                 q = (g.qubit(v) + sum(g.qubit(n) for n in new_verts))/(len(new_verts)+1)
-- 
2.43.0


From c1f4dc6cb2df5fe9020955272bdec7868ab86f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:24 +0000
Subject: [PATCH 087/151] fix: the editor pushed overlapping Paulis at once

---
 pyzx/editor_actions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyzx/editor_actions.py b/pyzx/editor_actions.py
index a1e1e05..21b6aee 100644
--- a/pyzx/editor_actions.py
+++ b/pyzx/editor_actions.py
@@ -18,7 +18,7 @@
 import json
 from fractions import Fraction
 
-from typing import Callable, Optional, List, Dict, Tuple
+from typing import Callable, Optional, List, Dict, Set, Tuple
 
 from .utils import EdgeType, VertexType, FractionLike
 from .utils import toggle_edge, vertex_is_zx, toggle_vertex
@@ -69,11 +69,12 @@ def pauli_matcher(
     paulis = {v for v in candidates
                 if phases[v] == 1 and vertex_is_zx(types[v])}
     if not paulis: return m
+    taken: Set[VT] = set() # spiders that are no longer available for pushing
     while len(candidates) > 0:
         v = candidates.pop()
         if v in paulis and g.vertex_degree(v) == 2: continue
         for w in g.neighbors(v):
-            if w in paulis: break
+            if w in paulis and w not in taken: break
         else:
             continue
         et = g.edge_type(g.edge(v,w))
@@ -84,6 +85,8 @@ def pauli_matcher(
                 (et == EdgeType.HADAMARD and types[w] == VertexType.Z)))
             ):
             m.append((w,v))
+            taken.update(g.neighbors(v))
+            taken.update(g.neighbors(w))
             candidates.difference_update(g.neighbors(v))
             candidates.difference_update(g.neighbors(w))
     return m
-- 
2.43.0


From b10c875ed26380703d3bf16cd3ed69781d13c5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:58 +0000
Subject: [PATCH 088/151] fix: cliffordT with probabilities that sum to 1 up to
 rounding was refused

---
 pyzx/generate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzx/generate.py b/pyzx/generate.py
index a87dcce..a6b28a1 100644
--- a/pyzx/generate.py
+++ b/pyzx/generate.py
@@ -293,7 +293,8 @@ def cliffordTmeas(
     if p_meas is None: num += 1.0
     else: rest -= p_meas
 
-    if rest < 0: raise ValueError("Probabilities are >1.")
+    if rest < -1e-9: raise ValueError("Probabilities are >1.")
+    rest = max(rest, 0.0) # rounding errors
 
     if p_t is None: p_t = rest / num
     if p_s is None: p_s = rest / num
-- 
2.43.0


From 7e283a6d3beb849159227308fabecb84d222c670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:58 +0000
Subject: [PATCH 089/151] fix: CNOT_HAD_PHASE_circuit on one qubit searched
 forever for a control qubit

---
 pyzx/generate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/generate.py b/pyzx/generate.py
index a6b28a1..fa1a352 100644
--- a/pyzx/generate.py
+++ b/pyzx/generate.py
@@ -153,6 +153,7 @@ def CNOT_HAD_PHASE_circuit(
             if not clifford: c.add_gate("T",random.randrange(qubits))
             else: c.add_gate("S",random.randrange(qubits))
         else:
+            if qubits < 2: raise ValueError("CNOT gates need at least two qubits")
             tgt = random.randrange(qubits)
             while True:
                 ctrl = random.randrange(qubits)
-- 
2.43.0


From 3cbb08d5eb76c39e673c03e78e116506d6541349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:58 +0000
Subject: [PATCH 090/151] fix: generate.cnots listed the outputs in reverse
 order

---
 pyzx/generate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/generate.py b/pyzx/generate.py
index fa1a352..b724dbe 100644
--- a/pyzx/generate.py
+++ b/pyzx/generate.py
@@ -235,7 +235,7 @@ def cnots(qubits: int, depth: int, backend:Optional[str]=None) -> BaseGraph:
     outputs = []
     for i in range(qubits):
         inputs.append(i)
-        outputs.append(v-i-1)
+        outputs.append(v-qubits+i)
 
     g.set_inputs(tuple(inputs))
     g.set_outputs(tuple(outputs))
-- 
2.43.0


From 75362b09f094fac090ea52d55a62ec15e9e341f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:58 +0000
Subject: [PATCH 091/151] fix: a Parity made from a number dropped its leading
 zeros, so that different numbers gave the same parity

---
 pyzx/routing/parity_maps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzx/routing/parity_maps.py b/pyzx/routing/parity_maps.py
index cc6ff94..5c6c76e 100644
--- a/pyzx/routing/parity_maps.py
+++ b/pyzx/routing/parity_maps.py
@@ -139,7 +139,8 @@ class Parity:
 
     def __init__(self, par: Union[str, int, Iterable[Any]], n_qubits: Optional[int] = None):
         if isinstance(par, int):
-            self.parity = [bool(par & (1 << i)) for i in reversed(range(par.bit_length()))]
+            length = par.bit_length() if n_qubits is None else max(n_qubits, par.bit_length())
+            self.parity = [bool(par & (1 << i)) for i in reversed(range(length))]
         elif isinstance(par, str):
             self.parity = [p != "0" for p in par]
         else:
-- 
2.43.0


From fa1630e53a00bc360c01afd482780e7d9525e2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:58 +0000
Subject: [PATCH 092/151] fix: phase_poly_from_gadgets failed on less than 26
 qubits and on more gadgets than parities

---
 pyzx/generate.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyzx/generate.py b/pyzx/generate.py
index b724dbe..550ae63 100644
--- a/pyzx/generate.py
+++ b/pyzx/generate.py
@@ -659,16 +659,15 @@ def phase_poly_from_gadgets(n_qubits: int, n_gadgets: int) -> Circuit:
     :return: A random phase polynomial circuit.
     """
     parities: Set[Parity] = set()
-    if n_gadgets > 2**n_qubits:
-        n_gadgets = n_qubits ^ 3
+    n_gadgets = min(n_gadgets, 2**n_qubits - 1)
     if n_qubits < 26:
         for integer in np.random.choice(
             2**n_qubits - 1, replace=False, size=n_gadgets
         ):
-            parities.add(Parity(integer + 1, n_qubits))
+            parities.add(Parity(int(integer) + 1, n_qubits))
     elif n_qubits < 64:
         while len(parities) < n_gadgets:
-            parities.add(Parity(np.random.randint(1, 2**n_qubits), n_qubits))
+            parities.add(Parity(int(np.random.randint(1, 2**n_qubits)), n_qubits))
     else:
         while len(parities) < n_gadgets:
             par: Parity = Parity([])
-- 
2.43.0


From 905af855c699a4f21d677bed07848a5e29de3425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:48 +0000
Subject: [PATCH 093/151] fix: to_tikz lost the Hadamard on edges to a
 boundary, by not connecting its node

---
 pyzx/tikz.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzx/tikz.py b/pyzx/tikz.py
index 2372726..9b8555e 100644
--- a/pyzx/tikz.py
+++ b/pyzx/tikz.py
@@ -113,6 +113,9 @@ def _to_tikz(g: BaseGraph[VT,ET], draw_scalar:bool = False,
                 t = "        \\node [style={:s}] ({:d}) at ({:.2f}, {:.2f}) {{}};".format(settings.tikz_classes['H'],maxindex+1, x,y)
                 verts.append(t)
                 maxindex += 1
+                edges.append("        \\draw ({:d}) to ({:d});".format(v+idoffset,maxindex))
+                edges.append("        \\draw ({:d}) to ({:d});".format(maxindex,w+idoffset))
+                continue
         elif et == EdgeType.W_IO:
             style = settings.tikz_classes['W-io-edge']
             if style: s += "[style={:s}] ".format(style)
-- 
2.43.0


From 4a6371ef7460cfa5bb9fce6f3e1bd9457e487f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:48 +0000
Subject: [PATCH 094/151] fix: phases given as int and Z-box labels 0, -1 and
 fractions did not survive a TikZ round trip

---
 pyzx/tikz.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pyzx/tikz.py b/pyzx/tikz.py
index 9b8555e..c79eb57 100644
--- a/pyzx/tikz.py
+++ b/pyzx/tikz.py
@@ -84,9 +84,10 @@ def _to_tikz(g: BaseGraph[VT,ET], draw_scalar:bool = False,
                 if ty==VertexType.Z: style = settings.tikz_classes['Z']
                 else: style = settings.tikz_classes['X']
         if ((ty == VertexType.H_BOX or ty == VertexType.Z_BOX) and p == 1) or\
-            (ty != VertexType.H_BOX and p == 0):
+            (ty != VertexType.H_BOX and ty != VertexType.Z_BOX and p == 0):
             phase = ""
-        elif type(p) == Fraction:
+        elif ty != VertexType.Z_BOX and isinstance(p, (int, Fraction)):
+            p = Fraction(p)
             ns = '' if p.numerator == 1 else str(p.numerator)
             dn = '' if p.denominator == 1 else str(p.denominator)
             if dn: phase = r"$\frac{%s\pi}{%s}$" % (ns, dn)
@@ -113,8 +114,10 @@ def _to_tikz(g: BaseGraph[VT,ET], draw_scalar:bool = False,
                 t = "        \\node [style={:s}] ({:d}) at ({:.2f}, {:.2f}) {{}};".format(settings.tikz_classes['H'],maxindex+1, x,y)
                 verts.append(t)
                 maxindex += 1
-                edges.append("        \\draw ({:d}) to ({:d});".format(v+idoffset,maxindex))
-                edges.append("        \\draw ({:d}) to ({:d});".format(maxindex,w+idoffset))
+                style = settings.tikz_classes['edge']
+                if style: s += "[style={:s}] ".format(style)
+                edges.append(s + "({:d}) to ({:d});".format(v+idoffset,maxindex))
+                edges.append(s + "({:d}) to ({:d});".format(maxindex,w+idoffset))
                 continue
         elif et == EdgeType.W_IO:
             style = settings.tikz_classes['W-io-edge']
@@ -292,7 +295,7 @@ def tikz_to_graph(
                     raise ValueError("Node definition %s has invalid phase label" % l)
             else:
                 label = label.replace(r'\pi','').strip()
-                if label == '' or label == '-' or label == '-1':
+                if label == '' or (ty != VertexType.Z_BOX and (label == '-' or label == '-1')):
                     set_phase(v,1)
                 elif label.find(r'\frac') != -1:
                     label = label.replace(r'\frac','').strip()
-- 
2.43.0


From 227dd20c8746ba327a8b0494057f370a8090dc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:01 +0000
Subject: [PATCH 095/151] fix: to_tikz_sequence gave the same node name to
 Hadamards on outputs and the next graph, and failed on empty graphs

---
 pyzx/tikz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/tikz.py b/pyzx/tikz.py
index c79eb57..5a17189 100644
--- a/pyzx/tikz.py
+++ b/pyzx/tikz.py
@@ -143,7 +143,7 @@ def to_tikz_sequence(graphs:List[BaseGraph], draw_scalar:bool=False, maxwidth:Fl
     idoffset = 0
     total_verts, total_edges = [],[]
     for g in graphs:
-        max_index = max(g.vertices()) + 2*g.num_inputs() + 2
+        max_index = max(g.vertices(),default=0) + g.num_edges() + 2
         verts, edges = _to_tikz(g,draw_scalar,xoffset,yoffset,idoffset)
         total_verts.extend(verts)
         total_edges.extend(edges)
-- 
2.43.0


From 53e4d44882567ee767464db1b1eedbd39a63ec02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:18 +0000
Subject: [PATCH 096/151] fix: tikz_to_graph compared positions as text, so
 that overlaps at 0 and -0.00 went unnoticed

---
 pyzx/tikz.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyzx/tikz.py b/pyzx/tikz.py
index 5a17189..46ed615 100644
--- a/pyzx/tikz.py
+++ b/pyzx/tikz.py
@@ -234,7 +234,7 @@ def tikz_to_graph(
 
     g = Graph(backend)
     index_dict: Dict[int,VT] = {} # type: ignore
-    position_dict: Dict[str,List[int]] = {}
+    position_dict: Dict[Tuple[float,float],List[int]] = {}
     for c,l in enumerate(lines[2:]):
         if l == r'\end{pgfonlayer}': break
         # l should look like
@@ -268,16 +268,16 @@ def tikz_to_graph(
             else:
                 raise ValueError("Unknown vertex style '%s' in node definition %s" % (style, l))
 
-        if pos in position_dict:
+        if (x,y) in position_dict:
             if warn_overlap:
-                raise Warning("Vertices %d and %s have same position" % (vid, str(position_dict[pos])))
+                raise Warning("Vertices %d and %s have same position" % (vid, str(position_dict[(x,y)])))
             if fuse_overlap:
-                v = index_dict[position_dict[pos][0]]
+                v = index_dict[position_dict[(x,y)][0]]
             else:
                 v = g.add_vertex(ty,-y,x)
-            position_dict[pos].append(vid)
+            position_dict[(x,y)].append(vid)
         else:
-            position_dict[pos] = [vid]
+            position_dict[(x,y)] = [vid]
             v = g.add_vertex(ty,-y,x)
         index_dict[vid] = v
 
-- 
2.43.0


From d1fa9f0830126eaea6d62dbc90aeeb6e910e1d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:14 +0000
Subject: [PATCH 097/151] fix: to_quimb_tensor ignored that the scalar is zero

---
 pyzx/quimb.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyzx/quimb.py b/pyzx/quimb.py
index 3ddc8a3..835716d 100644
--- a/pyzx/quimb.py
+++ b/pyzx/quimb.py
@@ -74,9 +74,6 @@ def to_quimb_tensor(g: BaseGraph) -> "qtn.TensorNetwork": # type:ignore
                        tags = ("H",) if isHadamard else ("N",))
         tensors.append(t)
 
-    # TODO: This is not taking care of all the stuff that can be in g.scalar
-    # In particular, it doesn't check g.scalar.phasenodes
-    # TODO: This will give the wrong tensor when g.scalar.is_zero == True.
     # Grab the float factor and exponent from the scalar
     phase = g.scalar.phase
     if isinstance(phase, Poly):
@@ -86,6 +83,7 @@ def to_quimb_tensor(g: BaseGraph) -> "qtn.TensorNetwork": # type:ignore
         if isinstance(node, Poly):
             raise NotImplementedError("Quimb does not support symbolic phases")
         scalar_float *= 1 + np.exp(1j * np.pi * node)
+    if g.scalar.is_zero: scalar_float = 0
     scalar_exp = math.log10(math.sqrt(2)) * g.scalar.power2
 
     # If the TN is empty, create a single 0-tensor with scalar factor, otherwise
-- 
2.43.0


From 3a46f31a88142ddca34d60263e47962bffdaa46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:15 +0000
Subject: [PATCH 098/151] fix: to_quimb_tensor lost phaseless spiders without
 legs and left the indices of spiders with at most one leg open

---
 pyzx/quimb.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyzx/quimb.py b/pyzx/quimb.py
index 835716d..0e71129 100644
--- a/pyzx/quimb.py
+++ b/pyzx/quimb.py
@@ -55,14 +55,18 @@ def to_quimb_tensor(g: BaseGraph) -> "qtn.TensorNetwork": # type:ignore
     tensors = []
 
     # Here we have phase tensors corresponding to Z-spiders with only one output and no input.
+    # Legless and one-legged spiders also need one when they have no phase, as otherwise
+    # their index would be missing or be an open index of the network.
     for v in g.vertices():
-        if g.type(v) == VertexType.Z and g.phase(v) != 0:
+        if g.type(v) == VertexType.Z and (g.phase(v) != 0 or g.vertex_degree(v) <= 1):
             phase = g.phase(v)
             if isinstance(phase, Poly):
                 raise NotImplementedError("Quimb does not support symbolic phases")
             tensors.append(qtn.Tensor(data = [1, np.exp(1j * np.pi * phase)],
                                       inds = (f'{v}',),
                                       tags = ("V",)))
+            if g.vertex_degree(v) == 0: # sum over the index of a legless spider
+                tensors[-1] = tensors[-1].sum_reduce(f'{v}')
     
 
     # Hadamard or Kronecker tensors, one for each edge of the diagram.
-- 
2.43.0


From a41e89139190fd05798f0fa327f4b0307287f431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:15 +0000
Subject: [PATCH 099/151] fix: to_quimb_tensor on the multigraph backend

---
 pyzx/quimb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/quimb.py b/pyzx/quimb.py
index 0e71129..1a289a4 100644
--- a/pyzx/quimb.py
+++ b/pyzx/quimb.py
@@ -71,7 +71,7 @@ def to_quimb_tensor(g: BaseGraph) -> "qtn.TensorNetwork": # type:ignore
 
     # Hadamard or Kronecker tensors, one for each edge of the diagram.
     for i, edge in enumerate(g.edges()):
-        x, y = edge
+        x, y = g.edge_st(edge)
         isHadamard = g.edge_type(edge) == EdgeType.HADAMARD
         t = qtn.Tensor(data = qu.hadamard() if isHadamard else np.array([1, 0, 0, 1]).reshape(2, 2),
                        inds = (f'{x}', f'{y}'),
-- 
2.43.0


From 40fb7812e7eaae7446ab5b979e8fc84008c49728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:15 +0000
Subject: [PATCH 100/151] fix: to_quimb_tensor silently treated H-boxes, W
 nodes and Z-boxes as phaseless spiders

---
 pyzx/quimb.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyzx/quimb.py b/pyzx/quimb.py
index 1a289a4..3a02364 100644
--- a/pyzx/quimb.py
+++ b/pyzx/quimb.py
@@ -28,7 +28,7 @@ import importlib
 qu: Any = None
 qtn: Any = None
 
-from .utils import EdgeType, VertexType
+from .utils import EdgeType, VertexType, vertex_is_zx
 from .graph.base import BaseGraph
 from .simplify import to_gh
 from .symbolic import Poly
@@ -49,6 +49,9 @@ def to_quimb_tensor(g: BaseGraph) -> "qtn.TensorNetwork": # type:ignore
     # copying a graph guarantees consecutive indices, which are needed for the tensor net
     g = g.copy()
 
+    if any(not vertex_is_zx(t) and t != VertexType.BOUNDARY for t in g.types().values()):
+        raise NotImplementedError("Only Z- and X-spiders can be converted to a quimb tensor network")
+
     # only Z spiders are handled below
     to_gh(g)
     
-- 
2.43.0


From d2a1fae3f9627517742be997f88f03f782727261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:31 +0000
Subject: [PATCH 101/151] fix: annealing failed when a congruence gave a
 diagram that can not be extracted without simplification

---
 pyzx/local_search/scores.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyzx/local_search/scores.py b/pyzx/local_search/scores.py
index c31653b..d6532d0 100644
--- a/pyzx/local_search/scores.py
+++ b/pyzx/local_search/scores.py
@@ -46,7 +46,13 @@ def g_wgc(g, two_qb_weight=10, g_simplify=False, c_simplify=True):
     if g_simplify:
         full_reduce(g_tmp)
 
-    c = extract_circuit(g_tmp).to_basic_gates()
+    try:
+        c = extract_circuit(g_tmp.copy())
+    except Exception:
+        # the congruences can give diagrams that can only be extracted after simplifying them
+        full_reduce(g_tmp)
+        c = extract_circuit(g_tmp)
+    c = c.to_basic_gates()
 
     if c_simplify:
         c = basic_optimization(c)
-- 
2.43.0


From 478bfc48f2d57fcff678879d843ed3117f5716a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:31 +0000
Subject: [PATCH 102/151] fix: local search failed on diagrams without a place
 to apply a congruence

---
 pyzx/local_search/congruences.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzx/local_search/congruences.py b/pyzx/local_search/congruences.py
index ee509b1..057dccf 100644
--- a/pyzx/local_search/congruences.py
+++ b/pyzx/local_search/congruences.py
@@ -147,6 +147,7 @@ def apply_rand_lc(g, weight_func=uniform_weights):
     """Applies local complementation to randomly selected spider"""
 
     lc_vs = [v for v in g.vertices() if is_lc_vertex(g, v)]
+    if not lc_vs: return
     weights = weight_func(g, lc_vs)
     lc_v = np.random.choice(lc_vs, 1, p=weights)[0]
     lc_cong2(g, lc_v)
@@ -204,8 +205,8 @@ def pivot_cong(g, v1, v2):
 def apply_rand_pivot(g, weight_func=uniform_weights):
     """Applies pivoting to a randomly selected pair of connected spiders"""
 
-    # assumes len(candidates) != 0
     candidates = [e for e in g.edges() if is_pivot_edge(g, e)]
+    if not candidates: return
     weights = weight_func(g, candidates)
     e_idx = np.random.choice(len(candidates), 1, p=weights)[0]
     e = candidates[e_idx]
-- 
2.43.0


From b95431d62c19f58f5cc3716707a4d6f5c07af754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:31 +0000
Subject: [PATCH 103/151] fix: the genetic optimizer returned a mutation of the
 original diagram when no mutant was better

---
 pyzx/local_search/genetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/local_search/genetic.py b/pyzx/local_search/genetic.py
index c347049..7a93748 100644
--- a/pyzx/local_search/genetic.py
+++ b/pyzx/local_search/genetic.py
@@ -175,7 +175,7 @@ class GeneticOptimizer():
         self.mutants = [Mutant(self.c_orig, self.g_orig) for _ in range(self.n_mutants)]
 
         self.update_scores()
-        best_mutant = min(self.mutants, key=lambda m: m.score)
+        best_mutant = deepcopy(min(self.mutants, key=lambda m: m.score))
         best_score = best_mutant.score
 
         gen_scores = [best_score]
-- 
2.43.0


From f0f6719bd32b245ac55ddcd78d212aa92ba35632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:31 +0000
Subject: [PATCH 104/151] fix: the genetic optimizer failed for a single mutant

---
 pyzx/local_search/genetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/local_search/genetic.py b/pyzx/local_search/genetic.py
index 7a93748..f21cdf9 100644
--- a/pyzx/local_search/genetic.py
+++ b/pyzx/local_search/genetic.py
@@ -121,7 +121,7 @@ class GeneticOptimizer():
         if method == "tournament":
             new_mutants = list()
             for _ in range(self.n_mutants):
-                m1, m2 = random.sample(self.mutants, 2)
+                m1, m2 = random.sample(self.mutants, 2) if self.n_mutants > 1 else self.mutants * 2
                 if m1.dead:
                     new_mutants.append(m2)
                 elif m1.score < m2.score: # Reminder: lower is better
-- 
2.43.0


From 8012a38247e8c75ced0a454b86c59ecf95f00589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:20 +0000
Subject: [PATCH 105/151] fix: full_reduce and supplementarity raised
 NotImplementedError on symbolic phases

---
 pyzx/rules.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index 97979ce..4abb2d4 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -587,7 +587,7 @@ def match_pivot_boundary(
                     wrong_match = True
             if len(boundaries) != 1 or wrong_match: # n is not on the boundary,
                 continue             # has too many boundaries or has neighbors of wrong type
-            if phases[n] and hasattr(phases[n], 'denominator') and phases[n].denominator == 2:
+            if not isinstance(phases[n], Poly) and phases[n] and phases[n].denominator == 2:
                 w = n
                 bound = boundaries[0]
             if not w:
@@ -850,8 +850,8 @@ def match_phase_gadgets(g: BaseGraph[VT,ET],vertexf:Optional[Callable[[VT],bool]
     outputs = g.outputs()
     # First we find all the phase-gadgets, and the list of vertices they act on
     for v in candidates:
-        non_clifford = phases[v] != 0 and getattr(phases[v], 'denominator', 1) > 2
         if isinstance(phases[v], Poly): non_clifford = True
+        else: non_clifford = phases[v] != 0 and phases[v].denominator > 2
         if non_clifford and len(list(g.neighbors(v)))==1:
             n = list(g.neighbors(v))[0]
             if phases[n] not in (0,1): continue # Not a real phase gadget (happens for scalar diagrams)
@@ -919,7 +919,7 @@ def match_supplementarity(g: BaseGraph[VT,ET], vertexf:Optional[Callable[[VT],bo
     # First we find all the non-Clifford vertices and their list of neighbors
     while len(candidates) > 0:
         v = candidates.pop()
-        if phases[v] == 0 or phases[v].denominator <= 2: continue # Skip Clifford vertices
+        if not isinstance(phases[v], Poly) and phases[v].denominator <= 2: continue # Skip Clifford vertices
         neigh = set(g.neighbors(v))
         if not neigh.isdisjoint(taken): continue
         par = frozenset(neigh)
@@ -936,7 +936,7 @@ def match_supplementarity(g: BaseGraph[VT,ET], vertexf:Optional[Callable[[VT],bo
             if v in taken: continue
         else: parities[par] = [v]
         for w in neigh:
-            if phases[w] == 0 or phases[w].denominator <= 2 or w in taken: continue
+            if w in taken or (not isinstance(phases[w], Poly) and phases[w].denominator <= 2): continue
             diff = neigh.symmetric_difference(g.neighbors(w))
             if len(diff) == 2: # Perfect overlap
                 if (phases[v] + phases[w]) % 2 == 0 or (phases[v] - phases[w]) % 2 == 1:
-- 
2.43.0


From d51d3b821ac601076cacebc2a5c5e15be55edf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:24 +0000
Subject: [PATCH 106/151] fix: local complementation failed on symbolic phases
 that cancelled to a constant

---
 pyzx/rules.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index 4abb2d4..9c28053 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -754,8 +754,7 @@ def lcomp(g: BaseGraph[VT,ET], matches: List[MatchLcompType[VT]]) -> RewriteOutp
     for m in matches:
         a = g.phase(m[0])
         rem.append(m[0])
-        assert isinstance(a,Fraction)  # For mypy
-        if a.numerator == 1: g.scalar.add_phase(Fraction(1,4))
+        if a == Fraction(1,2): g.scalar.add_phase(Fraction(1,4))
         else: g.scalar.add_phase(Fraction(7,4))
         n = len(m[1])
         g.scalar.add_power((n-2)*(n-1)//2)
-- 
2.43.0


From f039c3a120e7cc23da8c0625c167f4e4a5989bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:24 +0000
Subject: [PATCH 107/151] fix: the symbolic constant zero was truthy, giving
 wrong scalars after copying and pivoting

---
 pyzx/symbolic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzx/symbolic.py b/pyzx/symbolic.py
index 8a9afaa..5d65f06 100644
--- a/pyzx/symbolic.py
+++ b/pyzx/symbolic.py
@@ -256,6 +256,9 @@ class Poly:
         if not isinstance(other, Poly): return False
         return set(self.terms) == set(other.terms)
 
+    def __bool__(self) -> bool:
+        return self != 0
+
     def __lt__(self, other: Union['Poly', Fraction, int, float, complex]) -> bool:
         if isinstance(other, (int, float, complex, Fraction)):
             other = Poly([(other, Term([]))])
-- 
2.43.0


From b1275ebbe451408ecdb37ffc6a366a2e2707cac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:00 +0000
Subject: [PATCH 108/151] fix: teleport_reduce raised NotImplementedError on
 symbolic phases

---
 pyzx/simplify.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pyzx/simplify.py b/pyzx/simplify.py
index 94be6b0..3a40386 100644
--- a/pyzx/simplify.py
+++ b/pyzx/simplify.py
@@ -30,7 +30,8 @@ __all__ = ['bialg_simp','spider_simp', 'id_simp', 'phase_free_simp', 'pivot_simp
 from optparse import Option
 from typing import List, Callable, Optional, Union, Generic, Tuple, Dict, Iterator, cast
 
-from .utils import EdgeType, VertexType, toggle_edge, vertex_is_zx, toggle_vertex
+from .utils import EdgeType, VertexType, FractionLike, toggle_edge, vertex_is_zx, toggle_vertex
+from .symbolic import Poly
 from .rules import *
 from .graph.base import BaseGraph, VT, ET
 from .circuit import Circuit
@@ -219,6 +220,11 @@ def teleport_reduce(g: BaseGraph[VT,ET], quiet:bool=True, stats:Optional[Stats]=
     return s.mastergraph
 
 
+def _has_clifford_phase(phase: FractionLike) -> bool:
+    if isinstance(phase, Poly): return phase.is_clifford and not phase.free_vars()
+    return phase.denominator <= 2
+
+
 class Simplifier(Generic[VT, ET]):
     """Class used for :func:`teleport_reduce`."""
     def __init__(self, g: BaseGraph[VT,ET]) -> None:
@@ -240,21 +246,21 @@ class Simplifier(Generic[VT, ET]):
         p2 = self.mastergraph.phase(v2)
         m1 = self.simplifygraph.phase_mult[i1]
         m2 = self.simplifygraph.phase_mult[i2]
-        if (p2 == 0 or p2.denominator <= 2): # Deleted vertex contains Clifford phase
+        if _has_clifford_phase(p2): # Deleted vertex contains Clifford phase
             if v2 in self.phantom_phases:
                 v3,i3 = self.phantom_phases[v2]
                 m2 = cast(Literal[1, -1], m2*self.simplifygraph.phase_mult[i3])
                 v2,i2 = v3,i3
                 p2 = self.mastergraph.phase(v2)
             else: return
-        if (p1 == 0 or p1.denominator <= 2): # Need to save non-Clifford location
+        if _has_clifford_phase(p1): # Need to save non-Clifford location
             self.simplifygraph.phase_mult[i1] = 1
             if v1 in self.phantom_phases: # Already fused with non-Clifford before
                 v3,i3 = self.phantom_phases[v1]
                 self.mastergraph.phase_index[v3] = i1
                 del self.mastergraph.phase_index[v1]
                 p1 = self.mastergraph.phase(v3)
-                if (p1+p2).denominator <= 2:
+                if _has_clifford_phase(p1+p2):
                     del self.phantom_phases[v1]
                 m1 = cast(Literal[1, -1], m1*self.simplifygraph.phase_mult[i3])
                 self.simplifygraph.phase_mult[i1] = m1 # Index i1 now points to v3
@@ -263,7 +269,7 @@ class Simplifier(Generic[VT, ET]):
                 self.phantom_phases[v1] = (v2,i2)
                 self.simplifygraph.phase_mult[i2] = m2
                 return
-        if p1.denominator <= 2 or p2.denominator <= 2: raise Exception("Clifford phases here??")
+        if _has_clifford_phase(p1) or _has_clifford_phase(p2): raise Exception("Clifford phases here??")
         # Both have non-Clifford phase
         if m1*m2 == 1: phase = (p1 + p2)%2
         else: phase = p1 - p2
-- 
2.43.0


From 608025967fe54523f40d20fba6bfb84de6609a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:00 +0000
Subject: [PATCH 109/151] fix: Circuit.from_graph raised NotImplementedError on
 symbolic phases

---
 pyzx/circuit/graphparser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyzx/circuit/graphparser.py b/pyzx/circuit/graphparser.py
index 1ccea9e..4e6e9c1 100644
--- a/pyzx/circuit/graphparser.py
+++ b/pyzx/circuit/graphparser.py
@@ -19,6 +19,7 @@ from typing import Dict, List, Optional
 from . import Circuit
 from .gates import TargetMapper
 from ..utils import EdgeType, VertexType, FloatInt, FractionLike
+from ..symbolic import Poly
 from ..graph import Graph
 from ..graph.base import BaseGraph, VT, ET
 
@@ -52,9 +53,11 @@ def graph_to_circuit(g:BaseGraph[VT,ET], split_phases:bool=True) -> Circuit:
                 c.add_gate("HAD", q)
             if t == VertexType.BOUNDARY: #vertex is an output
                 continue
-            if phase!=0 and not split_phases:
+            if phase!=0 and (not split_phases or isinstance(phase, Poly)):
                 if t == VertexType.Z: c.add_gate("ZPhase", q, phase=phase)
                 else: c.add_gate("XPhase", q, phase=phase)
+            elif phase == 0:
+                pass
             elif t == VertexType.Z and phase.denominator == 2:
                 c.add_gate("S", q, adjoint=(phase.numerator==3))
             elif t == VertexType.Z and phase.denominator == 4:
-- 
2.43.0


From 4863ca57c1733278cd2f7220a065d2279adeeae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:00 +0000
Subject: [PATCH 110/151] fix: composing and tensoring graphs dropped the types
 of the second graph's variables

---
 pyzx/graph/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index ef3bc9a..d7d656b 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -303,6 +303,8 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
                 else EdgeType.SIMPLE))
 
         self.scalar.mult_with_scalar(other.scalar)
+        for name, is_bool in other.variable_types.items():
+            self.variable_types.setdefault(name, is_bool)
         maxr = max((self.row(v) for v in self.vertices()
                     if self.type(v) != VertexType.BOUNDARY), default=0)
         minr = min((other.row(v) for v in other.vertices()
@@ -338,6 +340,8 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
         Can also be called using the operator ``graph1 @ graph2``"""
         g = self.copy()
         g.scalar.mult_with_scalar(other.scalar)
+        for name, is_bool in other.variable_types.items():
+            g.variable_types.setdefault(name, is_bool)
         ts = other.types()
         qs = other.qubits()
         height = max((self.qubits().values()), default=0) + 1
-- 
2.43.0


From 3816cf1cbe6e93338494bd794a3a89282d27a719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:08 +0000
Subject: [PATCH 111/151] fix: scalar of removed isolated spiders that are
 connected to a ground

---
 pyzx/graph/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index d7d656b..b477b1c 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -801,6 +801,8 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
                     raise TypeError("Diagram is not a well-typed ZX-diagram: contains isolated boundary vertex.")
                 elif ty == VertexType.H_BOX:
                     self.scalar.add_phase(self.phase(v))
+                elif self.is_ground(v) and vertex_is_zx(ty):
+                    self.scalar.add_power(1) # The trace of the identity is 2, whatever the phase
                 elif ty == VertexType.Z_BOX:
                     self.scalar.add_float(1 + complex(get_z_box_label(self, v)))
                 elif vertex_is_w(ty):
@@ -820,7 +822,9 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
                 t2 = self.type(w)
                 if t1 == VertexType.H_BOX: t1 = VertexType.Z # 1-ary H-box is just a Z spider
                 if t2 == VertexType.H_BOX: t2 = VertexType.Z
-                if not (vertex_is_zx(t1) and vertex_is_zx(t2)): # There is a Z-box or a W node
+                if (self.is_ground(v) or self.is_ground(w)) and vertex_is_zx(t1) and vertex_is_zx(t2):
+                    self.scalar.add_power(1) # A discarded state of norm 2
+                elif not (vertex_is_zx(t1) and vertex_is_zx(t2)): # There is a Z-box or a W node
                     amps = []
                     for u, t in ((v,t1), (w,t2)):
                         if vertex_is_w(t): amps.append((0, 1)) # 1-ary W node
-- 
2.43.0


From 9ddac11f2cf3d119ad2ed3139cd673decf8901bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:08 +0000
Subject: [PATCH 112/151] fix: gadget pivots dropped the ground of the
 gadgetized spider

---
 pyzx/rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index 9c28053..d5d05ab 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -501,7 +501,7 @@ def match_pivot_gadget(
         elif v1a in (0,1): continue
         # Now v0 has a Pauli phase and v1 has a non-Pauli phase
 
-        if g.is_ground(v0):
+        if g.is_ground(v0) or g.is_ground(v1):
             continue
 
         v0n = list(g.neighbors(v0))
-- 
2.43.0


From 54cc5de388ed2e125f6554ae4cc16b283ca37cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:08 +0000
Subject: [PATCH 113/151] fix: boundary pivots dropped the ground of the spider
 next to the boundary

---
 pyzx/rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index d5d05ab..d3bda45 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -575,7 +575,7 @@ def match_pivot_boundary(
             if n in consumed_vertices:
                 good_vert = False
                 break
-            if g.is_ground(n) in consumed_vertices:
+            if g.is_ground(n): # The ground would be lost in the pivot
                 good_vert = False
                 break
             boundaries: List[VT] = []
-- 
2.43.0


From 40d2683571bd94f759313920ad3e5b1f53b4dfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:08 +0000
Subject: [PATCH 114/151] fix: spiders connected to a ground were treated as
 phase gadgets

---
 pyzx/rules.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index d3bda45..bc89cb9 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -854,6 +854,7 @@ def match_phase_gadgets(g: BaseGraph[VT,ET],vertexf:Optional[Callable[[VT],bool]
         if non_clifford and len(list(g.neighbors(v)))==1:
             n = list(g.neighbors(v))[0]
             if phases[n] not in (0,1): continue # Not a real phase gadget (happens for scalar diagrams)
+            if g.is_ground(v) or g.is_ground(n): continue # Not a real phase gadget
             if n in gadgets: continue # Not a real phase gadget (happens for scalar diagrams)
             if types[v] != VertexType.Z or any(types[w] == VertexType.Z and g.edge_type(g.edge(n,w)) != EdgeType.HADAMARD for w in g.neighbors(n)):
                 continue # Not a real phase gadget (happens for diagrams that are not graph-like)
-- 
2.43.0


From 6c664675a02cdac03d263554f7aa0912c06df382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:28 +0000
Subject: [PATCH 115/151] fix: Circuit.tensor and split_phase_gates dropped the
 bits of the circuit

---
 pyzx/circuit/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/circuit/__init__.py b/pyzx/circuit/__init__.py
index e688f78..99b4d03 100644
--- a/pyzx/circuit/__init__.py
+++ b/pyzx/circuit/__init__.py
@@ -185,7 +185,7 @@ class Circuit(object):
             other = c2
         if not isinstance(other,Circuit):
             raise Exception("Cannot tensor type", type(other), "to Circuit")
-        c = Circuit(self.qubits + other.qubits)
+        c = Circuit(self.qubits + other.qubits, bit_amount=self.bits + other.bits)
         c.gates = [g.copy() for g in self.gates]
         mask = [i+self.qubits for i in range(other.qubits)]
         bit_mask = [i+self.bits for i in range(other.bits)]
@@ -201,7 +201,7 @@ class Circuit(object):
         return c
 
     def split_phase_gates(self) -> 'Circuit':
-        c = Circuit(self.qubits, name=self.name)
+        c = Circuit(self.qubits, name=self.name, bit_amount=self.bits)
         for g in self.gates:
             if isinstance(g, (ZPhase, XPhase)):
                 c.gates.extend(g.split_phases())
-- 
2.43.0


From 309cefc23c4f382479f9aeda69b7ffa15089714c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:28 +0000
Subject: [PATCH 116/151] fix: equal measurement gates compared as different

---
 pyzx/circuit/gates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index b6db2e6..4e44b86 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -1247,7 +1247,7 @@ class Measurement(Gate):
         if not isinstance(other, Measurement): return False
         if self.target != other.target: return False
         if self.result_bit != other.result_bit: return False
-        return False
+        return True
 
     def reposition(self, mask, bit_mask = None):
         g = self.copy()
-- 
2.43.0


From 47080ae4ab98d1128a21f8a44749716059849f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:28 +0000
Subject: [PATCH 117/151] fix: measurements without a result bit could not be
 converted to a graph

---
 pyzx/circuit/gates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index 4e44b86..db6dcac 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -1262,7 +1262,7 @@ class Measurement(Gate):
             DiscardBit(self.result_bit).to_graph(g, q_mapper, c_mapper)
         # Qubit measurement
         r = q_mapper.next_row(self.target)
-        if self.result_bit is None:
+        if self.result_bit is not None:
             r = max(r, c_mapper.next_row(self.result_bit))
         v = self.graph_add_node(g,
             q_mapper,
-- 
2.43.0


From c52a3903ffa3c85b669680139d6ccddc5f5c1b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:56 +0000
Subject: [PATCH 118/151] fix: preparing or post-selecting different ancillas
 compared as equal gates

---
 pyzx/circuit/gates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index db6dcac..4044e8b 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -167,7 +167,7 @@ class Gate(object):
 
     def __eq__(self, other: object) -> bool:
         if type(self) != type(other): return False
-        for a in ["target","control","phase","phases","adjoint"]:
+        for a in ["target","control","phase","phases","adjoint","label"]:
             if hasattr(self,a):
                 if not hasattr(other,a): return False
                 if getattr(self,a) != getattr(other,a): return False
-- 
2.43.0


From aa3c5e0c675641885c75553650f0ba334bfb54ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:47 +0000
Subject: [PATCH 119/151] fix: pyzx opt emptied the circuit file when it could
 not write its format

---
 pyzx/scripts/circ2circ.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzx/scripts/circ2circ.py b/pyzx/scripts/circ2circ.py
index 18cd302..4b61240 100644
--- a/pyzx/scripts/circ2circ.py
+++ b/pyzx/scripts/circ2circ.py
@@ -60,6 +60,9 @@ def main(args):
         return
     else:
         dtype = options.outformat
+    if dtype not in ('qasm', 'qc', 'quipper'):
+        print("Cannot write circuits of type {}. Please specify an output format".format(dtype))
+        sys.exit(1)
     if not options.dest:
         base = os.path.splitext(options.source)[0]
         dest = base + "." + dtype
-- 
2.43.0


From 5c6a3469f00e23a9fda726af0ce98b96d7688cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:47 +0000
Subject: [PATCH 120/151] fix: pyzx opt and pyzx tikz reported success on bad
 input

---
 pyzx/scripts/circ2circ.py | 4 ++--
 pyzx/scripts/circ2tikz.py | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyzx/scripts/circ2circ.py b/pyzx/scripts/circ2circ.py
index 4b61240..6005f06 100644
--- a/pyzx/scripts/circ2circ.py
+++ b/pyzx/scripts/circ2circ.py
@@ -51,13 +51,13 @@ def main(args):
     options = parser.parse_args(args)
     if not os.path.exists(options.source):
         print("File {} does not exist".format(options.source))
-        return
+        sys.exit(1)
     ctype = determine_file_type(options.source)
     if options.outformat == 'match':
         dtype = ctype
     elif options.outformat not in ('qasm', 'qc', 'quipper'):
         print("Unsupported circuit type {}. Please use qasm, qc or quipper".format(options.outformat))
-        return
+        sys.exit(1)
     else:
         dtype = options.outformat
     if dtype not in ('qasm', 'qc', 'quipper'):
diff --git a/pyzx/scripts/circ2tikz.py b/pyzx/scripts/circ2tikz.py
index 1fa5248..e8ecca3 100644
--- a/pyzx/scripts/circ2tikz.py
+++ b/pyzx/scripts/circ2tikz.py
@@ -51,6 +51,7 @@ def main(args):
         source = args[0]
         if not os.path.exists(source):
             print("File '{}' does not exist".format(source))
+            sys.exit(1)
         else:
             basename = os.path.splitext(source)[0]
             target = basename+".tikz"
-- 
2.43.0


From 5eaa35a7712821380048a24563d5da14cd8998a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:47 +0000
Subject: [PATCH 121/151] fix: pyzx opt ignored unknown simplifier names

---
 pyzx/scripts/circ2circ.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzx/scripts/circ2circ.py b/pyzx/scripts/circ2circ.py
index 6005f06..b33a375 100644
--- a/pyzx/scripts/circ2circ.py
+++ b/pyzx/scripts/circ2circ.py
@@ -42,7 +42,8 @@ parser.add_argument('-t',type=str,default='match', dest='outformat',
     help='Specify the output format (qasm, qc, quipper). By default matches the input')
 parser.add_argument('-v',default=False, action='store_true', dest='verbose',
     help='Output verbose information')
-parser.add_argument('-g',type=str,default='full', dest='simp', 
+parser.add_argument('-g',type=str,default='full', dest='simp',
+    choices=['full', 'cliff', 'tele'],
     help='ZX-simplifier to use. Options are full (default), cliff, or tele')
 parser.add_argument('-p',default=False, action='store_true', dest='phasepoly',
     help='Whether to also run the phase-polynomial optimizer (default is false)')
-- 
2.43.0


From 2e8aa187e1239a9b85e63b7fef390cbf901e4dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:47 +0000
Subject: [PATCH 122/151] fix: pyzx cnots ignored the arguments it was called
 with

---
 pyzx/scripts/cnot_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/scripts/cnot_generator.py b/pyzx/scripts/cnot_generator.py
index 6b49273..2388928 100644
--- a/pyzx/scripts/cnot_generator.py
+++ b/pyzx/scripts/cnot_generator.py
@@ -57,7 +57,7 @@ parser.add_argument(
 
 
 def main(args):
-    args = parser.parse_args()
+    args = parser.parse_args(args)
     if args.n_cnots is None:
         parser.error(
             message="Please specify the number of CNOT gates to be generated with the -d flag."
-- 
2.43.0


From 9e014a2fb20a590a34319593e346164b3519d986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:43 +0000
Subject: [PATCH 123/151] fix: pyzx phasepoly could only be called once in a
 process

---
 pyzx/scripts/phase_poly_generator.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pyzx/scripts/phase_poly_generator.py b/pyzx/scripts/phase_poly_generator.py
index eb339c2..2350807 100644
--- a/pyzx/scripts/phase_poly_generator.py
+++ b/pyzx/scripts/phase_poly_generator.py
@@ -27,9 +27,9 @@ if __name__ == "__main__":
     print("Please call this as python -m pyzx phasepoly ...")
     exit()
 
-parser = argparse.ArgumentParser(description=description)
-parser.add_argument("folder", help="The folder where the QASM files should be stored.")
-parser.add_argument(
+base_parser = argparse.ArgumentParser(description=description)
+base_parser.add_argument("folder", help="The folder where the QASM files should be stored.")
+base_parser.add_argument(
     "-q",
     "--n_qubits",
     nargs="+",
@@ -37,7 +37,7 @@ parser.add_argument(
     type=int,
     help="The number of qubits participating in the circuit.",
 )
-parser.add_argument(
+base_parser.add_argument(
     "-m",
     "--n_maps",
     default=1,
@@ -47,6 +47,9 @@ parser.add_argument(
 
 
 def main(args):
+    parser = argparse.ArgumentParser(
+        description=description, parents=[base_parser], add_help=False
+    )
     parser.add_argument(
         "-p",
         "--n_phase_gadgets",
@@ -76,6 +79,9 @@ def main(args):
 
 
 def main_old(args):
+    parser = argparse.ArgumentParser(
+        description=description, parents=[base_parser], add_help=False
+    )
     parser.add_argument(
         "-d",
         "--n_cnots",
-- 
2.43.0


From ac3c559614aba36d82af0af1e880dc4d892da432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:17 +0000
Subject: [PATCH 124/151] fix: map_cnot_circuit returned an empty circuit for
 modes it does not support

---
 pyzx/scripts/circuit_router.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzx/scripts/circuit_router.py b/pyzx/scripts/circuit_router.py
index 10c0f15..8e10cbe 100644
--- a/pyzx/scripts/circuit_router.py
+++ b/pyzx/scripts/circuit_router.py
@@ -1096,6 +1096,8 @@ def map_cnot_circuit(
 
         compiled_circuit = PyQuilCircuit.from_CNOT_tracker(circuit, architecture)
         compiled_circuit.compile()
+    else:
+        raise ValueError(f"Mode {mode} is not supported for mapping a single circuit")
 
     if dest_file is not None:
         compiled_qasm = compiled_circuit.to_qasm()
-- 
2.43.0


From 221a4e1ad4a3a65419acc4a86f4cde8a967f6109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:21 +0000
Subject: [PATCH 125/151] fix: keep the edge type in the JSON form of a
 difference between multigraphs

---
 pyzx/graph/diff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/graph/diff.py b/pyzx/graph/diff.py
index 139c55f..3760f0c 100644
--- a/pyzx/graph/diff.py
+++ b/pyzx/graph/diff.py
@@ -138,7 +138,7 @@ class GraphDiff(Generic[VT, ET]):
 	def to_json(self) -> str:
 		changed_edge_types_str_dict = {}
 		for key, value in self.changed_edge_types.items():
-			changed_edge_types_str_dict[f"{key[0]},{key[1]}"] = value # type: ignore
+			changed_edge_types_str_dict[",".join(str(int(k)) for k in key)] = value # type: ignore
 		changed_phases_str = {k: phase_to_string(v) for k, v in self.changed_phases.items()}
 		changed_vdata = {v: {k: {"phase": phase_to_string(x)} if isinstance(x, (Fraction, Poly)) else x
 			for k, x in data.items()} for v, data in self.changed_vdata.items()}
-- 
2.43.0


From feaa2c26892e41118aec1b7b1605a43f6fd4126c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:21 +0000
Subject: [PATCH 126/151] fix: applying a difference to a multigraph could drop
 parallel edges

---
 pyzx/graph/diff.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyzx/graph/diff.py b/pyzx/graph/diff.py
index 3760f0c..128f344 100644
--- a/pyzx/graph/diff.py
+++ b/pyzx/graph/diff.py
@@ -24,6 +24,7 @@ from ..utils import VertexType, EdgeType, FractionLike, FloatInt
 from ..symbolic import Poly
 from .base import BaseGraph, VT, ET
 from .graph_s import GraphS
+from .multigraph import Multigraph
 from .jsonparser import ComplexDecoder, ComplexEncoder, phase_to_string, string_to_phase
 
 class GraphDiff(Generic[VT, ET]):
@@ -111,8 +112,12 @@ class GraphDiff(Generic[VT, ET]):
 				g.set_phase(v,self.changed_phases[v])
 			if v in self.changed_vdata:
 				g._vdata[v] = dict(self.changed_vdata[v])
+		# The new edges are part of the target as they are, so they should not be simplified while adding them
+		auto_simplify = isinstance(g, Multigraph) and g._auto_simplify
+		if isinstance(g, Multigraph): g.set_auto_simplify(False)
 		for st, ty in self.new_edges:
 			g.add_edge(st,ty)
+		if isinstance(g, Multigraph): g.set_auto_simplify(auto_simplify)
 
 		for v in self.changed_pos:
 			if v in self.new_verts: continue
-- 
2.43.0


From 451722b00945783471384187542f9b6f0e3287ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:50 +0000
Subject: [PATCH 127/151] fix: compare tensors relative to the size of their
 entries

Two unequal tensors were called equal when all their entries were below 1e-8,
which happens for diagrams with about a hundred wires.
---
 pyzx/tensor.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/pyzx/tensor.py b/pyzx/tensor.py
index faa353b..19b4381 100644
--- a/pyzx/tensor.py
+++ b/pyzx/tensor.py
@@ -224,16 +224,18 @@ def compare_tensors(t1: TensorConvertible,t2: TensorConvertible, preserve_scalar
         t1 = t1.to_tensor(preserve_scalar)
     if not isinstance(t2, np.ndarray):
         t2 = t2.to_tensor(preserve_scalar)
-    if np.allclose(t1,t2): return True
-    if preserve_scalar: return False # We do not check for equality up to scalar
     epsilon = 10**-14
-    for i,a in enumerate(t1.flat):
-        if abs(a)>epsilon:
-            if abs(t2.flat[i])<epsilon: return False
-            break
-    else:
+    # The entries of the tensors of large diagrams can be very small or very large,
+    # so how precisely they should agree depends on how big they are.
+    size = max(np.abs(t1).max(), np.abs(t2).max())
+    if size < epsilon or np.allclose(t1,t2,atol=10**-8*size): return True
+    if preserve_scalar: return False # We do not check for equality up to scalar
+    i = np.abs(t1).argmax()
+    a, b = t1.flat[i], t2.flat[i]
+    if abs(a) < epsilon:
         raise ValueError("Tensor is too close to zero")
-    return np.allclose(t1/a,t2/t2.flat[i])
+    if abs(b) < epsilon: return False
+    return np.allclose(t1/a,t2/b)
 
 def find_scalar_correction(t1: TensorConvertible, t2:TensorConvertible) -> complex:
     """Returns the complex number ``z`` such that ``t1 = z*t2``.
@@ -250,12 +252,10 @@ def find_scalar_correction(t1: TensorConvertible, t2:TensorConvertible) -> compl
         t2 = t2.to_tensor(preserve_scalar=True)
 
     epsilon = 10**-14
-    for i,a in enumerate(t1.flat):
-        if abs(a)>epsilon:
-            if abs(t2.flat[i])<epsilon: return 0
-            return a/t2.flat[i]
-
-    return 0
+    i = np.abs(t1).argmax() # the largest entry is the least affected by rounding
+    a, b = t1.flat[i], t2.flat[i]
+    if abs(a) < epsilon or abs(b) < epsilon: return 0
+    return a/b
 
 
 def compose_tensors(t1: np.ndarray, t2: np.ndarray) -> np.ndarray:
-- 
2.43.0


From e2a89f272581f5107fe5eb5826ea1d1d22ee0701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:25 +0000
Subject: [PATCH 128/151] fix: the JSON form of a scalar dropped float factors
 close to 1

---
 pyzx/graph/scalar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/graph/scalar.py b/pyzx/graph/scalar.py
index 537bc19..dd56065 100644
--- a/pyzx/graph/scalar.py
+++ b/pyzx/graph/scalar.py
@@ -179,7 +179,7 @@ class Scalar(object):
 
     def to_json(self) -> str:
         d = {"power2": self.power2, "phase": str(self.phase)}
-        if abs(self.floatfactor - 1) > 0.00001:
+        if self.floatfactor != 1:
             f = complex(self.floatfactor)
             d["floatfactor"] = f.real if f.imag == 0 else str(f)
         if self.phasenodes:
-- 
2.43.0


From 01d7a991a1f48a9aa96479499852ff59244e7183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:45 +0000
Subject: [PATCH 129/151] fix: todd_on_graph treated leaves and hubs that are
 not separate phase gadgets as gadgets

---
 pyzx/todd.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pyzx/todd.py b/pyzx/todd.py
index f8742f6..0039528 100644
--- a/pyzx/todd.py
+++ b/pyzx/todd.py
@@ -448,6 +448,8 @@ def todd_on_graph(g: BaseGraph[VT,ET]) -> None:
     using ancilla qubits."""
     gadgets = {}
     t_nodes = []
+    hubs: Set[VT] = set()
+    variables: Set[VT] = set()
     inputs = g.inputs()
     outputs = g.outputs()
     for v in g.vertices():
@@ -455,17 +457,21 @@ def todd_on_graph(g: BaseGraph[VT,ET]) -> None:
             if g.phase(v) != 0 and g.phase(v).denominator != 4: continue
             n = list(g.neighbors(v))[0]
             tgts = frozenset(set(g.neighbors(n)).difference({v}))
-            gadgets[tgts] = (n,v)
+            # Only proper phase gadgets that do not overlap can be freely replaced
+            if (len(tgts) > 1 and tgts not in gadgets and g.phase(n) == 0
+                and all(g.type(w) == VertexType.Z for w in (n,v,*tgts))
+                and all(g.edge_type(e) == EdgeType.HADAMARD for e in g.incident_edges(n))
+                and not hubs.intersection(tgts | {n}) and not variables.intersection({n,v})):
+                gadgets[tgts] = (n,v)
+                hubs.add(n)
+                variables.update(tgts)
         if g.phase(v) != 0 and g.phase(v).denominator == 4:
             t_nodes.append(v)
     
     if not gadgets:
         print("No phase gadgets found")
         return
-    variables: Set[VT] = set()
-    for par in gadgets.keys():
-        variables.update(par)
-    
+
     for v in variables:
         if v in t_nodes:
             gadgets[frozenset({v})] = (v,v)
-- 
2.43.0


From 120e0cdbfea2c61e15a4eb3f877b745546cd1f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:15 +0000
Subject: [PATCH 130/151] fix: Architecture.shortest_path did not return the
 shortest path

---
 pyzx/routing/architecture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/routing/architecture.py b/pyzx/routing/architecture.py
index 4eaa19a..2df6d6f 100644
--- a/pyzx/routing/architecture.py
+++ b/pyzx/routing/architecture.py
@@ -362,7 +362,7 @@ class Architecture():
   
         while queue != []: 
             
-            node, path = queue.pop() 
+            node, path = queue.pop(0)
             if node == end:
                 return path
             edges = [edge for edge in self.graph.edges() if node in edge]
-- 
2.43.0


From d5436507420b4ce7d8bc9cbb82547dda2c415dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:42 +0000
Subject: [PATCH 131/151] fix: the outputs of a circuit with ancillas were in
 the order of a hash table

---
 pyzx/circuit/graphparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/circuit/graphparser.py b/pyzx/circuit/graphparser.py
index 4e6e9c1..daca229 100644
--- a/pyzx/circuit/graphparser.py
+++ b/pyzx/circuit/graphparser.py
@@ -146,7 +146,7 @@ def circuit_to_graph(c: Circuit, compress_rows:bool=True, backend:Optional[str]=
 
     r = max(q_mapper.max_row(), c_mapper.max_row())
     for mapper in (q_mapper, c_mapper):
-        for l in mapper.labels():
+        for l in sorted(mapper.labels()):
             o = mapper.to_qubit(l)
             v = g.add_vertex(VertexType.BOUNDARY, o, r)
             outputs.append(v)
-- 
2.43.0


From 6544d963c8f8fa96c9863b86b5a690be0aa70b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:04 +0000
Subject: [PATCH 132/151] fix: tensorfy applied the Hadamard of an edge of a W
 node to its other wire

---
 pyzx/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/tensor.py b/pyzx/tensor.py
index 19b4381..2d65d5f 100644
--- a/pyzx/tensor.py
+++ b/pyzx/tensor.py
@@ -167,7 +167,7 @@ def tensorfy(g: 'BaseGraph[VT,ET]', preserve_scalar:bool=True) -> np.ndarray:
                     raise ValueError("Vertex %s has non-ZXH type but is not an input or output" % str(v))
             nn = list(filter(lambda n: n in inputs or rows[n]<r or (rows[n]==r and n<v), neigh)) # TODO: allow ordering on vertex indices?
             ety = {n:g.edge_type(g.edge(v,n)) for n in nn}
-            nn.sort(key=lambda n: ety[n])
+            nn.sort(key=lambda n: ety[n] == EdgeType.HADAMARD)
             for n in nn:
                 if ety[n] == EdgeType.HADAMARD:
                     t = np.tensordot(t,had,(0,0)) # Hadamard edges are moved to the last index of t
-- 
2.43.0


From 0161fae9811dbb51f1c5b0d78780cb191dbb8441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:01 +0000
Subject: [PATCH 133/151] fix: Circuit.add_circuit of a circuit to itself with
 a mask did not terminate

---
 pyzx/circuit/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/circuit/__init__.py b/pyzx/circuit/__init__.py
index 99b4d03..ea989b6 100644
--- a/pyzx/circuit/__init__.py
+++ b/pyzx/circuit/__init__.py
@@ -172,7 +172,7 @@ class Circuit(object):
             raise TypeError("Mask size does not match qubits")
         if len(bit_mask) != circ.bits:
             raise TypeError("Bit mask size does not match bits")
-        for gate in circ.gates:
+        for gate in list(circ.gates): # circ can be this circuit
             g = gate.reposition(mask, bit_mask)
             self.add_gate(g)
 
-- 
2.43.0


From c9dbb84a652b04641c1ec8ba5baefc27f33d7e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:04 +0000
Subject: [PATCH 134/151] fix: account for the global phase of copying and
 bialgebra with symbolic phases

---
 pyzx/basicrules.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyzx/basicrules.py b/pyzx/basicrules.py
index ef69a1d..0981071 100644
--- a/pyzx/basicrules.py
+++ b/pyzx/basicrules.py
@@ -48,6 +48,7 @@ __all__ = ['color_change_diagram',
 from typing import Tuple, List
 from .graph.base import BaseGraph, VT, ET
 from .rules import apply_rule, w_fusion, z_to_z_box
+from .symbolic import Poly
 from .utils import (EdgeType, VertexType, get_w_io, get_z_box_label, is_pauli,
                     set_z_box_label, vertex_is_w, vertex_is_z_like, vertex_is_zx, toggle_vertex, toggle_edge)
 
@@ -110,8 +111,7 @@ def strong_comp(g: BaseGraph[VT,ET], v1: VT, v2: VT) -> bool:
             g.add_edge((n1,n2))
 
     g.scalar.add_power((len(nhd[0]) - 1) * (len(nhd[1]) - 1))
-    if g.phase(v1) == 1 and g.phase(v2) == 1:
-        g.scalar.add_phase(1)
+    g.scalar.add_phase(g.phase(v1) * g.phase(v2))
 
     g.remove_vertex(v1)
     g.remove_vertex(v2)
@@ -133,8 +133,11 @@ def copy_X(g: BaseGraph[VT,ET], v: VT) -> bool:
     if not check_copy_X(g, v): return False
     nv = next(iter(g.neighbors(v)))
     # Any phase of the Z spider only contributes a global phase
-    if g.phase(v) == 1:
-        g.scalar.add_phase(g.phase(nv))
+    phase = g.phase(v)
+    if isinstance(phase, Poly) and len(phase.terms) > 1 and not is_pauli(g.phase(nv)):
+        g.scalar.set_unknown() # Only the parity of the symbolic phase is known
+    else:
+        g.scalar.add_phase(phase * g.phase(nv))
     g.set_phase(nv, 0)
     strong_comp(g, v, nv)
 
-- 
2.43.0


From 6f0a258b04b743dfa1e5756a725692d03a69428c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:46 +0000
Subject: [PATCH 135/151] fix: .qgraph files that mark their boundaries with
 booleans were read with every boundary as both input and output

---
 pyzx/graph/jsonparser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyzx/graph/jsonparser.py b/pyzx/graph/jsonparser.py
index 7ab184a..165c462 100644
--- a/pyzx/graph/jsonparser.py
+++ b/pyzx/graph/jsonparser.py
@@ -136,8 +136,9 @@ def json_to_graph(js: str, backend:Optional[str]=None) -> BaseGraph:
         v = g.add_vertex(VertexType.BOUNDARY,q,r)
         g.set_vdata(v,'name',name)
         names[name] = v
-        if "input" in ann: inputs[v] = ann["input"]
-        if "output" in ann: outputs[v] = ann["output"]
+        # Quantomatic marks every boundary with booleans, instead of with its position
+        if ann.get("input", False) is not False: inputs[v] = ann["input"]
+        if ann.get("output", False) is not False: outputs[v] = ann["output"]
         for key, value in attr['annotation'].items():
             if key in ('boundary','coord','input','output'):
                 continue
-- 
2.43.0


From ba2b001ccb2520e416783e1093fea5143463052e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:46 +0000
Subject: [PATCH 136/151] fix: loading adjacent Hadamard nodes from JSON could
 reuse the name of another vertex

---
 pyzx/graph/jsonparser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyzx/graph/jsonparser.py b/pyzx/graph/jsonparser.py
index 165c462..5cbdc7a 100644
--- a/pyzx/graph/jsonparser.py
+++ b/pyzx/graph/jsonparser.py
@@ -152,7 +152,9 @@ def json_to_graph(js: str, backend:Optional[str]=None) -> BaseGraph:
         n1, n2 = edge['src'], edge['tgt']
         if n1 in hadamards and n2 in hadamards: #Both
             v = g.add_vertex(VertexType.Z)
-            name = "v"+str(len(names))
+            i = len(names)
+            while "v"+str(i) in names or "v"+str(i) in hadamards: i += 1
+            name = "v"+str(i)
             g.set_vdata(v, 'name',name)
             names[name] = v
             hadamards[n1].append(v)
-- 
2.43.0


From ce19c21197fb40e931aca69bc6ed697848205709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:23 +0000
Subject: [PATCH 137/151] fix: Hadamard nodes in .qgraph files made by
 Quantomatic were read as H-boxes without a phase

---
 pyzx/graph/jsonparser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzx/graph/jsonparser.py b/pyzx/graph/jsonparser.py
index 5cbdc7a..1d29ce7 100644
--- a/pyzx/graph/jsonparser.py
+++ b/pyzx/graph/jsonparser.py
@@ -109,6 +109,8 @@ def json_to_graph(js: str, backend:Optional[str]=None) -> BaseGraph:
             else: raise TypeError("unsupported type '{}'".format(d['type']))
             if 'value' in d:
                 g.set_phase(v,string_to_phase(d['value'],g))
+            elif d.get('type') == 'hadamard' and 'is_edge' not in d:
+                g.set_phase(v,Fraction(1)) # A Hadamard node made by Quantomatic, which has no H-boxes
             else:
                 g.set_phase(v,Fraction(0,1))
             if d.get('ground', False):
-- 
2.43.0


From e3533f140ad235a9c2c296ff051bee5b304deb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:52 +0000
Subject: [PATCH 138/151] fix: print odd multiples of sqrt(2)/2 correctly in
 pretty_complex

---
 pyzx/drawing.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pyzx/drawing.py b/pyzx/drawing.py
index d3f4983..923d3c3 100644
--- a/pyzx/drawing.py
+++ b/pyzx/drawing.py
@@ -439,6 +439,12 @@ def strip_brackets(s:str) -> str:
         return s[6:-7]
     return s
 
+def half_sqrt2_multiple(k: int) -> str:
+    """Pretty print k/sqrt(2)."""
+    if k % 2 == 0:
+        return f"{k//2:d}\\sqrt{{2}}"
+    return ("-" if k < 0 else "") + f"\\frac{{{abs(k):d}}}{{\\sqrt{{2}}}}"
+
 def pretty_complex(z: complex) -> str:
     """Pretty print a complex number. Suitable for including in a
     Jupyter widgets Label()."""
@@ -466,8 +472,7 @@ def pretty_complex(z: complex) -> str:
                 if abs(round(a)-a) < 0.0001:
                     out += str(round(a))
                 elif abs(round(a*math.sqrt(2))-a*math.sqrt(2)) < 0.0001:
-                    v = a/math.sqrt(2)
-                    out += f"{round(v):d}\\sqrt{{2}}"
+                    out += half_sqrt2_multiple(round(a*math.sqrt(2)))
                 else:
                     out += f"{a:.2f}".rstrip("0").rstrip(".")
                 real_part = True
@@ -496,8 +501,7 @@ def pretty_complex(z: complex) -> str:
                         if abs(round(b)-b) < 0.0001:
                             out += str(round(b))
                         elif abs(round(b*math.sqrt(2))-b*math.sqrt(2)) < 0.0001:
-                            v = b/math.sqrt(2)
-                            out += f"{round(v):d}\\sqrt{{2}}"
+                            out += half_sqrt2_multiple(round(b*math.sqrt(2)))
                         else:
                             out += f"{b:.2f}".rstrip("0").rstrip(".")
                     out += "i"
@@ -538,8 +542,7 @@ def pretty_complex(z: complex) -> str:
                 if abs(round(r)-r) < 0.0001:
                     out += str(round(r))
                 elif abs(round(r*math.sqrt(2))-r*math.sqrt(2)) < 0.0001:
-                    v = r/math.sqrt(2)
-                    out += f"{round(v):d}\\sqrt{{2}}"
+                    out += half_sqrt2_multiple(round(r*math.sqrt(2)))
                 else:
                     out += f"{r:.2f}".rstrip("0").rstrip(".")
                 if abs(f) > 1:
-- 
2.43.0


From 64e05d5382f9cf53796cf3a477a205da5ab6bae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:07 +0000
Subject: [PATCH 139/151] fix: separate real and imaginary part in
 pretty_complex for negative sums

---
 pyzx/drawing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/drawing.py b/pyzx/drawing.py
index 923d3c3..0017065 100644
--- a/pyzx/drawing.py
+++ b/pyzx/drawing.py
@@ -483,7 +483,7 @@ def pretty_complex(z: complex) -> str:
         else:
             for v,s in special_vals.items():
                 if abs(b-v) < 0.0001:
-                    if b > 0:
+                    if real_part and not s.startswith("-"):
                         out += "+"
                     out += s + "i"
                     imag_part = True
-- 
2.43.0


From df0b5abfa030923e09d178435f174f7790da6704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:19 +0000
Subject: [PATCH 140/151] fix: correct LaTeX of 1/(4*sqrt(2)) in pretty_complex

---
 pyzx/drawing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/drawing.py b/pyzx/drawing.py
index 0017065..8c60560 100644
--- a/pyzx/drawing.py
+++ b/pyzx/drawing.py
@@ -422,7 +422,7 @@ sqrt_vals = {
     math.sqrt(1/2): r"\frac{1}{\sqrt{2}}",
     2*math.sqrt(2): r"2\sqrt{2}",
     math.sqrt(1/2)/2: r"\frac{1}{2\sqrt{2}}",
-    math.sqrt(1/2)/4: r"\frac{1}{2\sqrt{4}}"
+    math.sqrt(1/2)/4: r"\frac{1}{4\sqrt{2}}"
 }
 
 for v,s in simple_vals.items():
-- 
2.43.0


From 73d7b85f1f1e85ca06625b8ca6124a5e9d526580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:03 +0000
Subject: [PATCH 141/151] fix: escape the data draw_d3 hands to the browser

---
 pyzx/drawing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzx/drawing.py b/pyzx/drawing.py
index 8c60560..d914b7f 100644
--- a/pyzx/drawing.py
+++ b/pyzx/drawing.py
@@ -353,6 +353,8 @@ def draw_d3(
         s,t = (str(link['source']), str(link['target']))
         link['num_parallel'] = counts[(s,t)]
     graphj = json.dumps({'nodes': nodes, 'links': links})
+    # This string is put between single quotes in a script element
+    graphj = graphj.replace('\\', '\\\\').replace("'", "\\'").replace('</', '<\\/')
 
     with open(os.path.join(settings.javascript_location, 'zx_viewer.inline.js'), 'r') as f:
         library_code = f.read() + '\n'
-- 
2.43.0


From b2dcbaec3f4e857be134adad4ca577c7da67d0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:45 +0000
Subject: [PATCH 142/151] fix: tikz_to_graph raised IndexError instead of
 ValueError on an empty string

---
 pyzx/tikz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/tikz.py b/pyzx/tikz.py
index 46ed615..087ccd3 100644
--- a/pyzx/tikz.py
+++ b/pyzx/tikz.py
@@ -225,7 +225,7 @@ def tikz_to_graph(
 		at the level of tikz itself, and won't be treated as such in pyzx.
     """
     lines = [l.strip() for l in s.strip().splitlines() if l.strip() != '']
-    if not lines[0].startswith(r'\begin{tikzpicture}'):
+    if not lines or not lines[0].startswith(r'\begin{tikzpicture}'):
         raise ValueError(tikz_error_message)
     if lines[-1] != r'\end{tikzpicture}':
         raise ValueError(tikz_error_message)
-- 
2.43.0


From ac1a4807d720fac5624876dac752a67cdccd9d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:03 +0000
Subject: [PATCH 143/151] fix: the editor could not read back phases with a
 denominator above 256

---
 pyzx/editor.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyzx/editor.py b/pyzx/editor.py
index 2a7e21c..139a9c5 100644
--- a/pyzx/editor.py
+++ b/pyzx/editor.py
@@ -25,10 +25,11 @@ from typing import Callable, Optional, List, Tuple, Set, Dict, Any, Union
 import pyperclip # type: ignore # Needed for clipboard actions
 
 from .utils import EdgeType, VertexType, toggle_edge, vertex_is_zx, toggle_vertex
-from .utils import settings, get_mode, phase_to_s, FloatInt
+from .utils import settings, get_mode, phase_to_s, FloatInt, FractionLike
 from .drawing import matrix_to_latex
 from .graph import Scalar
 from .graph.graph import GraphS
+from .graph.jsonparser import phase_to_string
 from . import rules
 from . import tikz
 
@@ -130,6 +131,11 @@ def s_to_phase(s: str, t:VertexType=VertexType.Z) -> Fraction:
 	if not s: return Fraction(1)
 	return Fraction(int(s))
 
+def phase_to_exact_s(phase: FractionLike, t:VertexType=VertexType.Z) -> str:
+	"""The inverse of `s_to_phase`. In contrast to `phase_to_s`, it never rounds the phase."""
+	if isinstance(phase, Fraction) and phase.denominator > 256: return phase_to_string(phase)
+	return phase_to_s(phase, t)
+
 def graph_to_json(g: GraphS, scale:FloatInt, verts:Optional[List[int]]=None,edges:Optional[List[Tuple[int,int]]]=None) -> str:
 	if verts is None:
 		verts = list(g.vertices())
@@ -139,7 +145,7 @@ def graph_to_json(g: GraphS, scale:FloatInt, verts:Optional[List[int]]=None,edge
 			  'x': (g.row(v) + 1) * scale,
 			  'y': (g.qubit(v) + 2) * scale,
 			  't': g.type(v),
-			  'phase': phase_to_s(g.phase(v),g.type(v)) }
+			  'phase': phase_to_exact_s(g.phase(v),g.type(v)) }
 			 for v in verts]
 	links = [{'source': int(g.edge_s(e)),
 			  'target': int(g.edge_t(e)),
-- 
2.43.0


From 2679aba884d9e7c519dc37cc5aef2cffce88f406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:03 +0000
Subject: [PATCH 144/151] fix: undo in the editor did not restore the labels of
 Z-boxes

---
 pyzx/editor.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/pyzx/editor.py b/pyzx/editor.py
index 139a9c5..01f1f16 100644
--- a/pyzx/editor.py
+++ b/pyzx/editor.py
@@ -25,7 +25,7 @@ from typing import Callable, Optional, List, Tuple, Set, Dict, Any, Union
 import pyperclip # type: ignore # Needed for clipboard actions
 
 from .utils import EdgeType, VertexType, toggle_edge, vertex_is_zx, toggle_vertex
-from .utils import settings, get_mode, phase_to_s, FloatInt, FractionLike
+from .utils import settings, get_mode, phase_to_s, get_z_box_label, set_z_box_label, FloatInt, FractionLike
 from .drawing import matrix_to_latex
 from .graph import Scalar
 from .graph.graph import GraphS
@@ -136,6 +136,18 @@ def phase_to_exact_s(phase: FractionLike, t:VertexType=VertexType.Z) -> str:
 	if isinstance(phase, Fraction) and phase.denominator > 256: return phase_to_string(phase)
 	return phase_to_s(phase, t)
 
+def label_to_json(label: Any) -> Union[None,str,List[float]]:
+	if isinstance(label, Fraction): return str(label)
+	try:
+		c = complex(label)
+	except TypeError: # a symbolic label
+		return None
+	return [c.real, c.imag]
+
+def json_to_label(label: Union[str,List[float]]) -> Any:
+	if isinstance(label, str): return Fraction(label)
+	return complex(label[0], label[1])
+
 def graph_to_json(g: GraphS, scale:FloatInt, verts:Optional[List[int]]=None,edges:Optional[List[Tuple[int,int]]]=None) -> str:
 	if verts is None:
 		verts = list(g.vertices())
@@ -147,6 +159,8 @@ def graph_to_json(g: GraphS, scale:FloatInt, verts:Optional[List[int]]=None,edge
 			  't': g.type(v),
 			  'phase': phase_to_exact_s(g.phase(v),g.type(v)) }
 			 for v in verts]
+	for n in nodes:
+		if n['t'] == VertexType.Z_BOX: n['label'] = label_to_json(get_z_box_label(g, n['name']))
 	links = [{'source': int(g.edge_s(e)),
 			  'target': int(g.edge_t(e)),
 			  't': g.edge_type(e) } for e in edges]
@@ -389,6 +403,8 @@ class ZXEditorWidget(widgets.DOMWidget):
 				self.graph.set_position(v, q, r)
 				self.graph.set_phase(v, phase)
 				self.graph.set_type(v, t)
+				if n.get('label') is not None and t == VertexType.Z_BOX:
+					set_z_box_label(self.graph, v, json_to_label(n['label']))
 			self.graph.remove_vertices(marked)
 			marked = self.graph.edge_set()
 			for e in js["links"]:
@@ -416,7 +432,7 @@ class ZXEditorWidget(widgets.DOMWidget):
 			js = json.loads(change['new'])
 			js['scalar'] = self.graph.scalar.to_json()
 			self.graph_from_json(js)
-			self._undo_stack_add(self.last_operation, json.dumps(js))
+			self._undo_stack_add(self.last_operation, graph_to_json(self.graph, self.graph.scale)) # type: ignore
 		except Exception as e:
 			with self.output: print(traceback.format_exc())
 		
-- 
2.43.0


From d2e0e276acdc037c69a26b14243ef89c810ff9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:03 +0000
Subject: [PATCH 145/151] fix: undo in the editor did not restore deleted
 inputs and outputs

---
 pyzx/editor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyzx/editor.py b/pyzx/editor.py
index 01f1f16..8e761b4 100644
--- a/pyzx/editor.py
+++ b/pyzx/editor.py
@@ -165,7 +165,9 @@ def graph_to_json(g: GraphS, scale:FloatInt, verts:Optional[List[int]]=None,edge
 			  'target': int(g.edge_t(e)),
 			  't': g.edge_type(e) } for e in edges]
 	scalar = g.scalar.to_json()
-	return json.dumps({'nodes': nodes, 'links': links, 'scalar': scalar})
+	inputs = [int(v) for v in g.inputs()]
+	outputs = [int(v) for v in g.outputs()]
+	return json.dumps({'nodes': nodes, 'links': links, 'scalar': scalar, 'inputs': inputs, 'outputs': outputs})
 
 
 @widgets.register
@@ -418,6 +420,8 @@ class ZXEditorWidget(widgets.DOMWidget):
 				else:
 					self.graph.add_edge((s,t),et) # type: ignore
 			self.graph.remove_edges(marked)
+			if 'inputs' in js: self.graph.set_inputs(tuple(js['inputs']))
+			if 'outputs' in js: self.graph.set_outputs(tuple(js['outputs']))
 			if 'scalar' in js:
 				self.graph.scalar = Scalar.from_json(js['scalar'])
 			self._update_matrix()
-- 
2.43.0


From 1b920d6970e24ee8324ead6fe5320aff3c5f7e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:03 +0000
Subject: [PATCH 146/151] fix: the editor showed an outdated matrix after
 pasting

---
 pyzx/editor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/editor.py b/pyzx/editor.py
index 8e761b4..9388f79 100644
--- a/pyzx/editor.py
+++ b/pyzx/editor.py
@@ -364,6 +364,7 @@ class ZXEditorWidget(widgets.DOMWidget):
 		# self.graph_from_json(json.loads(js))
 		self._undo_stack_add("paste",graph_to_json(self.graph,self.graph.scale)) # type: ignore
 		self.update()
+		self._update_matrix()
 		self.graph_selected = graph_to_json(self.graph,self.graph.scale,verts,[]) # type: ignore
 		self.halt_callbacks = False
 		# self._selection_changed(None)
-- 
2.43.0


From 04eca4fe61bc3384942caaaea4ec349b2d7d9603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:57 +0000
Subject: [PATCH 147/151] fix: a rewrite refused halfway in the editor left a
 broken diagram behind

---
 pyzx/editor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzx/editor.py b/pyzx/editor.py
index 9388f79..93c62de 100644
--- a/pyzx/editor.py
+++ b/pyzx/editor.py
@@ -270,6 +270,7 @@ class ZXEditorWidget(widgets.DOMWidget):
 		try:
 			op = change['new']
 			if not op: return
+			before = graph_to_json(self.graph, self.graph.scale) # type: ignore
 			vertex_set, edge_set = self._parse_selection()
 			g = self.graph
 			data = operations[op]
@@ -296,6 +297,8 @@ class ZXEditorWidget(widgets.DOMWidget):
 			self._selection_changed(None)
 		except Exception as e:
 			with self.output: print(traceback.format_exc())
+			self.graph_from_json(json.loads(before)) # the rewrite might have been applied halfway
+			self.button_clicked = ''
 
 	def _perform_action(self, change):
 		try:
-- 
2.43.0


From e0713a6063aa15a4651ec0fd2a4d8b345bdc84d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:16 +0000
Subject: [PATCH 148/151] fix: a double connection between a spider and an
 H-box is the same as a single one

---
 pyzx/graph/graph_s.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzx/graph/graph_s.py b/pyzx/graph/graph_s.py
index 3b605cc..7d55a56 100644
--- a/pyzx/graph/graph_s.py
+++ b/pyzx/graph/graph_s.py
@@ -161,6 +161,9 @@ class GraphS(BaseGraph[int,Tuple[int,int]]):
                     self.scalar.add_power(-2)
                 else:
                     raise ValueError(f'Got unexpected edge types: {t1}, {t2}')
+            elif edgetype == self.graph[s][t] and VertexType.H_BOX in (t1, t2) and \
+                    (VertexType.Z if edgetype == EdgeType.SIMPLE else VertexType.X) in (t1, t2):
+                pass # the spider copies, so a double connection to the H-box is the same as a single one
             else:
                 raise ValueError(f'Attempted to add unreducible parallel edge {edge_pair}, types: {t1}, {t2}')
 
-- 
2.43.0


From 3d1a2169210c7ae85fdefb3026f340d128a0d38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:45 +0000
Subject: [PATCH 149/151] fix: reading a circuit with X spiders joined by a
 Hadamard edge gives an XCX gate

---
 pyzx/circuit/graphparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/circuit/graphparser.py b/pyzx/circuit/graphparser.py
index daca229..9e885ec 100644
--- a/pyzx/circuit/graphparser.py
+++ b/pyzx/circuit/graphparser.py
@@ -80,7 +80,7 @@ def graph_to_circuit(g:BaseGraph[VT,ET], split_phases:bool=True) -> Circuit:
                     if g.edge_type(g.edge(v,n)) != EdgeType.HADAMARD:
                         raise TypeError("Invalid vertical connection between vertices of the same type")
                     if t == VertexType.Z: c.add_gate("CZ", q2, q)
-                    else: c.add_gate("CX", q2, q)
+                    else: c.add_gate("XCX", q2, q)
                 else:
                     if g.edge_type(g.edge(v,n)) != EdgeType.SIMPLE:
                         raise TypeError("Invalid vertical connection between vertices of different type")
-- 
2.43.0


From 57ae526a06255c81896ba75e64726a267c9f1111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:50 +0000
Subject: [PATCH 150/151] fix: a refused edge change leaves the multigraph as
 it was

---
 pyzx/graph/multigraph.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/pyzx/graph/multigraph.py b/pyzx/graph/multigraph.py
index 2546a59..e78dcef 100644
--- a/pyzx/graph/multigraph.py
+++ b/pyzx/graph/multigraph.py
@@ -36,15 +36,14 @@ class Edge:
         self.w_io = w_io
 
     def add(self, s: int=0, h: int=0, w_io: int=0):
-        self.s += s
-        self.h += h
-        self.w_io += w_io
-        if self.s < 0 or self.h < 0:
+        s, h, w_io = self.s + s, self.h + h, self.w_io + w_io
+        if s < 0 or h < 0:
             raise ValueError('Cannot have negative edges')
-        if self.w_io not in (0,1):
+        if w_io not in (0,1):
             raise ValueError('Invalid number of W-IO edges')
-        if self.w_io == 1 and self.s + self.h > 0:
+        if w_io == 1 and s + h > 0:
             raise ValueError('Cannot have W-IO edge and other edges')
+        self.s, self.h, self.w_io = s, h, w_io
 
     def remove(self, s: int=0, h: int=0, w_io: int=0):
         self.add(s=-s, h=-h, w_io=-w_io)
@@ -176,10 +175,11 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
         else:
             e = self.graph[s][t]
 
-        self.nedges -= e.s + e.h + e.w_io
+        nedges = self.nedges - (e.s + e.h + e.w_io)
         if edgetype == EdgeType.SIMPLE: e.add(s=1)
         elif edgetype == EdgeType.HADAMARD: e.add(h=1)
         else: e.add(w_io=1)
+        self.nedges = nedges
 
         if self._auto_simplify:
             t1 = self.ty[s]
@@ -355,12 +355,9 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
         if ty != t:
             e = self.graph[v1][v2]
             # decrement the old type and increment the new type
-            if ty == EdgeType.SIMPLE: e.add(s=-1)
-            elif ty == EdgeType.HADAMARD: e.add(h=-1)
-            else: e.add(w_io=-1)
-            if t == EdgeType.SIMPLE: e.add(s=1)
-            elif t == EdgeType.HADAMARD: e.add(h=1)
-            else: e.add(w_io=1)
+            e.add(s=(t == EdgeType.SIMPLE) - (ty == EdgeType.SIMPLE),
+                  h=(t == EdgeType.HADAMARD) - (ty == EdgeType.HADAMARD),
+                  w_io=(t == EdgeType.W_IO) - (ty == EdgeType.W_IO))
 
     def type(self, vertex):
         return self.ty[vertex]
-- 
2.43.0


From f1402a6ec1e1fdf786116c393bf0a0b163488e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:33 +0000
Subject: [PATCH 151/151] fix: copying a state onto an open wire leaves no
 phase on the end of the wire

---
 pyzx/rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index bc89cb9..3ff9bb4 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -1024,7 +1024,7 @@ def apply_copy(g: BaseGraph[VT,ET], matches: List[MatchCopyType[VT]]) -> Rewrite
                 e = g.edge(w,n)
                 et = g.edge_type(e)
                 g.add_edge((n,u), toggle_edge(et))
-            g.add_to_phase(n, a)
+            else: g.add_to_phase(n, a)
     return ({}, rem, [], True)
 
 MatchPhasePolyType = Tuple[List[VT], Dict[FrozenSet[VT],Union[VT,Tuple[VT,VT]]]]
-- 
2.43.0

