From 95e3e7b293cc3f8decfe16ad4ef5d01398055ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:46 +0000
Subject: [PATCH 01/19] fix: make the Hadamard gate unitary for every dimension

The circulant of numerically sorted roots of unity is only the discrete
Fourier matrix for dimensions 2 and 3; from dimension 4 on it is not unitary.
---
 src/qudiet/circuit_library/standard_gates/h.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/qudiet/circuit_library/standard_gates/h.py b/src/qudiet/circuit_library/standard_gates/h.py
index 7ebe9b7..5d7858b 100644
--- a/src/qudiet/circuit_library/standard_gates/h.py
+++ b/src/qudiet/circuit_library/standard_gates/h.py
@@ -28,7 +28,6 @@ from abc import ABC
 from typing import Union
 
 import numpy as np
-from scipy.linalg import circulant
 from scipy.sparse import csr_matrix
 
 from qudiet.circuit_library.standard_gates.quantum_gate import QuantumGate
@@ -69,16 +68,9 @@ class HGate(QuantumGate, ABC):
         This is the gate unitary which shall be used to do any calculation
         :return: The gate unitary
         """
-        _roots_of_unity_build_list = np.zeros(self.dims + 1)
-        _roots_of_unity_build_list[0] = 1
-        _roots_of_unity_build_list[self.dims] = -1
-        _roots_of_unity = np.roots(_roots_of_unity_build_list)
-        _usable_roots_of_unity = np.delete(_roots_of_unity, len(_roots_of_unity) - 1)
-        _unitary_builder = circulant(_usable_roots_of_unity)
-        _unitary_builder_first_row = np.ones(len(_usable_roots_of_unity))
-        _unitary_first = np.vstack([_unitary_builder_first_row, _unitary_builder])
-        _unitary_first_column = np.ones(len(_usable_roots_of_unity) + 1)
-        _unitary_unnormalized = np.c_[_unitary_first_column, _unitary_first]
+        _levels = np.arange(self.dims)
+        _roots_of_unity = np.real_if_close(np.exp(2j * np.pi * _levels / self.dims))
+        _unitary_unnormalized = _roots_of_unity[np.outer(_levels, _levels) % self.dims]
         _unitary = 1 / (math.sqrt(self.dims)) * _unitary_unnormalized
 
         return self.backend.matrix(_unitary)
-- 
2.43.0


From 7b4c7b0301a6f1638369d78ee40cf7851d5562b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:46 +0000
Subject: [PATCH 02/19] fix: give the Z gate its phases in level order

np.roots returns the roots of unity in no useful order, so level j did not
get the phase w^j: not even up to a global phase from dimension 4 on.
---
 src/qudiet/circuit_library/standard_gates/z.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/qudiet/circuit_library/standard_gates/z.py b/src/qudiet/circuit_library/standard_gates/z.py
index c1ea11a..f91cc84 100644
--- a/src/qudiet/circuit_library/standard_gates/z.py
+++ b/src/qudiet/circuit_library/standard_gates/z.py
@@ -67,12 +67,9 @@ class ZGate(QuantumGate, ABC):
         This is the gate unitary which shall be used to do any calculation
         :return: The gate unitary
         """
-        _roots_of_unity_build_list = np.zeros(self.dims + 1)
-        _roots_of_unity_build_list[0] = 1
-        _roots_of_unity_build_list[self.dims] = -1
-        _roots_of_unity = np.roots(_roots_of_unity_build_list)
-        _roots_of_unity = np.flipud(_roots_of_unity)
-        _unitary = np.diag(np.flipud(_roots_of_unity))
+        _levels = np.arange(self.dims)
+        _roots_of_unity = np.real_if_close(np.exp(2j * np.pi * _levels / self.dims))
+        _unitary = np.diag(_roots_of_unity)
 
         return self.backend.matrix(_unitary)
 
-- 
2.43.0


From e0ad206ed3dc85ad3aebe50606c74bcbffa989fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:46 +0000
Subject: [PATCH 03/19] fix: report the squared modulus as probability of a
 complex amplitude

---
 src/qudiet/core/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/core/output.py b/src/qudiet/core/output.py
index abe83d0..c95f17c 100644
--- a/src/qudiet/core/output.py
+++ b/src/qudiet/core/output.py
@@ -70,7 +70,7 @@ class Output:
                         f"|{''.join([str(s) for s in state])}>"
                         if self.output_type == OutputType.print
                         else tuple(state)
-                    ): (d**2 if self.output_method == OutputMethod.probability else d)
+                    ): (abs(d) ** 2 if self.output_method == OutputMethod.probability else d)
                 }
             ]
         return qoutput
-- 
2.43.0


From 74d7ea594a60b5110bcc996bbb2f12808a89ee9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:10 +0000
Subject: [PATCH 04/19] fix: expand the (length, dimension) register shorthand
 everywhere

Only the operators used the expanded dimensions: the output labels, the
Toffoli gate, the width and the drawings read the two numbers of the tuple
as if they were two register dimensions.
---
 src/qudiet/core/quantum_circuit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index e7d06ac..6b253a8 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -87,6 +87,10 @@ class QuantumCircuit:
         self.backend = DefaultBackend if backend is None else backend
         self.debug_backend = self.backend
 
+        if isinstance(qregs, tuple):
+            # (register length, dimension) stands for that many equal registers
+            qregs = qregs[0] * [qregs[1]]
+
         if output is None:
             output = Output(qregs, OutputType.print, OutputMethod.amplitude)
 
-- 
2.43.0


From 3f32f361ce218b55a69cb0348675ea4ebd722fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:10 +0000
Subject: [PATCH 05/19] fix: leave the caller's register and initial state
 lists alone

A short init_states list was padded in place, so the next circuit built from
it got the wrong length; the register list was shared with the circuit.
---
 src/qudiet/core/quantum_circuit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index 6b253a8..36facd5 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -90,6 +90,8 @@ class QuantumCircuit:
         if isinstance(qregs, tuple):
             # (register length, dimension) stands for that many equal registers
             qregs = qregs[0] * [qregs[1]]
+        elif isinstance(qregs, list):
+            qregs = list(qregs)
 
         if output is None:
             output = Output(qregs, OutputType.print, OutputMethod.amplitude)
@@ -103,7 +105,7 @@ class QuantumCircuit:
         self.qregs = qregs
         self.cregs = cregs or 0
         self.name = name or ""
-        self.init_states = init_states or []
+        self.init_states = list(init_states or [])
         self.circuit_output = None
 
         self.op_flow = OperatorFlow()
-- 
2.43.0


From 44c96ba3f84f2bf54262da1be4cf5546f9e59f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:10 +0000
Subject: [PATCH 06/19] fix: reject a negative register instead of dropping the
 gate

---
 src/qudiet/core/quantum_circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index 36facd5..ee785a0 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -158,7 +158,7 @@ class QuantumCircuit:
         if type(qreg) is list:
             return [self.__validate_gate_inputs(qreg_i, dims) for qreg_i in qreg]
 
-        if qreg > self._reg_length - 1:
+        if qreg < 0 or qreg > self._reg_length - 1:
             raise ValueError(
                 "Illegal placement of gate. Register specified is out of circuit bounds."
             )
-- 
2.43.0


From 77f2cf8e3a9710a058cdf97be52a1a0b887b256f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:10 +0000
Subject: [PATCH 07/19] fix: check the registers of controlled gates when they
 are placed

A CX whose control is its own target silently became a non-unitary operator,
and registers out of bounds only failed later, in run().
---
 src/qudiet/core/quantum_circuit.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index ee785a0..c644225 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -282,6 +282,7 @@ class QuantumCircuit:
         # # self.op_flow.populate_opflow(DecrMoment("DecrMoment_for_Toffoli", []))
 
         # Density Matrix Based
+        self.__validate_gate_inputs(list(qreg[0]) + [qreg[1]], None)
         _toffoligate = Toffoli(
             dims=self.qregs, qreg=qreg, plus=plus, backend=self.backend
         )
@@ -304,6 +305,10 @@ class QuantumCircuit:
         # active_qregs = [
         #     self._reg_dims[qreg] for qreg in [range(acting_on[0], acting_on[1] + 1) if acting_on[0] < acting_on[1] else range(acting_on[1], acting_on[0] + 1)]
         # ]
+        self.__validate_gate_inputs(list(acting_on), None)
+        if acting_on[0] == acting_on[1]:
+            raise ValueError("The control and the target must be different registers.")
+
         if acting_on[0] < acting_on[1]:
             active_qregs = self._reg_dims[acting_on[0] : acting_on[1] + 1]
         else:
-- 
2.43.0


From 1fc90ac5c08b9042fb2988ae76b70e8a97e74a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:10 +0000
Subject: [PATCH 08/19] fix: accept only levels 0 to dim - 1 as initial state

---
 src/qudiet/core/init_states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/core/init_states.py b/src/qudiet/core/init_states.py
index 655466c..9de3384 100644
--- a/src/qudiet/core/init_states.py
+++ b/src/qudiet/core/init_states.py
@@ -40,7 +40,7 @@ class InitState:
         :param state: Represents the state in which it is to be initialized.
         :param qreg:   Represents the position of the init state in the circuit.
         """
-        if dim < state or dim < 2:
+        if not 0 <= state < dim or dim < 2:
             raise ValueError("Please check values of dim and state")
         else:
             self.dim = dim
-- 
2.43.0


From b69d7a44470b2836bd3416d67f62f175aa3252bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:10 +0000
Subject: [PATCH 09/19] fix: accept gates that span two registers

The shape of the unitary was compared with the list of the two dimensions,
which never holds, so no such gate could be run: not even a Toffoli whose only
control is next to its target.
---
 src/qudiet/circuit_library/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qudiet/circuit_library/__init__.py b/src/qudiet/circuit_library/__init__.py
index fa7d082..b4cf69c 100644
--- a/src/qudiet/circuit_library/__init__.py
+++ b/src/qudiet/circuit_library/__init__.py
@@ -82,7 +82,8 @@ class ArbitaryGate(QuantumGate, ABC):
             if len(self.dims) == 1:
                 assert self._unitary.shape == (self.dims[0], self.dims[0])
             if len(self.dims) == 2:
-                assert self._unitary.shape == self.dims
+                _dim = self.dims[0] * self.dims[1]
+                assert self._unitary.shape == (_dim, _dim)
             if len(self.dims) > 2:
                 # raise Exception(f'The defined gate can have `at most` connected 2 registers. One target and One for Control.')
                 # warnings.warn(f'The defined gate can have `at most` connected 2 registers. One target and One for Control.')
-- 
2.43.0


From 9c13aae197795bcabee28508afdb19dfaa5f7d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:10 +0000
Subject: [PATCH 10/19] fix: keep the moments that follow a merged one in
 populate_opflow

---
 src/qudiet/core/operator_flow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/core/operator_flow.py b/src/qudiet/core/operator_flow.py
index 7d4473b..5f50aa9 100644
--- a/src/qudiet/core/operator_flow.py
+++ b/src/qudiet/core/operator_flow.py
@@ -204,7 +204,7 @@ class OperatorFlow:
                             # TODO : replace_igate replaces all the IGates. It needs to replace only the nth IGate (positional IGate)
                         )
                     if _added_gate_to_earlier_moment:
-                        break
+                        continue
 
                 if _added_gate_to_earlier_moment:
                     self._opflow_list[_index + 1] = _curr_earlier_moment
-- 
2.43.0


From f61169c24b80e2d5c928f3b2aa68bef88ff44ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:10 +0000
Subject: [PATCH 11/19] fix: take the increment of the X gate modulo the
 dimension

As the CX and Toffoli gates do; an increment of dims or more failed in run().
---
 src/qudiet/circuit_library/standard_gates/x.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/circuit_library/standard_gates/x.py b/src/qudiet/circuit_library/standard_gates/x.py
index 722085c..f5633fc 100644
--- a/src/qudiet/circuit_library/standard_gates/x.py
+++ b/src/qudiet/circuit_library/standard_gates/x.py
@@ -69,7 +69,7 @@ class XGate(QuantumGate, ABC):
         :return: The gate unitary
         """
         _unitary_builder = np.zeros(shape=(self.dims, 1))
-        _unitary_builder[self.plus] = 1
+        _unitary_builder[self.plus % self.dims] = 1
         _unitary = self.backend.matrix(circulant(_unitary_builder))
 
         return _unitary
-- 
2.43.0


From 4698b1608d4ab5e21142905a5ea366cbc3966b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:10 +0000
Subject: [PATCH 12/19] fix: read the angle of an RX line as an angle, not as
 the increment

---
 src/qudiet/qasm/qasm_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index 4b74fae..0787c14 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -87,7 +87,7 @@ def circuit_from_qasm(_data, backend: Backend = None):
             re.search("^RX", _gate) and re.search("180$", _gate)
         ):
             plus = 1
-            if len(_gate.split()) == 3:
+            if re.search("^X", _gate) and len(_gate.split()) == 3:
                 plus = int(_gate.split()[2])
             _gate_qreg = int(re.findall("\d+", _gate.split()[1])[0])
             qc.x(qreg=_gate_qreg, plus=plus)
-- 
2.43.0


From e2eae23339b560bb3c13bee76afaf62c8dc0562e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:10 +0000
Subject: [PATCH 13/19] fix: keep the sign of the increment of a CX line

---
 src/qudiet/qasm/qasm_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index 0787c14..87d1adb 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -106,7 +106,7 @@ def circuit_from_qasm(_data, backend: Backend = None):
                 int(re.findall("\d+", _gate.split()[2])[0]),
             )
             if len(_gate.split()) == 4:
-                _plus = int(re.findall("\d+", _gate.split()[3])[0])
+                _plus = int(re.findall(r"-?\d+", _gate.split()[3])[0])
             else:
                 _plus = 1
             qc.cx(acting_on=_gate_qreg, plus=_plus)
-- 
2.43.0


From 344780770d60b8bf5c39dd905abc752c60fce1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:10 +0000
Subject: [PATCH 14/19] fix: report a Toffoli gate that is refused after the
 measurement

---
 src/qudiet/core/quantum_circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index c644225..e41b1f2 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -289,7 +289,7 @@ class QuantumCircuit:
 
         _result = self.__add_moment_to_opflow(_toffoligate._acting_on, _toffoligate)
 
-        return True
+        return _result
 
     def cx(
         self, acting_on: "tuple[int, int]", plus: int, dims: Optional[int] = None
-- 
2.43.0


From 14b9c4b9c2fc52294b6e59807446506ca9abd215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:10 +0000
Subject: [PATCH 15/19] fix: draw controlled gates that do not start at
 register 0

The dimensions of a controlled gate are kept for the registers it spans, but
were indexed by the register number of the circuit.
---
 src/qudiet/utility/circuit_draw.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/qudiet/utility/circuit_draw.py b/src/qudiet/utility/circuit_draw.py
index e4a78f1..941a4e6 100644
--- a/src/qudiet/utility/circuit_draw.py
+++ b/src/qudiet/utility/circuit_draw.py
@@ -173,15 +173,16 @@ def _draw_toffoli_gate(gate_,i,ax,dpi):
     crtl_,trgt=gate_.acting_on
     crtl=list(crtl_)
     plus=gate_._plus
-    dim=gate_.dims[trgt]
+    dim=gate_.dims[trgt-gate_._acting_on[0]]
     return _draw_cgate('X',crtl,trgt,plus,dim,i,ax,dpi)
 
 def _draw_cnot_gate(gate,i,ax,dpi):
     crtl,trgt=gate.acting_on
     crtl=[crtl]
     plus=gate._plus
-    dim=gate._qreg[trgt]
-    if gate._qreg[crtl[0]]==2 and gate._qreg[trgt]==2:
+    low=min(crtl[0],trgt)
+    dim=gate._qreg[trgt-low]
+    if gate._qreg[crtl[0]-low]==2 and dim==2:
         return _draw_qubit_cnot_gate(crtl[0],trgt,i,ax,dpi)
     return _draw_cgate('X',crtl,trgt,plus,dim,i,ax,dpi)
 def _draw_x_gate(gate_,i,ax,dpi):
-- 
2.43.0


From aef45fe4e9ad63a4524992b439fd8760fd810ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:26 +0000
Subject: [PATCH 16/19] fix: read indented qasm, as the example in the README
 is

---
 src/qudiet/qasm/qasm_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index 87d1adb..6d076ff 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -39,6 +39,7 @@ def parse_qasm(filename: str, backend: Backend = None):
 
 
 def circuit_from_qasm(_data, backend: Backend = None):
+    _data = re.sub(r"\n[ \t]+", "\n", _data)
     _data = re.sub(r"\.qubit (\d+)", r".qudit \1", _data)
     _data = re.sub(r"\.qutrit (\d+)", r".qudit \1", _data)
     _data = re.split("\n\.(qudit\s\d+|begin|end)", _data)
-- 
2.43.0


From 62d51144a0f1e7ef94a120cae1b7048ddad16e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:11 +0000
Subject: [PATCH 17/19] fix: keep the other gates of a moment when one of them
 is merged

---
 src/qudiet/core/operator_flow.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qudiet/core/operator_flow.py b/src/qudiet/core/operator_flow.py
index 5f50aa9..044d660 100644
--- a/src/qudiet/core/operator_flow.py
+++ b/src/qudiet/core/operator_flow.py
@@ -180,8 +180,10 @@ class OperatorFlow:
                 # Loops through the OperatorFlow list, checks if any of the earlier Moment(s) have an IGate.
                 # If yes, replaces it with HGate, XGate or ZGate of the current
                 # Moment.
+                # A moment that holds another gate besides is kept whole, as only one gate would move.
                 _added_gate_to_earlier_moment = False
-                if _qreg is not None:
+                _n_gates = sum(not isinstance(_gate, IGate) for _gate in _curr_moment_list)
+                if _qreg is not None and _n_gates == 1:
                     # for _index, _curr_earlier_moment in enumerate(
                     #     self._opflow_list[1:][::-1]
                     #     # self._opflow_list[1:]
-- 
2.43.0


From 7e0359de537e3ad037a70eb9ef225f419f092a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:59 +0000
Subject: [PATCH 18/19] fix: keep the registers of a gate apart from the
 caller's list

---
 src/qudiet/core/quantum_circuit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index e41b1f2..36532e8 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -284,7 +284,7 @@ class QuantumCircuit:
         # Density Matrix Based
         self.__validate_gate_inputs(list(qreg[0]) + [qreg[1]], None)
         _toffoligate = Toffoli(
-            dims=self.qregs, qreg=qreg, plus=plus, backend=self.backend
+            dims=self.qregs, qreg=(list(qreg[0]), qreg[1]), plus=plus, backend=self.backend
         )
 
         _result = self.__add_moment_to_opflow(_toffoligate._acting_on, _toffoligate)
@@ -315,7 +315,7 @@ class QuantumCircuit:
             active_qregs = self._reg_dims[acting_on[1] : acting_on[0] + 1]
 
         _cxgate = CXGate(
-            qreg=active_qregs, acting_on=acting_on, plus=plus, backend=self.backend
+            qreg=active_qregs, acting_on=tuple(acting_on), plus=plus, backend=self.backend
         )
 
         _result = self.__add_moment_to_opflow(acting_on, _cxgate)
@@ -338,7 +338,7 @@ class QuantumCircuit:
             )
         elif type(qreg) is list:
             _gate = gate(
-                qreg=qreg, dims=dims or [ self._reg_dims[qreg_i] for qreg_i in qreg ], backend=self.backend
+                qreg=list(qreg), dims=dims or [ self._reg_dims[qreg_i] for qreg_i in qreg ], backend=self.backend
             )
         _result = self.__add_moment_to_opflow(qreg, _gate)
         return _result
-- 
2.43.0


From 10bed589b14aee29d81cdf78bb4f8e3a594e404b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:14 +0000
Subject: [PATCH 19/19] fix: draw a Toffoli gate without controls instead of
 failing

---
 src/qudiet/utility/circuit_draw.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/qudiet/utility/circuit_draw.py b/src/qudiet/utility/circuit_draw.py
index 941a4e6..478e09e 100644
--- a/src/qudiet/utility/circuit_draw.py
+++ b/src/qudiet/utility/circuit_draw.py
@@ -30,12 +30,8 @@ def _draw_cgate(name,crtl,trgt,plus,dim,i,ax,dpi):
         width=width/dpi
         left=width/2
     
-        mn=min(crtl)
-        mx=max(crtl)
-        if trgt<mn:
-            mn=trgt
-        if trgt>mx:
-            mx=trgt
+        mn=min(crtl+[trgt])
+        mx=max(crtl+[trgt])
         
         y1 = [y+1 for y in range(mn,mx+1)]
         x1 = [x+left for i in range(len(y1))]
-- 
2.43.0

