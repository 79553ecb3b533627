From fbda30471608cb54481d1244389ae9e06428ff34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:30 +0000
Subject: [PATCH 01/36] fix: H gate is the Fourier matrix in every dimension
 (was not unitary for d >= 4)

---
 src/qudiet/circuit_library/standard_gates/h.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/qudiet/circuit_library/standard_gates/h.py b/src/qudiet/circuit_library/standard_gates/h.py
index 7ebe9b7..06ba8da 100644
--- a/src/qudiet/circuit_library/standard_gates/h.py
+++ b/src/qudiet/circuit_library/standard_gates/h.py
@@ -28,7 +28,6 @@ from abc import ABC
 from typing import Union
 
 import numpy as np
-from scipy.linalg import circulant
 from scipy.sparse import csr_matrix
 
 from qudiet.circuit_library.standard_gates.quantum_gate import QuantumGate
@@ -73,12 +72,11 @@ class HGate(QuantumGate, ABC):
         _roots_of_unity_build_list[0] = 1
         _roots_of_unity_build_list[self.dims] = -1
         _roots_of_unity = np.roots(_roots_of_unity_build_list)
-        _usable_roots_of_unity = np.delete(_roots_of_unity, len(_roots_of_unity) - 1)
-        _unitary_builder = circulant(_usable_roots_of_unity)
-        _unitary_builder_first_row = np.ones(len(_usable_roots_of_unity))
-        _unitary_first = np.vstack([_unitary_builder_first_row, _unitary_builder])
-        _unitary_first_column = np.ones(len(_usable_roots_of_unity) + 1)
-        _unitary_unnormalized = np.c_[_unitary_first_column, _unitary_first]
+        # np.roots gives the roots in no particular order: sort them by phase
+        _order = np.rint(np.angle(_roots_of_unity) * self.dims / (2 * np.pi))
+        _roots_of_unity = _roots_of_unity[np.argsort(_order % self.dims)]
+        _levels = np.arange(self.dims)
+        _unitary_unnormalized = _roots_of_unity[np.outer(_levels, _levels) % self.dims]
         _unitary = 1 / (math.sqrt(self.dims)) * _unitary_unnormalized
 
         return self.backend.matrix(_unitary)
-- 
2.43.0


From 4abe2db59893c72b9cc0546473d4a8a542d87964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:30 +0000
Subject: [PATCH 02/36] fix: Z gate multiplies level k by exp(2 pi i k/d)
 (roots were used in arbitrary order)

---
 src/qudiet/circuit_library/standard_gates/z.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qudiet/circuit_library/standard_gates/z.py b/src/qudiet/circuit_library/standard_gates/z.py
index c1ea11a..586974f 100644
--- a/src/qudiet/circuit_library/standard_gates/z.py
+++ b/src/qudiet/circuit_library/standard_gates/z.py
@@ -71,8 +71,10 @@ class ZGate(QuantumGate, ABC):
         _roots_of_unity_build_list[0] = 1
         _roots_of_unity_build_list[self.dims] = -1
         _roots_of_unity = np.roots(_roots_of_unity_build_list)
-        _roots_of_unity = np.flipud(_roots_of_unity)
-        _unitary = np.diag(np.flipud(_roots_of_unity))
+        # np.roots gives the roots in no particular order: sort them by phase
+        _order = np.rint(np.angle(_roots_of_unity) * self.dims / (2 * np.pi))
+        _roots_of_unity = _roots_of_unity[np.argsort(_order % self.dims)]
+        _unitary = np.diag(_roots_of_unity)
 
         return self.backend.matrix(_unitary)
 
-- 
2.43.0


From 583e87dc7264396c4232147908bae134820c0514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:30 +0000
Subject: [PATCH 03/36] fix: X gate takes its increment modulo the dimension,
 as CX does

---
 src/qudiet/circuit_library/standard_gates/x.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/circuit_library/standard_gates/x.py b/src/qudiet/circuit_library/standard_gates/x.py
index 722085c..f5633fc 100644
--- a/src/qudiet/circuit_library/standard_gates/x.py
+++ b/src/qudiet/circuit_library/standard_gates/x.py
@@ -69,7 +69,7 @@ class XGate(QuantumGate, ABC):
         :return: The gate unitary
         """
         _unitary_builder = np.zeros(shape=(self.dims, 1))
-        _unitary_builder[self.plus] = 1
+        _unitary_builder[self.plus % self.dims] = 1
         _unitary = self.backend.matrix(circulant(_unitary_builder))
 
         return _unitary
-- 
2.43.0


From 659f795cd607eb0f4b806319d645f3b46cfa9088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:30 +0000
Subject: [PATCH 04/36] fix: probability output is the squared modulus of the
 amplitude

---
 src/qudiet/core/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/core/output.py b/src/qudiet/core/output.py
index abe83d0..c95f17c 100644
--- a/src/qudiet/core/output.py
+++ b/src/qudiet/core/output.py
@@ -70,7 +70,7 @@ class Output:
                         f"|{''.join([str(s) for s in state])}>"
                         if self.output_type == OutputType.print
                         else tuple(state)
-                    ): (d**2 if self.output_method == OutputMethod.probability else d)
+                    ): (abs(d) ** 2 if self.output_method == OutputMethod.probability else d)
                 }
             ]
         return qoutput
-- 
2.43.0


From 7941f0d4b10a82e9de70a811e28764dc2a1ac75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:30 +0000
Subject: [PATCH 05/36] fix: (length, dimension) registers work in output,
 Toffoli, statistics and drawings

---
 src/qudiet/core/quantum_circuit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index e7d06ac..a123631 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -87,6 +87,10 @@ class QuantumCircuit:
         self.backend = DefaultBackend if backend is None else backend
         self.debug_backend = self.backend
 
+        # The (length, dimension) tuple is a shorthand for the list of dimensions
+        if isinstance(qregs, tuple):
+            qregs = qregs[0] * [qregs[1]]
+
         if output is None:
             output = Output(qregs, OutputType.print, OutputMethod.amplitude)
 
-- 
2.43.0


From 20e716c565aed326ddf9ef7162327ae94e48bb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:30 +0000
Subject: [PATCH 06/36] fix: QuantumCircuit copies the lists it is given
 instead of modifying and sharing them

---
 src/qudiet/core/quantum_circuit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index a123631..aa365cf 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -90,6 +90,8 @@ class QuantumCircuit:
         # The (length, dimension) tuple is a shorthand for the list of dimensions
         if isinstance(qregs, tuple):
             qregs = qregs[0] * [qregs[1]]
+        elif isinstance(qregs, list):
+            qregs = list(qregs)
 
         if output is None:
             output = Output(qregs, OutputType.print, OutputMethod.amplitude)
@@ -103,7 +105,7 @@ class QuantumCircuit:
         self.qregs = qregs
         self.cregs = cregs or 0
         self.name = name or ""
-        self.init_states = init_states or []
+        self.init_states = list(init_states or [])
         self.circuit_output = None
 
         self.op_flow = OperatorFlow()
-- 
2.43.0


From aab13fa394932e5025681d4e12f088a34b739497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:30 +0000
Subject: [PATCH 07/36] fix: two-register custom gates and adjacent one-control
 Toffoli are not rejected

---
 src/qudiet/circuit_library/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/circuit_library/__init__.py b/src/qudiet/circuit_library/__init__.py
index fa7d082..dc31039 100644
--- a/src/qudiet/circuit_library/__init__.py
+++ b/src/qudiet/circuit_library/__init__.py
@@ -82,7 +82,7 @@ class ArbitaryGate(QuantumGate, ABC):
             if len(self.dims) == 1:
                 assert self._unitary.shape == (self.dims[0], self.dims[0])
             if len(self.dims) == 2:
-                assert self._unitary.shape == self.dims
+                assert self._unitary.shape == (np.prod(self.dims),) * 2
             if len(self.dims) > 2:
                 # raise Exception(f'The defined gate can have `at most` connected 2 registers. One target and One for Control.')
                 # warnings.warn(f'The defined gate can have `at most` connected 2 registers. One target and One for Control.')
-- 
2.43.0


From ea0bd419cb1b7cbc46e4086a6ab4b54c4e203cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:30 +0000
Subject: [PATCH 08/36] fix: reject negative, out-of-range and repeated
 registers for every gate

---
 src/qudiet/core/quantum_circuit.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index aa365cf..70f7691 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -156,9 +156,11 @@ class QuantumCircuit:
         :param dims: The dimension of the gate
         """
         if type(qreg) is list:
+            if len(set(qreg)) != len(qreg):
+                raise ValueError("A gate cannot act twice on the same register.")
             return [self.__validate_gate_inputs(qreg_i, dims) for qreg_i in qreg]
 
-        if qreg > self._reg_length - 1:
+        if qreg < 0 or qreg > self._reg_length - 1:
             raise ValueError(
                 "Illegal placement of gate. Register specified is out of circuit bounds."
             )
@@ -282,6 +284,7 @@ class QuantumCircuit:
         # # self.op_flow.populate_opflow(DecrMoment("DecrMoment_for_Toffoli", []))
 
         # Density Matrix Based
+        self.__validate_gate_inputs([*qreg[0], qreg[1]], None)
         _toffoligate = Toffoli(
             dims=self.qregs, qreg=qreg, plus=plus, backend=self.backend
         )
@@ -304,6 +307,7 @@ class QuantumCircuit:
         # active_qregs = [
         #     self._reg_dims[qreg] for qreg in [range(acting_on[0], acting_on[1] + 1) if acting_on[0] < acting_on[1] else range(acting_on[1], acting_on[0] + 1)]
         # ]
+        self.__validate_gate_inputs(list(acting_on), dims)
         if acting_on[0] < acting_on[1]:
             active_qregs = self._reg_dims[acting_on[0] : acting_on[1] + 1]
         else:
-- 
2.43.0


From f6703164169052bb5e65d7a97a0c2e625be00cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:30 +0000
Subject: [PATCH 09/36] fix: toffoli reports False when the circuit is already
 measured

---
 src/qudiet/core/quantum_circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index 70f7691..7581259 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -291,7 +291,7 @@ class QuantumCircuit:
 
         _result = self.__add_moment_to_opflow(_toffoligate._acting_on, _toffoligate)
 
-        return True
+        return _result
 
     def cx(
         self, acting_on: "tuple[int, int]", plus: int, dims: Optional[int] = None
-- 
2.43.0


From 2071e88d76de7f24c1f29595b235ee8e92729bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:30 +0000
Subject: [PATCH 10/36] fix: initial levels outside 0..dim-1 are rejected
 (negative ones wrapped around)

---
 src/qudiet/core/init_states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/core/init_states.py b/src/qudiet/core/init_states.py
index 655466c..9de3384 100644
--- a/src/qudiet/core/init_states.py
+++ b/src/qudiet/core/init_states.py
@@ -40,7 +40,7 @@ class InitState:
         :param state: Represents the state in which it is to be initialized.
         :param qreg:   Represents the position of the init state in the circuit.
         """
-        if dim < state or dim < 2:
+        if not 0 <= state < dim or dim < 2:
             raise ValueError("Please check values of dim and state")
         else:
             self.dim = dim
-- 
2.43.0


From 9fbb486cfef419470fd21e8b7ca49cf645cd2990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:30 +0000
Subject: [PATCH 11/36] fix: graphical drawing of CX and Toffoli that do not
 start at register 0

---
 src/qudiet/utility/circuit_draw.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/qudiet/utility/circuit_draw.py b/src/qudiet/utility/circuit_draw.py
index e4a78f1..88053f2 100644
--- a/src/qudiet/utility/circuit_draw.py
+++ b/src/qudiet/utility/circuit_draw.py
@@ -173,15 +173,17 @@ def _draw_toffoli_gate(gate_,i,ax,dpi):
     crtl_,trgt=gate_.acting_on
     crtl=list(crtl_)
     plus=gate_._plus
-    dim=gate_.dims[trgt]
+    dim=gate_.dims[trgt-min(crtl+[trgt])]
     return _draw_cgate('X',crtl,trgt,plus,dim,i,ax,dpi)
 
 def _draw_cnot_gate(gate,i,ax,dpi):
     crtl,trgt=gate.acting_on
     crtl=[crtl]
     plus=gate._plus
-    dim=gate._qreg[trgt]
-    if gate._qreg[crtl[0]]==2 and gate._qreg[trgt]==2:
+    # gate._qreg holds the dimensions from the lowest register of the gate on
+    low=min(crtl[0],trgt)
+    dim=gate._qreg[trgt-low]
+    if gate._qreg[crtl[0]-low]==2 and dim==2:
         return _draw_qubit_cnot_gate(crtl[0],trgt,i,ax,dpi)
     return _draw_cgate('X',crtl,trgt,plus,dim,i,ax,dpi)
 def _draw_x_gate(gate_,i,ax,dpi):
-- 
2.43.0


From 0560456f38fc9834545c3089fb3383450732901f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:15 +0000
Subject: [PATCH 12/36] fix: QASM comments, indentation and commas no longer
 change or break a program

---
 src/qudiet/qasm/qasm_parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index 4b74fae..3420f15 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -39,6 +39,10 @@ def parse_qasm(filename: str, backend: Backend = None):
 
 
 def circuit_from_qasm(_data, backend: Backend = None):
+    # Comments, indentation and commas between operands carry no meaning
+    _data = "\n".join(
+        _line.split("#")[0].replace(",", " ").strip() for _line in _data.split("\n")
+    )
     _data = re.sub(r"\.qubit (\d+)", r".qudit \1", _data)
     _data = re.sub(r"\.qutrit (\d+)", r".qudit \1", _data)
     _data = re.split("\n\.(qudit\s\d+|begin|end)", _data)
-- 
2.43.0


From a5d95e8aff97e249e15bd1d982a6fbdeaf1c7255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:15 +0000
Subject: [PATCH 13/36] fix: QASM dimensions follow the declared qudit index,
 invalid declarations are rejected

---
 src/qudiet/qasm/qasm_parser.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index 3420f15..2157893 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -52,12 +52,18 @@ def circuit_from_qasm(_data, backend: Backend = None):
     _data.pop(1)
     _data.pop(0)
 
-    _data[0] = re.sub(r"qubit x(\d+)", r"qudit x\1 (2)", _data[0])
-    _data[0] = re.sub(r"qutrit x(\d+)", r"qudit x\1 (3)", _data[0])
-
-    _qregs = [
-        int(re.findall("\d+", _dims)[0]) for _dims in re.findall("\d+\)", _data[0])
-    ]
+    _data[0] = re.sub(r"qubit (\w+)", r"qudit \1 (2)", _data[0])
+    _data[0] = re.sub(r"qutrit (\w+)", r"qudit \1 (3)", _data[0])
+
+    _dims = {}
+    for _declaration in filter(None, _data[0].split("\n")):
+        _qudit = re.fullmatch(r"qudit\s+[a-zA-Z]*(\d+)\s*\((\d+)\)", _declaration)
+        if _qudit is None or int(_qudit[1]) in _dims:
+            raise ValueError(f"Invalid declaration: {_declaration}")
+        _dims[int(_qudit[1])] = int(_qudit[2])
+    if sorted(_dims) != list(range(len(_dims))):
+        raise ValueError("The qudits must be numbered from 0 without gaps.")
+    _qregs = [_dims[_index] for _index in sorted(_dims)]
     if backend is None:
         backend = DefaultBackend
 
-- 
2.43.0


From 008715f52056c8f4f2ee42c723994af05a353cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:15 +0000
Subject: [PATCH 14/36] fix: QASM reader rejects unsupported instructions and
 honours lower-case mnemonics

---
 src/qudiet/qasm/qasm_parser.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index 2157893..8aed8d3 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -31,6 +31,12 @@ from qudiet.core.backend.core import Backend
 from qudiet.core.quantum_circuit import QuantumCircuit
 from qudiet.utils.numpy import Nbase_to_bin
 
+_QUDIT = r"\s+[A-Z]*\d+"
+_INSTRUCTION = re.compile(
+    rf"X{_QUDIT}(\s+-?\d+)?|RX{_QUDIT}\s+180|[HZ]{_QUDIT}"
+    rf"|(CX|CNOT){_QUDIT}{_QUDIT}(\s+-?\d+)?|Toffoli({_QUDIT}){{2,}}"
+)
+
 
 def parse_qasm(filename: str, backend: Backend = None):
     with open(filename, "r") as f:
@@ -68,6 +74,8 @@ def circuit_from_qasm(_data, backend: Backend = None):
         backend = DefaultBackend
 
     _gates = list(filter(None, _data[1].split("\n")))
+    # Mnemonics may be written in any case
+    _gates = [_gate.upper().replace("TOFFOLI", "Toffoli") for _gate in _gates]
     _found_tofs = list(filter(lambda s: re.match("^Toffoli", s), _gates))
 
     if _found_tofs:
@@ -93,6 +101,8 @@ def circuit_from_qasm(_data, backend: Backend = None):
     qc = QuantumCircuit(qregs=_qregs, backend=backend)
 
     for _gate in _gates:
+        if not re.fullmatch(_INSTRUCTION, _gate):
+            raise ValueError(f"Unsupported instruction: {_gate}")
         if re.search("^X", _gate) or (
             re.search("^RX", _gate) and re.search("180$", _gate)
         ):
-- 
2.43.0


From 21575cc99973d628bebd2876802eac6019ae8598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:15 +0000
Subject: [PATCH 15/36] fix: QASM RX by 180 is X, not X with increment 180

---
 src/qudiet/qasm/qasm_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index 8aed8d3..0c20202 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -107,7 +107,7 @@ def circuit_from_qasm(_data, backend: Backend = None):
             re.search("^RX", _gate) and re.search("180$", _gate)
         ):
             plus = 1
-            if len(_gate.split()) == 3:
+            if len(_gate.split()) == 3 and not re.search("^RX", _gate):
                 plus = int(_gate.split()[2])
             _gate_qreg = int(re.findall("\d+", _gate.split()[1])[0])
             qc.x(qreg=_gate_qreg, plus=plus)
-- 
2.43.0


From c8b232fc56821714582711ad1a4c7d4cc29c6d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:15 +0000
Subject: [PATCH 16/36] fix: QASM CX keeps the sign of its increment, as X does

---
 src/qudiet/qasm/qasm_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index 0c20202..5772b92 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -126,7 +126,7 @@ def circuit_from_qasm(_data, backend: Backend = None):
                 int(re.findall("\d+", _gate.split()[2])[0]),
             )
             if len(_gate.split()) == 4:
-                _plus = int(re.findall("\d+", _gate.split()[3])[0])
+                _plus = int(_gate.split()[3])
             else:
                 _plus = 1
             qc.cx(acting_on=_gate_qreg, plus=_plus)
-- 
2.43.0


From 34090f287ce70eafda3392b455f7d63d50fa388e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:15 +0000
Subject: [PATCH 17/36] fix: QASM Toffoli accepts any number of controls, not
 exactly two

---
 src/qudiet/qasm/qasm_parser.py | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index 5772b92..8ce5c46 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -79,20 +79,8 @@ def circuit_from_qasm(_data, backend: Backend = None):
     _found_tofs = list(filter(lambda s: re.match("^Toffoli", s), _gates))
 
     if _found_tofs:
-        _toffolis = list(
-            map(
-                int,
-                set(
-                    (
-                        re.sub(
-                            r"Toffoli x\d+[, ]+x(\d+)[, ]+x\d+",
-                            r"\1",
-                            ";".join(_found_tofs),
-                        )
-                    ).split(";")
-                ),
-            )
-        )
+        # The last control of a Toffoli is the operand before the target
+        _toffolis = [int(re.findall(r"\d+", _tof)[-2]) for _tof in _found_tofs]
 
         _qregs = [
             _element + 1 if _index in _toffolis else _element
-- 
2.43.0


From c2acdb1ccf2c09b9ac05c54eac2aa647c55f4916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:15 +0000
Subject: [PATCH 18/36] fix: gates keep their own copy of the register lists
 they are given

---
 src/qudiet/core/quantum_circuit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index 7581259..c80c3e7 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -284,6 +284,7 @@ class QuantumCircuit:
         # # self.op_flow.populate_opflow(DecrMoment("DecrMoment_for_Toffoli", []))
 
         # Density Matrix Based
+        qreg = (list(qreg[0]), qreg[1])
         self.__validate_gate_inputs([*qreg[0], qreg[1]], None)
         _toffoligate = Toffoli(
             dims=self.qregs, qreg=qreg, plus=plus, backend=self.backend
@@ -307,6 +308,7 @@ class QuantumCircuit:
         # active_qregs = [
         #     self._reg_dims[qreg] for qreg in [range(acting_on[0], acting_on[1] + 1) if acting_on[0] < acting_on[1] else range(acting_on[1], acting_on[0] + 1)]
         # ]
+        acting_on = tuple(acting_on)
         self.__validate_gate_inputs(list(acting_on), dims)
         if acting_on[0] < acting_on[1]:
             active_qregs = self._reg_dims[acting_on[0] : acting_on[1] + 1]
@@ -336,6 +338,7 @@ class QuantumCircuit:
                 qreg=qreg, dims=dims or self._reg_dims[qreg], backend=self.backend
             )
         elif type(qreg) is list:
+            qreg = list(qreg)
             _gate = gate(
                 qreg=qreg, dims=dims or [ self._reg_dims[qreg_i] for qreg_i in qreg ], backend=self.backend
             )
-- 
2.43.0


From c9b61be9829519d03b7139b7184cd1a07f9516be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:42 +0000
Subject: [PATCH 19/36] fix: a QASM program may start on its first line

---
 src/qudiet/qasm/qasm_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index 8ce5c46..6e9b884 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -46,7 +46,7 @@ def parse_qasm(filename: str, backend: Backend = None):
 
 def circuit_from_qasm(_data, backend: Backend = None):
     # Comments, indentation and commas between operands carry no meaning
-    _data = "\n".join(
+    _data = "\n" + "\n".join(
         _line.split("#")[0].replace(",", " ").strip() for _line in _data.split("\n")
     )
     _data = re.sub(r"\.qubit (\d+)", r".qudit \1", _data)
-- 
2.43.0


From 0a24333309671c0ce72fb63a7b5334897219107e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:42 +0000
Subject: [PATCH 20/36] fix: licence check rejects a truncated header and keeps
 leading lines together

---
 scripts/license-headers.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/scripts/license-headers.py b/scripts/license-headers.py
index 9aed439..ea5e13a 100644
--- a/scripts/license-headers.py
+++ b/scripts/license-headers.py
@@ -114,10 +114,9 @@ def does_file_need_fix(filepath: str) -> bool:
                 break
             elif line not in lines_to_keep:
                 return True
-        for header_line, line in zip(
-            license_header_lines, chain((first_license_line,), f)
-        ):
-            if line != header_line:
+        lines = chain((first_license_line,), f)
+        for header_line in license_header_lines:
+            if next(lines, None) != header_line:
                 return True
     return False
 
@@ -129,6 +128,8 @@ def add_header_to_file(filepath: str) -> None:
     for i, line in enumerate(lines):
         if line not in lines_to_keep:
             break
+    else:
+        i = len(lines)
     lines = lines[:i] + license_header_lines + lines[i:]
     with open(filepath, mode="w") as f:
         f.truncate()
-- 
2.43.0


From 4f79e084daeb2f6ea1f7d79a4a97058884f329d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:27 +0000
Subject: [PATCH 21/36] fix: a non-square custom gate on three or more
 registers is rejected

---
 src/qudiet/circuit_library/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/circuit_library/__init__.py b/src/qudiet/circuit_library/__init__.py
index dc31039..ba242b6 100644
--- a/src/qudiet/circuit_library/__init__.py
+++ b/src/qudiet/circuit_library/__init__.py
@@ -86,7 +86,7 @@ class ArbitaryGate(QuantumGate, ABC):
             if len(self.dims) > 2:
                 # raise Exception(f'The defined gate can have `at most` connected 2 registers. One target and One for Control.')
                 # warnings.warn(f'The defined gate can have `at most` connected 2 registers. One target and One for Control.')
-                pass
+                assert self._unitary.shape[0] == self._unitary.shape[1]
 
 
         # Qudit Dimesnion, suppose 3, the check if the shape is 3 x 3
-- 
2.43.0


From 4ad24b87955f2c357c4be6bec2403b208a457b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:48 +0000
Subject: [PATCH 22/36] fix: text drawing keeps columns aligned with wide
 labels

---
 src/qudiet/core/quantum_circuit.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index c80c3e7..aba5725 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -500,14 +500,18 @@ class QuantumCircuit:
                         else:
                             draw_matrix[dit][j] = "|"
             
+        # Every column is as wide as its widest cell, so that the cells of a layer stay aligned
+        widths = [max(5, max(len(row[j] or '') for row in draw_matrix)) for j in range(depth+2)]
         for i in range(len(draw_matrix)):
             for j in range(len(draw_matrix[i])):
                 ch = draw_matrix[i][j]
-                if ch != None:
+                if ch != None and j == 0:
+                    ch = ch.ljust(widths[j], '-')
+                elif ch != None:
                     # Adding a little padding on both left and right sides before adding to the circuit drawing looks nicer
                     side = 'left'
-                    if len(ch) < 5:
-                        while len(ch) != 5:
+                    if len(ch) < widths[j]:
+                        while len(ch) != widths[j]:
                             if side == 'right':
                                 ch += '-'
                                 side = 'left'
@@ -515,7 +519,7 @@ class QuantumCircuit:
                                 ch = '-'+ch
                                 side = 'right'
                 else:
-                    ch = '-----'
+                    ch = '-' * widths[j]
                 circuit_drawing += ch
             circuit_drawing += '\n'
         circuit_drawing += f"\ndepth: {self.get_circuit_config()['depth']}, width: {self.get_circuit_config()['width']}"
-- 
2.43.0


From da2969e908781b813fb0ee339c669d462762632b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:56 +0000
Subject: [PATCH 23/36] fix: batch runner survives brackets in file names and
 error messages

---
 experimental.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/experimental.py b/experimental.py
index aa2ef1f..ec2e5e5 100644
--- a/experimental.py
+++ b/experimental.py
@@ -1,5 +1,6 @@
 from xmlrpc.client import boolean
 from rich.console import Console
+from rich.markup import escape
 from qudiet.core import backend
 from src.qudiet.qasm.qasm_parser import parse_qasm
 import argparse, glob, pickle, warnings, time, json
@@ -68,11 +69,11 @@ def main():
 
     files = glob.glob(directory_path, recursive = True)
     console.print(f"File count: [green]{len(files)}[white]")
-    console.print(f"Analyzing files: [green]{'[white], [green]'.join(files)}[white]\n\n")
+    console.print(f"Analyzing files: [green]{'[white], [green]'.join(map(escape, files))}[white]\n\n")
 
     if operate_on in ["txt", "qasm"]:
         for file in files:
-            display = f"[bold green]Working on {file}..."
+            display = f"[bold green]Working on {escape(file)}..."
             if terminal:
                 with console.status(display) as status:
                     routine(file, backend, suffix, verbose)
@@ -110,16 +111,16 @@ def routine(file, backend, suffix, verbose):
         with open(output, "wb") as out_file:
             pickle.dump(result, out_file)
 
-        console.print(f"[bold yellow]---->[white] Result for file [bold green]'{file}': ", result)
+        console.print(f"[bold yellow]---->[white] Result for file [bold green]'{escape(file)}': ", result)
 
         if verbose:
-            console.print(f"[bold]saved in [purple]{output}\n")
+            console.print(f"[bold]saved in [purple]{escape(output)}\n")
 
     except Exception as e: #IndexError as ie:
         # result = ie.args
         # print(f"[x] File '{file}' got exception '{e}'...")
         warnings.warn(f"[x] File '{file}' got exception '{e}'...")
-        console.print(f"[bold red][x][white] File [bold green]'{file}'[white] got exception '{e}'...\n[x]")
+        console.print(f"[bold red][x][white] File [bold green]'{escape(file)}'[white] got exception '{escape(str(e))}'...\n[x]")
 
 # operate_on = "pkl"
 # directory_path = "testbench/tof_qutrit" + "/**/*."+operate_on
-- 
2.43.0


From 39abfe0378a12a533c5675342ebfb91a2f4939be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:56 +0000
Subject: [PATCH 24/36] fix: batch runner takes its directory literally, not as
 a glob pattern

---
 experimental.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental.py b/experimental.py
index ec2e5e5..0c817f6 100644
--- a/experimental.py
+++ b/experimental.py
@@ -65,7 +65,7 @@ def arguments():
 
 def main():
     operate_on, directory_path, verbose, backend, suffix, terminal = arguments()
-    directory_path += "/**/*."+operate_on
+    directory_path = glob.escape(directory_path) + "/**/*."+operate_on
 
     files = glob.glob(directory_path, recursive = True)
     console.print(f"File count: [green]{len(files)}[white]")
-- 
2.43.0


From 7f308cf9aa51b7aaaa2f023d83a37f428a7078de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:49 +0000
Subject: [PATCH 25/36] fix: bin_to_Nbase overflows when the product of the
 bases exceeds 64 bits

---
 src/qudiet/utils/numpy.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/qudiet/utils/numpy.py b/src/qudiet/utils/numpy.py
index 2028918..118e658 100644
--- a/src/qudiet/utils/numpy.py
+++ b/src/qudiet/utils/numpy.py
@@ -38,10 +38,11 @@ def bin_to_Nbase(target, base=2):
     else:
         assert len(target) == len(base)
 
-    # base[0] = 1 # Anything to the power of 0 is 1
-    scale = np.array(base[::-1]).cumprod()
-    scale = [1, *scale[:-1]]
-    return np.sum(scale[::-1] * np.array(target))
+    index = 0
+    for digit, radix in zip(target, base):
+        # Python integers do not overflow, however many digits there are
+        index = index * int(radix) + int(digit)
+    return index
 
 
 def Nbase_to_bin(_repr, base=[2]):
-- 
2.43.0


From 1670f54a6e55a538805430ff667f57dcc9a105ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:17 +0000
Subject: [PATCH 26/36] fix: result listing takes file names literally, not as
 console markup

---
 experimental.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental.py b/experimental.py
index 0c817f6..6ad4c7b 100644
--- a/experimental.py
+++ b/experimental.py
@@ -86,7 +86,7 @@ def main():
         for file in files:
             with open(file, "rb") as out_file:
                 result = pickle.load(out_file)
-                console.print(f"Result for [yellow]'{file.split('/')[-1]}'[white] found:")
+                console.print(f"Result for [yellow]'{escape(file.split('/')[-1])}'[white] found:", emoji=False)
                 console.print(f"\t{result}\n[o]")
     
     pass
-- 
2.43.0


From 5c5201494ba83a946516997e2d3ade9916eb1f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:49 +0000
Subject: [PATCH 27/36] fix: Toffoli and multi-register custom gates say
 whether they are controlled and single-qudit

---
 src/qudiet/circuit_library/__init__.py         |  2 +-
 .../standard_gates/toffoli_utility.py          | 18 +++++++++++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/qudiet/circuit_library/__init__.py b/src/qudiet/circuit_library/__init__.py
index ba242b6..ba1fdad 100644
--- a/src/qudiet/circuit_library/__init__.py
+++ b/src/qudiet/circuit_library/__init__.py
@@ -64,7 +64,7 @@ class ArbitaryGate(QuantumGate, ABC):
         Check if the gate is a single qudit or multi-qudit
         :return: True or False, depending on the scenario
         """
-        return True
+        return isinstance(self.qreg, int) or len(self.qreg) == 1
 
     @property
     def unitary(self) -> csr_matrix:
diff --git a/src/qudiet/circuit_library/standard_gates/toffoli_utility.py b/src/qudiet/circuit_library/standard_gates/toffoli_utility.py
index f894e36..15be0e4 100644
--- a/src/qudiet/circuit_library/standard_gates/toffoli_utility.py
+++ b/src/qudiet/circuit_library/standard_gates/toffoli_utility.py
@@ -82,4 +82,20 @@ class Toffoli(ArbitaryGate):
         self._acting_on = list(range(lb, ub+1)) 
         super().__init__(qreg, [dims[a] for a in self._acting_on], backend)
         self._unitary = _unitary
-        self._plus = plus
\ No newline at end of file
+        self._plus = plus
+
+    @property
+    def is_controlled(self) -> bool:
+        """
+        Check if the gate is controlled or not
+        :return: True or False, depending on the scenario
+        """
+        return True
+
+    @property
+    def is_single_qudit(self) -> bool:
+        """
+        Check if the gate is a single qudit or multi-qudit
+        :return: True or False, depending on the scenario
+        """
+        return False
-- 
2.43.0


From 22a0e66f6563e3e32a1db7e275d7e006956587d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:21 +0000
Subject: [PATCH 28/36] fix: an operator flow keeps every layer pushed into it

Layers after one that joined an earlier layer were dropped when several were
pushed in one call, the second and later gates of a layer whose first gate
joined the last layer were lost, and layers given to the constructor ignored.
---
 src/qudiet/core/operator_flow.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/qudiet/core/operator_flow.py b/src/qudiet/core/operator_flow.py
index 7d4473b..06b893b 100644
--- a/src/qudiet/core/operator_flow.py
+++ b/src/qudiet/core/operator_flow.py
@@ -58,6 +58,8 @@ class OperatorFlow:
 
         self.debug_backend = DefaultBackend
 
+        self.populate_opflow(*args)
+
     def peek(self) -> list:
         """
         Responsible for peeking the list of Moments
@@ -177,6 +179,11 @@ class OperatorFlow:
                 except StopIteration:
                     _qreg = None
 
+                # Only a Moment with nothing else in it can join another one
+                _gates = [g for g in _curr_moment_list if not isinstance(g, IGate)]
+                if len(_gates) != 1:
+                    _qreg = None
+
                 # Loops through the OperatorFlow list, checks if any of the earlier Moment(s) have an IGate.
                 # If yes, replaces it with HGate, XGate or ZGate of the current
                 # Moment.
@@ -203,11 +210,9 @@ class OperatorFlow:
                             _curr_earlier_moment.replace_igate(_curr_moment_list[_qreg])
                             # TODO : replace_igate replaces all the IGates. It needs to replace only the nth IGate (positional IGate)
                         )
-                    if _added_gate_to_earlier_moment:
-                        break
 
                 if _added_gate_to_earlier_moment:
-                    self._opflow_list[_index + 1] = _curr_earlier_moment
+                    self._opflow_list[_index] = _curr_earlier_moment
 
                 # Checks if the current Moment's HGate, XGate or ZGate has been added to any earlier Moment.
                 # If no, takes the last Moment in OperatorFlow list and points it to the current Moment, thereby
-- 
2.43.0


From 3221728f038e6fee49fd5a72e45381240718f18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:21 +0000
Subject: [PATCH 29/36] fix: layers with multi-qudit gates answer which gate is
 on a qudit

---
 src/qudiet/core/moment.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/qudiet/core/moment.py b/src/qudiet/core/moment.py
index 804235a..af3c22c 100644
--- a/src/qudiet/core/moment.py
+++ b/src/qudiet/core/moment.py
@@ -34,6 +34,7 @@ from qudiet.circuit_library.standard_gates.quantum_gate import QuantumGate
 from qudiet.circuit_library.standard_gates.x import XGate
 from qudiet.circuit_library.standard_gates.z import ZGate
 from qudiet.core.init_states import InitState
+from qudiet.utils.linalg import isiterable
 
 
 class Moment:
@@ -82,6 +83,8 @@ class Moment:
             _qregs = gate.acting_on
             if type(_qregs) is int:
                 _qregs = [_qregs]
+            # A Toffoli names its controls and its target
+            _qregs = [r for q in _qregs for r in (q if isiterable(q) else [q])]
             if qreg in _qregs:
                 if index:
                     return gate, i
@@ -127,7 +130,7 @@ class Moment:
         :return: True if replacement occurs, else False
         """
         _qreg = gate_obj.qreg
-        if isinstance(self._moment_list[_qreg], IGate):
+        if isinstance(self.get_qreg_moment(_qreg), IGate):
             return True
         else:
             return False
@@ -141,7 +144,7 @@ class Moment:
         :return: True if replacement occurs, else False
         """
         _qreg = gate_obj.qreg
-        gate, index = self.get_qreg_moment(_qreg, True)
+        gate, index = self.get_qreg_moment(_qreg, True) or (None, None)
         if isinstance(gate, IGate):
             self._moment_list[index] = gate_obj
             return True
-- 
2.43.0


From 06e47b1d1f7c23b1cf6ff70655518166c2bb08b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:41 +0000
Subject: [PATCH 30/36] fix: CX increments beyond 63 bits

---
 src/qudiet/circuit_library/standard_gates/cx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/circuit_library/standard_gates/cx.py b/src/qudiet/circuit_library/standard_gates/cx.py
index d7a3a1e..37288d3 100644
--- a/src/qudiet/circuit_library/standard_gates/cx.py
+++ b/src/qudiet/circuit_library/standard_gates/cx.py
@@ -145,7 +145,7 @@ class CXGate(QuantumGate, ABC):
 
         # apply transform
         # target_change_to = (src_in_truth_table[target_i] + abs(target - plus)) # % target
-        target_change_to = (src_in_truth_table[target_i] + plus) % target
+        target_change_to = (src_in_truth_table[target_i] + plus % target) % target
 
         trgt_in_truth_table = src_in_truth_table.copy()
         trgt_in_truth_table[target_i] = target_change_to
-- 
2.43.0


From 7ff5caae0d7ea71e5d3f0704be59eda8669086aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:41 +0000
Subject: [PATCH 31/36] fix: the batch runner leaves no incomplete result file

---
 experimental.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/experimental.py b/experimental.py
index 6ad4c7b..510fbd5 100644
--- a/experimental.py
+++ b/experimental.py
@@ -3,7 +3,7 @@ from rich.console import Console
 from rich.markup import escape
 from qudiet.core import backend
 from src.qudiet.qasm.qasm_parser import parse_qasm
-import argparse, glob, pickle, warnings, time, json
+import argparse, glob, os, pickle, warnings, time, json
 import pprint
 
 console = Console()
@@ -108,8 +108,16 @@ def routine(file, backend, suffix, verbose):
 
         output = ".".join(file.split(".")[:-1])+"-"+suffix+'.pkl'
 
-        with open(output, "wb") as out_file:
-            pickle.dump(result, out_file)
+        # The file appears under its name only when it is complete
+        partial = os.path.join(os.path.dirname(output), f".{os.getpid()}.part")
+        try:
+            with open(partial, "wb") as out_file:
+                pickle.dump(result, out_file)
+            os.replace(partial, output)
+        except BaseException:
+            if os.path.exists(partial):
+                os.remove(partial)
+            raise
 
         console.print(f"[bold yellow]---->[white] Result for file [bold green]'{escape(file)}': ", result)
 
-- 
2.43.0


From 384d684d8461e98aa36e5dc2ad3a91c41d3f81c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:41 +0000
Subject: [PATCH 32/36] fix: the licence-header tool handles sources in other
 encodings

---
 scripts/license-headers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/license-headers.py b/scripts/license-headers.py
index ea5e13a..89edc8b 100644
--- a/scripts/license-headers.py
+++ b/scripts/license-headers.py
@@ -106,7 +106,7 @@ def does_file_need_fix(filepath: str) -> bool:
         ]
     ):
         return False
-    with open(filepath, mode="r") as f:
+    with open(filepath, mode="r", errors="surrogateescape") as f:
         first_license_line = None
         for line in f:
             if line == license_header_lines[0]:
@@ -122,7 +122,7 @@ def does_file_need_fix(filepath: str) -> bool:
 
 
 def add_header_to_file(filepath: str) -> None:
-    with open(filepath, mode="r") as f:
+    with open(filepath, mode="r", errors="surrogateescape") as f:
         lines = list(f)
     i = 0
     for i, line in enumerate(lines):
@@ -131,7 +131,7 @@ def add_header_to_file(filepath: str) -> None:
     else:
         i = len(lines)
     lines = lines[:i] + license_header_lines + lines[i:]
-    with open(filepath, mode="w") as f:
+    with open(filepath, mode="w", errors="surrogateescape") as f:
         f.truncate()
         f.write("".join(lines))
     print(f"Fixed {os.path.relpath(filepath, os.getcwd())}")
-- 
2.43.0


From d597af1d0610c62746fff4bbf94ded82bdf60eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:41 +0000
Subject: [PATCH 33/36] fix: the licence-header tool never loses a source it
 fails to write

---
 scripts/license-headers.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/scripts/license-headers.py b/scripts/license-headers.py
index 89edc8b..8f06014 100644
--- a/scripts/license-headers.py
+++ b/scripts/license-headers.py
@@ -32,6 +32,7 @@ error out if 'fix' would have changed the file.
 import datetime
 import os
 import re
+import shutil
 import sys
 from itertools import chain
 from typing import Iterator, List
@@ -131,9 +132,17 @@ def add_header_to_file(filepath: str) -> None:
     else:
         i = len(lines)
     lines = lines[:i] + license_header_lines + lines[i:]
-    with open(filepath, mode="w", errors="surrogateescape") as f:
-        f.truncate()
-        f.write("".join(lines))
+    # The file is replaced in one step: its content is there at every moment
+    partial = os.path.join(os.path.dirname(filepath), f".{os.getpid()}.part")
+    try:
+        with open(partial, mode="w", errors="surrogateescape") as f:
+            f.write("".join(lines))
+        shutil.copymode(filepath, partial)
+        os.replace(partial, os.path.realpath(filepath))
+    except BaseException:
+        if os.path.exists(partial):
+            os.remove(partial)
+        raise
     print(f"Fixed {os.path.relpath(filepath, os.getcwd())}")
 
 
-- 
2.43.0


From 4737f73332122fc0685a874c2c6ca63f494467ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:11 +0000
Subject: [PATCH 34/36] fix: a boolean initial level means its integer

---
 src/qudiet/core/init_states.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/qudiet/core/init_states.py b/src/qudiet/core/init_states.py
index 9de3384..39e52f8 100644
--- a/src/qudiet/core/init_states.py
+++ b/src/qudiet/core/init_states.py
@@ -23,6 +23,8 @@
 # along with this program. If not, see <http://www.gnu.org/licenses/>.
 #
 
+import operator
+
 import numpy as np
 from scipy import sparse
 from scipy.sparse import csr_matrix, dok_matrix
@@ -40,6 +42,9 @@ class InitState:
         :param state: Represents the state in which it is to be initialized.
         :param qreg:   Represents the position of the init state in the circuit.
         """
+        # As an index, a boolean would select every level or none
+        state = operator.index(state)
+
         if not 0 <= state < dim or dim < 2:
             raise ValueError("Please check values of dim and state")
         else:
-- 
2.43.0


From d58ae37d6576ed779ac3eec8787141ad9bc445a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:30 +0000
Subject: [PATCH 35/36] fix: a section marker inside a QASM program's body no
 longer hides the lines before or after it

---
 src/qudiet/qasm/qasm_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index 6e9b884..383bd06 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -52,6 +52,9 @@ def circuit_from_qasm(_data, backend: Backend = None):
     _data = re.sub(r"\.qubit (\d+)", r".qudit \1", _data)
     _data = re.sub(r"\.qutrit (\d+)", r".qudit \1", _data)
     _data = re.split("\n\.(qudit\s\d+|begin|end)", _data)
+    # A section given twice would hide the lines of the other one
+    if [_section.split()[0] for _section in _data[1:6:2]] != ["qudit", "begin", "end"]:
+        raise ValueError("A program is one header, one begin and one end, in this order.")
     _data.pop(6)
     _data.pop(5)
     _data.pop(3)
-- 
2.43.0


From 85730bc19ecfa404333a72d12d809280284c2d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:15 +0000
Subject: [PATCH 36/36] fix: the licence-header tool skips a dangling link
 instead of ending with an error

---
 scripts/license-headers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/license-headers.py b/scripts/license-headers.py
index 8f06014..58fc066 100644
--- a/scripts/license-headers.py
+++ b/scripts/license-headers.py
@@ -98,7 +98,7 @@ def find_files_to_fix(sources: List[str]) -> Iterator[str]:
 
 
 def does_file_need_fix(filepath: str) -> bool:
-    if not re.search(r"\.pyi?$", filepath):
+    if not re.search(r"\.pyi?$", filepath) or not os.path.isfile(filepath):
         return False
     if any(
         [
-- 
2.43.0

