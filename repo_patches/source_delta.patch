From 65e5dc62fba60476744d4c33ef4693ae609f51f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 01/70] fix: registers accept labels that are numbers but no
 machine integers

Membership tests raised OverflowError, TypeError or ValueError for integers
of more than 64 bits and for infinite, not-a-number and complex labels.
---
 dwave/gate/registers/cyregister.pyx | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/dwave/gate/registers/cyregister.pyx b/dwave/gate/registers/cyregister.pyx
index c737823..129181d 100644
--- a/dwave/gate/registers/cyregister.pyx
+++ b/dwave/gate/registers/cyregister.pyx
@@ -271,7 +271,12 @@ cdef class cyRegister:
 
     cdef Py_ssize_t _count_int(self, object v) except -1:
         # only works when v is an int
-        cdef Py_ssize_t vi = v
+        cdef Py_ssize_t vi
+        try:
+            vi = v
+        except OverflowError:
+            # too large to be the position of an item, but might still be a label
+            return v in self._label_to_index
 
         if self._is_range():
             return 0 <= vi < self._stop
@@ -291,9 +296,13 @@ cdef class cyRegister:
 
         # handle other numeric types
         if isinstance(v, Number):
-            v_int = int(v)  # assume this is safe because it's a number
-            if v_int == v:
-                return self._count_int(v_int)  # it's an integer afterall!
+            try:
+                v_int = int(v)
+            except (OverflowError, TypeError, ValueError):
+                pass  # infinite, not-a-number or complex; can't be an integer
+            else:
+                if v_int == v:
+                    return self._count_int(v_int)  # it's an integer afterall!
 
         try:
             return v in self._label_to_index
-- 
2.43.0


From 131543f44de9347e60ff21dd9851f0bbcbfacc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 02/70] fix: slice registers by Python's slicing rules

Negative and out-of-range bounds and negative steps gave wrong items or
raised an error, and parameter registers could not be sliced at all.
---
 dwave/gate/registers/cyregister.pyx | 6 ++----
 dwave/gate/registers/registers.py   | 3 +++
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/dwave/gate/registers/cyregister.pyx b/dwave/gate/registers/cyregister.pyx
index 129181d..4872e9b 100644
--- a/dwave/gate/registers/cyregister.pyx
+++ b/dwave/gate/registers/cyregister.pyx
@@ -63,11 +63,9 @@ cdef class cyRegister:
         if not isinstance(idx, slice):
             raise TypeError(f"indices must be integers or slices, not {type(idx)}")
 
-        cdef Py_ssize_t start = 0 if idx.start is None else idx.start
-        cdef Py_ssize_t stop = self.size() if idx.stop is None else idx.stop
-        cdef Py_ssize_t step = 1 if idx.step is None else idx.step
+        cdef Py_ssize_t start, stop, step, i
+        start, stop, step = idx.indices(self.size())
 
-        cdef Py_ssize_t i
         cdef cyRegister new = type(self)()
         for i in range(start, stop, step):
             new._append(self.at(i), permissive=False)
diff --git a/dwave/gate/registers/registers.py b/dwave/gate/registers/registers.py
index 431a100..e1e8d10 100644
--- a/dwave/gate/registers/registers.py
+++ b/dwave/gate/registers/registers.py
@@ -205,6 +205,9 @@ class SelfIncrementingRegister(Register):
         Returns:
             Hashable: The parameter at the specified index.
         """
+        if isinstance(index, slice):
+            return super().__getitem__(index)  # type: ignore
+
         if index >= len(self.data) and not self.frozen:
             self.add([Variable(str(i)) for i in range(len(self.data), index + 1)])
         return super().__getitem__(index)  # type: ignore
-- 
2.43.0


From 1b1c7fd53ec00cc0f0d33c0b2d9c7ce5f024df5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 03/70] fix: copies and sums of registers can be extended and
 frozen

They lacked the frozen flag, so any use of 'frozen' or 'add' failed.
---
 dwave/gate/registers/registers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dwave/gate/registers/registers.py b/dwave/gate/registers/registers.py
index e1e8d10..688001f 100644
--- a/dwave/gate/registers/registers.py
+++ b/dwave/gate/registers/registers.py
@@ -45,6 +45,9 @@ class Register(cyRegister, AbstractSet[Data], Sequence[Data]):
         data: Sequence of hashable data items (defaults to empty).
     """
 
+    # registers created without running '__init__' (e.g., copies) are not frozen
+    _frozen: bool = False
+
     def __init__(self, data: Optional[Sequence[Data]] = None) -> None:
         self._frozen = False
         super().__init__(data or [])
-- 
2.43.0


From 791adc6375e175e5822a0e46e13ea127baa492e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:29 +0000
Subject: [PATCH 04/70] fix: gate kernels work for more than 30 qubits

---
 dwave/gate/simulator/operation_generation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dwave/gate/simulator/operation_generation.py b/dwave/gate/simulator/operation_generation.py
index 5449852..d8cf1d1 100644
--- a/dwave/gate/simulator/operation_generation.py
+++ b/dwave/gate/simulator/operation_generation.py
@@ -191,7 +191,8 @@ def generate_op_c_code(
         return qubit
 
     def shift(value, idx):
-        return f"({value} << {idx})"
+        # the shifted literal must be 64 bits wide to support more than 30 qubits
+        return f"(uint64_t({value}) << {idx})"
 
     output_sub_states: set[int] = set()
     dependent_sub_states: set[int] = set()
@@ -302,7 +303,7 @@ def generate_op_c_code(
     body = c.Block(
         [
             # number of total states
-            c.Initializer(num_states, f"1 << {num_qubits.name}"),
+            c.Initializer(num_states, shift(1, num_qubits.name)),
             # this array will hold every "position" of the qubits affected by the gate in
             # sorted order
             c.Initializer(
@@ -317,7 +318,7 @@ def generate_op_c_code(
             # initialize all of the "masks". these will be used to generate the correct
             # state index
             *[
-                c.Initializer(mask, f"(1 << {positions.name}[{i}]) - 1")
+                c.Initializer(mask, f"{shift(1, f'{positions.name}[{i}]')} - 1")
                 for i, mask in enumerate(masks)
             ],
             c.Initializer(control_mask, control_mask_init),
-- 
2.43.0


From c1c528a4c18d831ccc2915081313cb999247e7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:27 +0000
Subject: [PATCH 05/70] fix: simulate user-defined matrices of any memory
 layout and number type

The kernels read the matrix as C-ordered complex numbers: Fortran-ordered or
transposed matrices were silently applied transposed, others refused.
---
 dwave/gate/simulator/simulator.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index 9dd3f66..62f44d1 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -95,6 +95,7 @@ def apply_instruction(
             gate = op.target_operation(op.parameters).matrix
         else:
             gate = op.target_operation.matrix
+        gate = np.array(gate, dtype=np.complex128, order="C")
         assert gate.shape == (2, 2), (op, gate)
         if conjugate_gate:
             gate = np.ascontiguousarray(gate.conjugate())
@@ -122,7 +123,7 @@ def apply_instruction(
             raise ValueError(
                 f"simulator encountered unknown multi-qubit operation: {op.label}"
             )
-        gate = op.matrix
+        gate = np.array(op.matrix, dtype=np.complex128, order="C")
         if conjugate_gate:
             gate = np.ascontiguousarray(gate.conjugate())
 
-- 
2.43.0


From 6071b1b80d7bf22d1ca5b3bdefe3682ae14d404b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:27 +0000
Subject: [PATCH 06/70] fix: name the multi-qubit operation the simulator does
 not know

Operations have no label; the intended ValueError became an AttributeError.
---
 dwave/gate/simulator/simulator.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index 62f44d1..b487f30 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -121,7 +121,7 @@ def apply_instruction(
         # apply single qubit gate
         if op.num_qubits != 1:
             raise ValueError(
-                f"simulator encountered unknown multi-qubit operation: {op.label}"
+                f"simulator encountered unknown multi-qubit operation: {op.name}"
             )
         gate = np.array(op.matrix, dtype=np.complex128, order="C")
         if conjugate_gate:
-- 
2.43.0


From 2cc62148e85219d2ee7adbac51fc6589f0042e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:42 +0000
Subject: [PATCH 07/70] fix: simulating again does not lengthen the samples of
 a measurement

The measured qubit indices were appended to those of earlier simulations.
---
 dwave/gate/simulator/simulator.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index b487f30..2ac8c89 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -208,6 +208,7 @@ def sample_qubit(
 
 def _measure(op, state, targets, rng):
     op._measured_state = state.copy()
+    op._measured_qubit_indices = []
 
     for idx, t in enumerate(targets):
         m = sample_qubit(t, state, rng)
-- 
2.43.0


From 4af0b7355c4ff82d8fd94c1ae4df711c6fe97db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:05 +0000
Subject: [PATCH 08/70] fix: measurements in density-matrix simulation

The circuit was passed to _measure in place of the target indices, so that
every density-matrix simulation with a measurement raised a TypeError.
---
 dwave/gate/simulator/simulator.pyx | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index 2ac8c89..48e4898 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -209,6 +209,7 @@ def sample_qubit(
 def _measure(op, state, targets, rng):
     op._measured_state = state.copy()
     op._measured_qubit_indices = []
+    outcomes = []
 
     for idx, t in enumerate(targets):
         m = sample_qubit(t, state, rng)
@@ -219,6 +220,9 @@ def _measure(op, state, targets, rng):
             warnings.warn("Measurements not stored in the classical register.")
 
         op._measured_qubit_indices.append(t)
+        outcomes.append(m)
+
+    return outcomes
 
 
 def _simulate_circuit_density_matrix(
@@ -233,11 +237,22 @@ def _simulate_circuit_density_matrix(
     state[0] = 1
 
     for op in circuit.circuit:
+        targets = [circuit.qubits.index(qb) for qb in op.qubits]
         if isinstance(op, ops.Measurement):
-            _measure(op, state, circuit, rng)
+            if op.is_blocked:
+                continue
+            # measure the qubits, then project the corresponding virtual qubits
+            # onto the same outcomes
+            outcomes = _measure(op, state, targets, rng)
+            for t, m in zip(targets, outcomes):
+                projector = np.array([[1 - m, 0], [0, m]], dtype=np.complex128)
+                single_qubit(
+                    num_virtual_qubits, state, projector, t + num_qubits,
+                    little_endian=False,
+                )
+            state /= np.linalg.norm(state)
         else:
             # first apply the gate normally
-            targets = [circuit.qubits.index(qb) for qb in op.qubits]
             apply_instruction(
                 num_virtual_qubits, state, op, targets, little_endian, rng
             )
-- 
2.43.0


From ba23ad3f4d3cc38d714e37bb2f7773f3ba4e062c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:32 +0000
Subject: [PATCH 09/70] fix: density-matrix simulation heeds little_endian

The argument was not passed on, so the density matrix was always big-endian.
---
 dwave/gate/simulator/simulator.pyx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index 48e4898..86c4a4e 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -162,7 +162,7 @@ def simulate(
     rng = np.random.default_rng(rng_seed)
 
     if mixed_state:
-        state = _simulate_circuit_density_matrix(circuit, rng)
+        state = _simulate_circuit_density_matrix(circuit, rng, little_endian)
     else:
         state = np.zeros(1 << num_qubits, dtype=np.complex128)
         state[0] = 1
@@ -241,6 +241,8 @@ def _simulate_circuit_density_matrix(
         if isinstance(op, ops.Measurement):
             if op.is_blocked:
                 continue
+            if little_endian:
+                raise CircuitError("Measurements only supports big-endian qubit indexing.")
             # measure the qubits, then project the corresponding virtual qubits
             # onto the same outcomes
             outcomes = _measure(op, state, targets, rng)
@@ -263,5 +265,8 @@ def _simulate_circuit_density_matrix(
                 conjugate_gate=True,
             )
     density_matrix = state.reshape((1 << num_qubits, 1 << num_qubits))
+    if little_endian:
+        # the virtual qubits are the most significant ones
+        density_matrix = density_matrix.T
 
     return density_matrix
-- 
2.43.0


From 1c36a56824e5459b474abff24adc365608751e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:59 +0000
Subject: [PATCH 10/70] fix: density matrix of a pure state is its outer
 product with its conjugate

The conjugate was missing: states with complex amplitudes got a matrix that
is not Hermitian and may have zero trace.
---
 dwave/gate/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 17353f2..803625c 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -251,7 +251,7 @@ class Circuit:
     def density_matrix(self) -> Optional[NDArray]:
         """The density matrix representation of the state."""
         if self._state is not None and self._density_matrix is None:
-            self._density_matrix = self._state.reshape(-1, 1) @ self._state.reshape(1, -1)
+            self._density_matrix = np.outer(self._state, self._state.conj())
         return self._density_matrix
 
     def set_state(self, state: NDArray, force: bool = False, normalize: bool = False) -> None:
-- 
2.43.0


From 3bc687365269349900fc19191d14e605e4320da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:05 +0000
Subject: [PATCH 11/70] fix: density matrices are normalized by their trace

The Frobenius norm refused every mixed state and accepted matrices that are
no states; a circuit without qubits failed on a negative shift.
---
 dwave/gate/circuit.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 803625c..23a35b1 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -270,7 +270,7 @@ class Circuit:
             raise CircuitError("State already set. Use 'force=True' to force set new state.")
 
         if normalize:
-            state = state / np.linalg.norm(state)
+            state = state / self._norm(state)
 
         self._assert_state(state)
 
@@ -284,13 +284,20 @@ class Circuit:
 
     def _assert_state(self, state: NDArray) -> None:
         """Check whether a state is the correct shape and is normalized."""
-        size = 2 << (self.num_qubits - 1)
+        size = 1 << self.num_qubits
         if state.shape != (size,) and state.shape != (size, size):
             raise ValueError(f"State has incorrect shape. Should have size {size}.")
 
-        if not np.isclose(np.linalg.norm(state), 1):
+        if not np.isclose(self._norm(state), 1):
             raise ValueError("State is not normalized.")
 
+    @staticmethod
+    def _norm(state: NDArray) -> complex:
+        """The norm of a state vector or the trace of a density matrix."""
+        if state.ndim == 2:
+            return np.trace(state)
+        return np.linalg.norm(state)
+
     @property
     def num_qubits(self) -> int:
         """Number of qubits in the circuit."""
-- 
2.43.0


From 91bafd3e5d29e48379ad7843c305b18d031736ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:07 +0000
Subject: [PATCH 12/70] fix: refusing a qubit or bit leaves no new register
 behind

The register was created before the check whether the item is in use.
---
 dwave/gate/circuit.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 23a35b1..90e3332 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -379,6 +379,10 @@ class Circuit:
         if qubit is not None and not isinstance(qubit, Qubit):
             raise TypeError(f"Can only add qubits to circuit. Got '{type(qubit).__name__}'.")
 
+        # NOTE: same qubit in different registers NOT allowed
+        if qubit in self.qubits:
+            raise ValueError(f"Qubit '{qubit}' already in use in the circuit.")
+
         if qreg_label is not None:
             if qreg_label not in self.qregisters:
                 self.add_qregister(label=qreg_label)
@@ -387,10 +391,6 @@ class Circuit:
                 self.add_qregister()
             qreg_label = list(self.qregisters)[0]
 
-        # NOTE: same qubit in different registers NOT allowed
-        if qubit in self.qubits:
-            raise ValueError(f"Qubit '{qubit}' already in use in quantum register '{qreg_label}'.")
-
         self.qregisters[qreg_label].add(qubit or Qubit(str(self.num_qubits)))
 
         # remove cached 'qubits' attribute when updating 'qregisters';
@@ -409,6 +409,10 @@ class Circuit:
         if bit is not None and not isinstance(bit, Bit):
             raise TypeError(f"Can only add bits to circuit. Got '{type(bit).__name__}'.")
 
+        # NOTE: same bit in different registers NOT allowed
+        if self.bits and bit in self.bits:
+            raise ValueError(f"Bit '{bit}' already in use in the circuit.")
+
         if creg_label is not None:
             if creg_label not in self.cregisters:
                 self.add_cregister(label=creg_label)
@@ -417,10 +421,6 @@ class Circuit:
                 self.add_cregister()
             creg_label = list(self.cregisters)[0]
 
-        # NOTE: same bit in different registers NOT allowed
-        if self.bits and bit in self.bits:
-            raise ValueError(f"Bit '{bit}' already in use in classical register '{creg_label}'.")
-
         self.cregisters[creg_label].add(bit or Bit(str(self.num_bits)))
 
         # remove cached 'bits' attribute when updating 'cregisters'
-- 
2.43.0


From 9df65099215bc97d8e818d20eb2aee289d44f00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:14 +0000
Subject: [PATCH 13/70] fix: resetting without registers forgets the qubits and
 bits

The cached concatenation of the removed registers stayed in use.
---
 dwave/gate/circuit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 90e3332..e2f2bfb 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -360,6 +360,10 @@ class Circuit:
         if not keep_registers:
             self._qregisters.clear()
             self._cregisters.clear()
+
+            # remove cached attributes when updating the registers
+            self.__dict__.pop("qubits", None)
+            self.__dict__.pop("bits", None)
         else:
             for bit in self.bits:
                 bit.reset()
-- 
2.43.0


From 2c8ca591154d09183037e574393088066429cbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:20 +0000
Subject: [PATCH 14/70] fix: resetting a circuit discards the state of its last
 simulation

The state of the removed operations stayed readable, with the wrong size
once the registers had changed, and blocked setting a new one.
---
 dwave/gate/circuit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index e2f2bfb..72ebb88 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -357,6 +357,8 @@ class Circuit:
         """
         self._circuit.clear()
         self._circuit_context = None
+        self._state = None
+        self._density_matrix = None
         if not keep_registers:
             self._qregisters.clear()
             self._cregisters.clear()
-- 
2.43.0


From 0a3de03f5f9bf4052f32270a74a9558575586714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:28 +0000
Subject: [PATCH 15/70] fix: bits with value 0 can be added to a circuit

Such a bit is falsy and was replaced by a new one.
---
 dwave/gate/circuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 72ebb88..0e2777b 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -416,7 +416,7 @@ class Circuit:
             raise TypeError(f"Can only add bits to circuit. Got '{type(bit).__name__}'.")
 
         # NOTE: same bit in different registers NOT allowed
-        if self.bits and bit in self.bits:
+        if bit is not None and bit in self.bits:
             raise ValueError(f"Bit '{bit}' already in use in the circuit.")
 
         if creg_label is not None:
@@ -427,7 +427,7 @@ class Circuit:
                 self.add_cregister()
             creg_label = list(self.cregisters)[0]
 
-        self.cregisters[creg_label].add(bit or Bit(str(self.num_bits)))
+        self.cregisters[creg_label].add(bit if bit is not None else Bit(str(self.num_bits)))
 
         # remove cached 'bits' attribute when updating 'cregisters'
         # will always be in 'self.__dict__' since 'self.bits' is called above
-- 
2.43.0


From 71698ac3c8634b9ff54c41a9517638da0c0045b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:35 +0000
Subject: [PATCH 16/70] fix: get_qubit and get_bit heed register labels such as
 0 or ''

Falsy labels were taken for no label and all registers searched.
---
 dwave/gate/circuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 0e2777b..280eee2 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -499,7 +499,7 @@ class Circuit:
             Qubit: Qubit with the specified label. If there are several with the same name,
             only the first occuring qubit will be returned unless ``return_all`` is ``True``.
         """
-        if qreg_label:
+        if qreg_label is not None:
             qregisters = self.qregisters[qreg_label]
         else:
             qregisters = itertools.chain.from_iterable(self.qregisters.values())
@@ -555,7 +555,7 @@ class Circuit:
             Bit: Bit with the specified label. If there are several with the same name,
             only the first occuring bit will be returned unless ``return_all`` is ``True``.
         """
-        if creg_label:
+        if creg_label is not None:
             cregisters = self.cregisters[creg_label]
         else:
             cregisters = itertools.chain.from_iterable(self.cregisters.values())
-- 
2.43.0


From 31ceb9f5f693a8371cb6f0e3d27dcdcfa446ed84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:12 +0000
Subject: [PATCH 17/70] fix: bits with value 0 can be passed when applying a
 circuit

A single such bit is falsy and was taken for no bits.
---
 dwave/gate/circuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 280eee2..d82210c 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -115,7 +115,7 @@ class Circuit:
         if len(qubits) != len(self.qubits):
             raise ValueError(f"Circuit requires {len(self.qubits)} qubits, got {len(qubits)}.")
 
-        if bits:
+        if bits is not None:
             if isinstance(bits, Bit):
                 bits = [bits]
 
@@ -137,7 +137,7 @@ class Circuit:
             )
 
             if isinstance(op, Measurement):
-                if bits:
+                if bits is not None:
                     mapped_bits = [bit_map[qb] for qb in op.bits or []]
                     op.__class__(qubits=mapped_qubits) | mapped_bits
                     continue
-- 
2.43.0


From 8017c7772d6482d71ca34abb8d50c31b99ec7db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:21 +0000
Subject: [PATCH 18/70] fix: applying a circuit keeps the conditions of its
 operations

Conditional operations were applied unconditionally.
---
 dwave/gate/circuit.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index d82210c..db15bb2 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -123,6 +123,8 @@ class Circuit:
                 raise ValueError(f"Circuit requires {len(self.bits)} bits, got {len(bits)}.")
 
             bit_map = dict(zip(self.bits, bits))
+        elif any(op._cond for op in self.circuit):
+            raise ValueError("Bits required when applying circuit with conditional operations.")
 
         qubit_map = dict(zip(self.qubits, qubits))
 
@@ -139,7 +141,9 @@ class Circuit:
             if isinstance(op, Measurement):
                 if bits is not None:
                     mapped_bits = [bit_map[qb] for qb in op.bits or []]
-                    op.__class__(qubits=mapped_qubits) | mapped_bits
+                    new_op = op.__class__(qubits=mapped_qubits) | mapped_bits
+                    if op._cond:
+                        new_op.conditional([bit_map.get(bit, bit) for bit in op._cond])
                     continue
                 else:
                     warnings.warn(
@@ -148,11 +152,14 @@ class Circuit:
                     )
 
             if isinstance(op, ParametricOperation):
-                op.__class__(op.parameters, qubits=mapped_qubits)
+                new_op = op.__class__(op.parameters, qubits=mapped_qubits)
             elif isinstance(op, ControlledOperation):
-                op.__class__(*mapped_qubits)
+                new_op = op.__class__(*mapped_qubits)
             else:
-                op.__class__(qubits=mapped_qubits)
+                new_op = op.__class__(qubits=mapped_qubits)
+
+            if op._cond:
+                new_op.conditional([bit_map.get(bit, bit) for bit in op._cond])
 
     @property
     def qregisters(self) -> Mapping[Hashable, QuantumRegister]:
-- 
2.43.0


From 1a5f61ab8be7ac857b41761825468e7a6e44d4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:49 +0000
Subject: [PATCH 19/70] fix: circuits with measurements that are not stored can
 be applied with bits

The missing bits of the measurement were refused as too few, halfway through.
---
 dwave/gate/circuit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index db15bb2..698e24a 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -140,8 +140,9 @@ class Circuit:
 
             if isinstance(op, Measurement):
                 if bits is not None:
-                    mapped_bits = [bit_map[qb] for qb in op.bits or []]
-                    new_op = op.__class__(qubits=mapped_qubits) | mapped_bits
+                    new_op = op.__class__(qubits=mapped_qubits)
+                    if op.bits is not None:
+                        new_op | [bit_map[bit] for bit in op.bits]
                     if op._cond:
                         new_op.conditional([bit_map.get(bit, bit) for bit in op._cond])
                     continue
-- 
2.43.0


From 3a04a022f5c42bd115b75d2b56d9dd751cc2a983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:58 +0000
Subject: [PATCH 20/70] fix: controlled operations on more than two qubits can
 be applied with a circuit

The qubits were passed as control, target and more positional arguments.
---
 dwave/gate/circuit.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 698e24a..ecb0ed2 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -132,11 +132,7 @@ class Circuit:
             mapped_qubits = [qubit_map[qb] for qb in op.qubits or []]
 
             # NOTE: avoid circular imports; needed to check operation type
-            from dwave.gate.operations.base import (
-                ControlledOperation,
-                Measurement,
-                ParametricOperation,
-            )
+            from dwave.gate.operations.base import Measurement, ParametricOperation
 
             if isinstance(op, Measurement):
                 if bits is not None:
@@ -154,8 +150,6 @@ class Circuit:
 
             if isinstance(op, ParametricOperation):
                 new_op = op.__class__(op.parameters, qubits=mapped_qubits)
-            elif isinstance(op, ControlledOperation):
-                new_op = op.__class__(*mapped_qubits)
             else:
                 new_op = op.__class__(qubits=mapped_qubits)
 
-- 
2.43.0


From 66d4ab4264725a5336e4b62d9becf53d296e2f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:08 +0000
Subject: [PATCH 21/70] fix: leaving a nested freeze keeps the outer one

The context was unfrozen when the innermost freeze ended.
---
 dwave/gate/circuit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index ecb0ed2..28cd397 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -863,10 +863,11 @@ class CircuitContext:
             def __enter__(self) -> None:
                 if cls.active_context is None:
                     raise CircuitError("Can only freeze active context. No active context found.")
+                self._outer_frozen = cls.active_context._frozen
                 cls.active_context._frozen = True
 
             def __exit__(self, _, __, ___) -> None:
-                cls.active_context._frozen = False
+                cls.active_context._frozen = self._outer_frozen
 
         return FrozenContext()
 
-- 
2.43.0


From 2a0442708cfeabb30b8217ccdbf19b62dc548b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:31 +0000
Subject: [PATCH 22/70] fix: the value 0 of a variable counts as set

Variables set to 0 could not be evaluated, so that a parametric circuit could
not be applied with a parameter 0, and did not equal 0.
---
 dwave/gate/operations/base.py | 2 +-
 dwave/gate/primitives.py      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index d2dd45b..7d0354f 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -401,7 +401,7 @@ class ParametricOperation(Operation):
             if isinstance(p, Variable):
                 if parameters:
                     op.parameters[i] = parameters[i]
-                elif p.value:
+                elif p.value is not None:
                     op.parameters[i] = p.value
                 else:
                     raise ValueError("No available parameter to evaluate with.")
diff --git a/dwave/gate/primitives.py b/dwave/gate/primitives.py
index 38c6721..559cda0 100644
--- a/dwave/gate/primitives.py
+++ b/dwave/gate/primitives.py
@@ -175,13 +175,13 @@ class Variable:
         """Two variables are equal if they share the same label."""
         if isinstance(object, Variable):
             return self.name == object.name
-        if self._value and self._value == object:
+        if self._value is not None and self._value == object:
             return True
         return False
 
     def __repr__(self) -> str:
         """The representation of the variable is its label."""
-        if self._value:
+        if self._value is not None:
             return str(self.value)
         return f"{{{self.name}}}"
 
-- 
2.43.0


From 0bd69835125a50095245bce6b0a05e3c18fdfdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:41 +0000
Subject: [PATCH 23/70] fix: parametric circuits refuse a wrong number of
 parameters

Too many were ignored and too few raised an IndexError.
---
 dwave/gate/circuit.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 28cd397..41c8c69 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -721,9 +721,14 @@ class ParametricCircuit(Circuit):
             bits: Bits in which to store measurement values if measurements have been made.
 
         Raises:
-            ValueError: If an invalid number of qubits are passed.
+            ValueError: If an invalid number of qubits or parameters are passed.
             CircuitError: If called outside of an active context.
         """
+        if len(parameters) != self.num_parameters:
+            raise ValueError(
+                f"Circuit requires {self.num_parameters} parameters, got {len(parameters)}."
+            )
+
         if CircuitContext.active_context:
             for i, var in enumerate(self._parameter_register):
                 var.set(parameters[i])
-- 
2.43.0


From 68544a2ca1f6b9c16933ac96f495e516a44afe7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:56 +0000
Subject: [PATCH 24/70] fix: parametric circuits can be applied within
 parametric circuits

The operations kept the variables of the applied circuit, which are reset on
context exit, instead of the values given.
---
 dwave/gate/circuit.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 41c8c69..61fb722 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -40,7 +40,7 @@ from typing import TYPE_CHECKING, Callable, ContextManager, NamedTuple, Optional
 import numpy as np
 
 from dwave.gate.mixedproperty import mixedproperty
-from dwave.gate.primitives import Bit, Qubit
+from dwave.gate.primitives import Bit, Qubit, Variable
 from dwave.gate.registers.registers import (
     ClassicalRegister,
     QuantumRegister,
@@ -149,7 +149,12 @@ class Circuit:
                     )
 
             if isinstance(op, ParametricOperation):
-                new_op = op.__class__(op.parameters, qubits=mapped_qubits)
+                # replace variables by their values; they are reset on context exit
+                parameters = [
+                    p.value if isinstance(p, Variable) and p.value is not None else p
+                    for p in op.parameters
+                ]
+                new_op = op.__class__(parameters, qubits=mapped_qubits)
             else:
                 new_op = op.__class__(qubits=mapped_qubits)
 
-- 
2.43.0


From 2017f5a95adf449dcef13a28ac5be2b2be701b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:44 +0000
Subject: [PATCH 25/70] fix: the unitary of a circuit follows its operations

Results were cached per circuit object, so that a changed circuit kept its
old unitary and callers shared one writable array.
---
 dwave/gate/tools/unitary.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/dwave/gate/tools/unitary.py b/dwave/gate/tools/unitary.py
index 183b8f7..6ea1481 100644
--- a/dwave/gate/tools/unitary.py
+++ b/dwave/gate/tools/unitary.py
@@ -21,7 +21,6 @@ __all__ = [
 
 import itertools
 from collections.abc import Sequence
-from functools import lru_cache
 from typing import TYPE_CHECKING, Optional, Union
 
 import numpy as np
@@ -40,7 +39,6 @@ if TYPE_CHECKING:
 # TODO: exchange for something better; only here for testing matrix creation
 # for custom operations; controlled operations only works with single
 # control and target; no support for any other multi-qubit gates
-@lru_cache(maxsize=128)
 def build_unitary(circuit) -> NDArray:
     """Builds the circuit unitary by multiplying together the operation matrices.
 
-- 
2.43.0


From 4c695b042bbba520a7f4ef70c55edcce9b5f3fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 26/70] fix: unitaries of circuits with parametric controlled
 operations

The matrix of the target operation was read without its parameters.
---
 dwave/gate/tools/unitary.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/tools/unitary.py b/dwave/gate/tools/unitary.py
index 6ea1481..92a39e2 100644
--- a/dwave/gate/tools/unitary.py
+++ b/dwave/gate/tools/unitary.py
@@ -100,8 +100,13 @@ def _apply_controlled_gate(state: NDArray, op: ControlledOperation, qubits) -> N
     """
     control_idx = [qubits.index(c) for c in op.control or []]
     target_idx = [qubits.index(t) for t in op.target or []]
+    # parametric target operations only have a matrix when given parameters
+    if hasattr(op, "parameters"):
+        target_operation = op.target_operation(op.parameters)
+    else:
+        target_operation = op.target_operation
     controlled_unitary = build_controlled_unitary(
-        control_idx, target_idx, op.target_operation.matrix, len(qubits)
+        control_idx, target_idx, target_operation.matrix, len(qubits)
     )
     return controlled_unitary @ state
 
-- 
2.43.0


From 723d76c8abe99172fd8f851e73aac7c698a6d9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 27/70] fix: custom operations use each parameter wherever it
 occurs

Parameters were used up in the order of their occurrences: a variable that
occurs twice, or not in the order of creation, got the wrong value.
---
 dwave/gate/operations/base.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 7d0354f..a277371 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -133,14 +133,13 @@ def create_operation(circuit, name: Optional[str] = None) -> Type[CustomOperatio
             """
             circuit_copy = copy.deepcopy(circuit)
             if circuit.parametric:
-                parameters = self.parameters.copy()
+                values = dict(zip(circuit._parameter_register, self.parameters))
 
-                for i, op in enumerate(circuit_copy.circuit):
+                for op in circuit_copy.circuit:
                     if isinstance(op, ParametricOperation):
                         for j, param in enumerate(op.parameters):
                             if isinstance(param, Variable):
-                                circuit_copy.circuit[i].parameters[j] = parameters.pop(0)  # type: ignore
-                            self._matrix
+                                op.parameters[j] = values[param]
 
             return build_unitary(circuit_copy)
 
-- 
2.43.0


From df741fc2c4722c6ebe09f3f993f238fb0d28be56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:10 +0000
Subject: [PATCH 28/70] fix: controlled unitaries refuse negative qubit
 positions

They were taken for positions in the bitstring under construction, which
gave matrices for other qubits.
---
 dwave/gate/tools/unitary.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dwave/gate/tools/unitary.py b/dwave/gate/tools/unitary.py
index 92a39e2..c65e5d3 100644
--- a/dwave/gate/tools/unitary.py
+++ b/dwave/gate/tools/unitary.py
@@ -141,6 +141,9 @@ def build_controlled_unitary(
     if not set(control).isdisjoint(target):
         raise ValueError("Control qubits and target qubit cannot be the same.")
 
+    if min(itertools.chain.from_iterable((control, target))) < 0:
+        raise ValueError("Qubit indices cannot be negative.")
+
     max_ = max(itertools.chain.from_iterable((control, target)))
     if isinstance(num_qubits, int) and num_qubits <= max_:
         raise ValueError(
-- 
2.43.0


From a7732a5d0869a15b386a7555aa90fa5e323c3ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:58 +0000
Subject: [PATCH 29/70] fix: parametric operations can be compared with any
 operation

Comparing with an operation without parameters raised an AttributeError, so
that such a circuit could not be searched for an operation.
---
 dwave/gate/operations/base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index a277371..e80fc45 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -370,8 +370,7 @@ class ParametricOperation(Operation):
 
     def __eq__(self, op: ParametricOperation) -> bool:
         """Returns whether two operations are considered equal."""
-        param_eq = op.parameters == self.parameters
-        return param_eq and super().__eq__(op)
+        return super().__eq__(op) and op.parameters == self.parameters
 
     @property
     def parameters(self):
-- 
2.43.0


From 3e3ced348f4b2d41c65a2ffc426ddbfbcbdfbc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:07 +0000
Subject: [PATCH 30/70] fix: parametric controlled operations keep their
 evaluated parameters

The parameters were set a second time after the operation had been appended
to the circuit, where its variables are replaced by their values.
---
 dwave/gate/operations/base.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index e80fc45..2484703 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -618,7 +618,6 @@ class ParametricControlledOperation(ControlledOperation, ParametricOperation):
     ):
         # ControlledOperation.__init__(self, control, target, **kwargs)
         super().__init__(control, target, parameters=parameters, **kwargs)
-        self._parameters = self._check_parameters(parameters)
 
     def __call__(
         self, control: Optional[Sequence[Qubit]] = None, target: Optional[Sequence[Qubit]] = None
-- 
2.43.0


From e6a7940296de2f196979bd1ba2ce1792cd4e0e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:16 +0000
Subject: [PATCH 31/70] fix: controlled operations always check their number of
 qubits

The check was skipped until the number of qubits of the class had been read
for the first time.
---
 dwave/gate/operations/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 2484703..930f411 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -211,9 +211,10 @@ class Operation(metaclass=ABCLockedAttr):
         if isinstance(qubits, Qubit):
             qubits = [qubits]
 
-        if cls._num_qubits is not None and len(qubits) != cls.num_qubits:
+        num_qubits = getattr(cls, "num_qubits", None)
+        if num_qubits is not None and len(qubits) != num_qubits:
             raise ValueError(
-                f"Operation '{cls.name}' requires " f"{cls.num_qubits} qubits, got {len(qubits)}."
+                f"Operation '{cls.name}' requires " f"{num_qubits} qubits, got {len(qubits)}."
             )
 
         # cast to tuple for convention
-- 
2.43.0


From 2d4e44080fd1bc89b3d48da9af21b38d0065e9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:26 +0000
Subject: [PATCH 32/70] fix: changing the qubits of a controlled operation
 changes control and target

They kept naming the old qubits, which build_unitary then used.
---
 dwave/gate/operations/base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 930f411..35b54d0 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -576,6 +576,13 @@ class ControlledOperation(Operation):
         """Target qubit(s)."""
         return self._target
 
+    @Operation.qubits.setter
+    def qubits(self, qubits: Sequence[Qubit]) -> None:
+        """Set the qubits that the operation should be applied to."""
+        Operation.qubits.fset(self, qubits)
+        self._control = self._qubits[: type(self)._num_control]
+        self._target = self._qubits[type(self)._num_control :]
+
     @mixedproperty
     def num_control(cls) -> Optional[int]:
         """Number of control qubit(s)."""
-- 
2.43.0


From 168f42977b4044672b708272240407c321aea991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:19 +0000
Subject: [PATCH 33/70] fix: sampling refuses qubits that are not in the
 measured circuit

---
 dwave/gate/operations/base.py      | 16 ++++++++++------
 dwave/gate/simulator/simulator.pyx |  7 ++++---
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 35b54d0..7cf1d93 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -672,6 +672,9 @@ class Measurement(Operation):
         self._measured_qubit_indices = []
         """list[int]: The indices of the measured qubit in the circuit."""
 
+        self._measured_num_qubits = None
+        """Optional[int]: The number of qubits in the measured circuit."""
+
         super().__init__(qubits)
 
     def __repr__(self) -> str:
@@ -731,13 +734,14 @@ class Measurement(Operation):
         if qubits is None:
             qubits = self._measured_qubit_indices
 
-        num_qubits = len(self.state).bit_length() - 1
+        num_qubits = self._measured_num_qubits
 
-        if max(qubits) >= num_qubits:
-            raise ValueError(
-                f"Cannot sample qubit {max(qubits)} (count. from 0). "
-                f"State has only {num_qubits} qubits."
-            )
+        for qb in qubits:
+            if not 0 <= qb < num_qubits:
+                raise ValueError(
+                    f"Cannot sample qubit {qb} (count. from 0). "
+                    f"State has only {num_qubits} qubits."
+                )
 
         rng = np.random.default_rng()
         samples = []
diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index 86c4a4e..0dbe83e 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -56,7 +56,7 @@ def apply_instruction(
     if isinstance(op, ops.Measurement):
         if little_endian:
             raise CircuitError("Measurements only supports big-endian qubit indexing.")
-        _measure(op, state, targets, rng)
+        _measure(op, num_qubits, state, targets, rng)
 
     elif isinstance(op, ops.SWAP):
         gate = op.matrix
@@ -206,8 +206,9 @@ def sample_qubit(
     )
 
 
-def _measure(op, state, targets, rng):
+def _measure(op, num_qubits, state, targets, rng):
     op._measured_state = state.copy()
+    op._measured_num_qubits = num_qubits
     op._measured_qubit_indices = []
     outcomes = []
 
@@ -245,7 +246,7 @@ def _simulate_circuit_density_matrix(
                 raise CircuitError("Measurements only supports big-endian qubit indexing.")
             # measure the qubits, then project the corresponding virtual qubits
             # onto the same outcomes
-            outcomes = _measure(op, state, targets, rng)
+            outcomes = _measure(op, num_qubits, state, targets, rng)
             for t, m in zip(targets, outcomes):
                 projector = np.array([[1 - m, 0], [0, m]], dtype=np.complex128)
                 single_qubit(
-- 
2.43.0


From 1128b25f1f483c46681d7e551805c8940abbe5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:07 +0000
Subject: [PATCH 34/70] fix: custom parametric operations state their
 parameters in OpenQASM

---
 dwave/gate/operations/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 7cf1d93..2fe77d5 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -118,6 +118,9 @@ def create_operation(circuit, name: Optional[str] = None) -> Type[CustomOperatio
             else:
                 new_name = self.__class__.__name__.lower()
 
+            if circuit.parametric:
+                new_name += f"({', '.join(map(str, self.parameters))})"
+
             if self.qubits:
                 qubits = ", ".join(self._map_qubits(mapping))
                 return f"{new_name} {qubits}"
-- 
2.43.0


From 2caaf953fcf8168c352c8ac41d67c86bee6e691e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:12 +0000
Subject: [PATCH 35/70] fix: OpenQASM gate definitions are written only once
 per gate

---
 dwave/gate/circuit.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 61fb722..e6174ba 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -653,9 +653,13 @@ class Circuit:
                 label = f"q{label}" if len(self.qregisters) != 1 else "q"
             mapping[qb] = label, idx
 
+        definitions = set()
         for op in self.circuit:
-            if gate_definitions and hasattr(op, "_qasm_decl"):
-                header_str += "\n" + getattr(op, "_qasm_decl") + "\n"
+            definition = getattr(op, "_qasm_decl", None)
+            # each gate can only be defined once
+            if gate_definitions and definition and definition not in definitions:
+                definitions.add(definition)
+                header_str += "\n" + definition + "\n"
             qasm_str += op.to_qasm(mapping) + ";\n"
 
         return header_str.strip() + "\n\n" + qasm_str.strip()
-- 
2.43.0


From b44fa8a60bc96cf9319518d1f0cc07bb99d2f099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:17 +0000
Subject: [PATCH 36/70] fix: OpenQASM definition of the controlled rotation

---
 dwave/gate/operations/operations.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/operations/operations.py b/dwave/gate/operations/operations.py
index beac11c..e97512e 100644
--- a/dwave/gate/operations/operations.py
+++ b/dwave/gate/operations/operations.py
@@ -699,7 +699,10 @@ class CRotation(ParametricControlledOperation):
 
     _target_operation: Type[Operation] = Rotation
 
-    _qasm_decl: str = "// gate definition not implemented"
+    _qasm_decl: str = (
+        "gate crot(beta, gamma, delta) c, t "
+        "{ crz(beta) c, t; cu3(gamma, 0, 0) c, t; crz(delta) c, t; }"
+    )
 
     def to_qasm(self, mapping: Optional[Mapping] = None) -> str:
         """Converts the Controlled-Rotation operation into an OpenQASM string.
-- 
2.43.0


From 7b5481e00d3ac4f62f4b1e1bec6dfd151bf3d05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:23 +0000
Subject: [PATCH 37/70] fix: conditional operations are not silently exported
 as unconditional OpenQASM

---
 dwave/gate/circuit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index e6174ba..ac9acea 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -655,6 +655,8 @@ class Circuit:
 
         definitions = set()
         for op in self.circuit:
+            if op._cond:
+                raise CircuitError("Conditional operations cannot be transpiled into OpenQASM.")
             definition = getattr(op, "_qasm_decl", None)
             # each gate can only be defined once
             if gate_definitions and definition and definition not in definitions:
-- 
2.43.0


From 1e38be7f2ef30384be6f4d13378c075d8eaf7ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:41 +0000
Subject: [PATCH 38/70] fix: register labels that are no distinct OpenQASM
 names are refused

---
 dwave/gate/circuit.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index ac9acea..d9c4b7f 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -31,6 +31,7 @@ __all__ = [
 
 import copy
 import itertools
+import re
 import warnings
 from collections.abc import Hashable, Mapping, Sequence
 from functools import cached_property
@@ -624,6 +625,14 @@ class Circuit:
         reg_labels = kwargs.get("reg_labels", False)
         gate_definitions = kwargs.get("gate_definitions", False)
 
+        if reg_labels:
+            labels = [str(label) for label in itertools.chain(self.qregisters, self.cregisters)]
+            for label in labels:
+                if not re.fullmatch("[a-z][A-Za-z0-9_]*", label):
+                    raise CircuitError(f"Register label '{label}' is not a valid OpenQASM name.")
+                if labels.count(label) > 1:
+                    raise CircuitError(f"Register label '{label}' used for several registers.")
+
         header_str = 'OPENQASM 2.0;\ninclude "qelib1.inc";\n'
 
         qasm_str = ""
-- 
2.43.0


From e964cbed626950e4a08066c8bdd54d3cfb7bbf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:54 +0000
Subject: [PATCH 39/70] fix: define crx and cry in OpenQASM, which the standard
 library lacks

---
 dwave/gate/operations/operations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dwave/gate/operations/operations.py b/dwave/gate/operations/operations.py
index e97512e..bf2268b 100644
--- a/dwave/gate/operations/operations.py
+++ b/dwave/gate/operations/operations.py
@@ -605,6 +605,7 @@ class CRX(ParametricControlledOperation):
     _num_params: int = 1
 
     _target_operation: Type[Operation] = RX
+    _qasm_decl: str = "gate crx(theta) c, t { h t; crz(theta) c, t; h t; }"
 
     def to_qasm(self, mapping: Optional[Mapping] = None) -> str:
         """Converts the Controlled-RX operation into an OpenQASM string.
@@ -636,6 +637,7 @@ class CRY(ParametricControlledOperation):
     _num_params: int = 1
 
     _target_operation: Type[Operation] = RY
+    _qasm_decl: str = "gate cry(theta) c, t { cu3(theta, 0, 0) c, t; }"
 
     def to_qasm(self, mapping: Optional[Mapping] = None) -> str:
         """Converts the Controlled-RY operation into an OpenQASM string.
-- 
2.43.0


From 28ad2aeb45f1697fa2467204fe93eb029faee3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:39 +0000
Subject: [PATCH 40/70] fix: operations of different classes with the same name
 are not equal

Operations were compared by class name, so that any two operations made by
create_operation without a name, or user-defined gates sharing a name,
compared equal and Circuit.remove could remove the wrong one.
---
 dwave/gate/operations/base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 2fe77d5..b8b9139 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -255,8 +255,7 @@ class Operation(metaclass=ABCLockedAttr):
 
     def __eq__(self, op: Operation) -> bool:
         """Returns whether two operations are considered equal."""
-        name_eq = op.__class__.__name__ == self.__class__.__name__
-        return name_eq and op.qubits == self.qubits
+        return op.__class__ is self.__class__ and op.qubits == self.qubits
 
     def __str__(self) -> str:
         """Returns the operation representation."""
-- 
2.43.0


From adccd23d8a574ce5f0e0d5dd32cc1298aca5f5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:15 +0000
Subject: [PATCH 41/70] fix: applying or extending by operations appends all of
 them or none

---
 dwave/gate/circuit.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index d9c4b7f..64149ef 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -116,6 +116,7 @@ class Circuit:
         if len(qubits) != len(self.qubits):
             raise ValueError(f"Circuit requires {len(self.qubits)} qubits, got {len(qubits)}.")
 
+        bit_map = {}
         if bits is not None:
             if isinstance(bits, Bit):
                 bits = [bits]
@@ -129,6 +130,22 @@ class Circuit:
 
         qubit_map = dict(zip(self.qubits, qubits))
 
+        active_operations = CircuitContext.active_context.circuit.circuit
+        num_operations = len(active_operations)
+        try:
+            self._apply(qubit_map, bits, bit_map)
+        except Exception:
+            # either all operations are applied or none
+            del active_operations[num_operations:]
+            raise
+
+    def _apply(
+        self,
+        qubit_map: Mapping[Qubit, Qubit],
+        bits: Optional[Bits],
+        bit_map: Mapping[Bit, Bit],
+    ) -> None:
+        """Apply the circuit operations to the mapped qubits and bits."""
         for op in self.circuit:
             mapped_qubits = [qubit_map[qb] for qb in op.qubits or []]
 
@@ -214,8 +231,14 @@ class Circuit:
         Args:
             operations: Operations to append to the circuit.
         """
-        for op in operations:
-            self.append(op)
+        num_operations = len(self._circuit)
+        try:
+            for op in operations:
+                self.append(op)
+        except Exception:
+            # either all operations are appended or none
+            del self._circuit[num_operations:]
+            raise
 
     def remove(self, op: Operation) -> None:
         """Removes the operation from the circuit.
-- 
2.43.0


From fef630ff41822e6c33bf2a8f58899b3e609d253d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:19 +0000
Subject: [PATCH 42/70] fix: resetting a parametric circuit resets its
 parameters

---
 dwave/gate/circuit.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 64149ef..4ff3c26 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -786,6 +786,19 @@ class ParametricCircuit(Circuit):
         self._parameter_register._frozen = False
         return super().unlock()
 
+    def reset(self, keep_registers: bool = True) -> None:
+        """Resets the circuit so that it can be reused.
+
+        Args:
+            keep_registers: If ``False``, deletes the quantum, classical and parameter
+                registers (defaults to ``True``).
+        """
+        if not keep_registers:
+            self._parameter_register = SelfIncrementingRegister()
+        else:
+            self.reset_variables()
+        super().reset(keep_registers)
+
     def eval(
         self, parameters: Optional[Sequence[Sequence[complex]]] = None, inplace: bool = False
     ) -> ParametricCircuit:
-- 
2.43.0


From ebbbe7e79462db1720a19d46ac8078104971b9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:25 +0000
Subject: [PATCH 43/70] fix: a freezing context manager can be nested in itself

---
 dwave/gate/circuit.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 4ff3c26..097f165 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -921,14 +921,17 @@ class CircuitContext:
         """
 
         class FrozenContext:
+            def __init__(self) -> None:
+                self._outer_frozen: list[bool] = []
+
             def __enter__(self) -> None:
                 if cls.active_context is None:
                     raise CircuitError("Can only freeze active context. No active context found.")
-                self._outer_frozen = cls.active_context._frozen
+                self._outer_frozen.append(cls.active_context._frozen)
                 cls.active_context._frozen = True
 
             def __exit__(self, _, __, ___) -> None:
-                cls.active_context._frozen = self._outer_frozen
+                cls.active_context._frozen = self._outer_frozen.pop()
 
         return FrozenContext()
 
-- 
2.43.0


From 06e399bac4e5224d1fb809cc1971bd976f5d9f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:03 +0000
Subject: [PATCH 44/70] fix: registers keep bits and variables whose value
 equals their position

Adding a bit with value 0 to an empty register (or, e.g., slicing the bits of a simulated circuit,
or adding a register to it) stored the number 0 instead of the bit, since the bit equals 0.
---
 dwave/gate/registers/cyregister.pyx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dwave/gate/registers/cyregister.pyx b/dwave/gate/registers/cyregister.pyx
index 4872e9b..36b8643 100644
--- a/dwave/gate/registers/cyregister.pyx
+++ b/dwave/gate/registers/cyregister.pyx
@@ -117,7 +117,9 @@ cdef class cyRegister:
 
         idx = self._stop
 
-        if idx != v:
+        # only numbers are the same label as the index they equal (e.g., bits and variables also
+        # equal their values)
+        if not isinstance(v, Number) or idx != v:
             self._label_to_index[v] = idx
             self._index_to_label[idx] = v
 
@@ -180,12 +182,12 @@ cdef class cyRegister:
         """
         for submap in _iter_safe_relabels(mapping, self):
             for old, new in submap.items():
-                if old == new:
+                if old == new and hash(old) == hash(new):
                     continue
 
                 idx = self._label_to_index.pop(old, old)
 
-                if new != idx:
+                if not isinstance(new, Number) or new != idx:
                     self._label_to_index[new] = idx
                     self._index_to_label[idx] = new  # overwrites old idx
                 else:
@@ -417,7 +419,7 @@ def _resolve_label_conflict(mapping, existing, old_labels=None, new_labels=None)
     intermediate_to_new = {}
 
     for old, new in mapping.items():
-        if old == new:
+        if old == new and hash(old) == hash(new):
             # we can remove self-labels
             continue
 
-- 
2.43.0


From a99467941b5cd39396227a8fd9101b69eb81c063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:48 +0000
Subject: [PATCH 45/70] fix: matrices of controlled operations can be read
 within contexts

---
 dwave/gate/operations/base.py      | 33 ++++++++++++++++++++++--------
 dwave/gate/simulator/simulator.pyx |  5 +----
 dwave/gate/tools/unitary.py        |  7 +------
 3 files changed, 27 insertions(+), 18 deletions(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index b8b9139..0231dfe 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -552,13 +552,15 @@ class ControlledOperation(Operation):
         num_qubits = getattr(cls, "num_qubits", 2)
         num_control = getattr(cls, "num_control", 1)
 
-        if CircuitContext.active_context and self.control and self.target:
-            control_idx = [
-                CircuitContext.active_context.circuit.qubits.index(c) for c in self.control
-            ]
-            target_idx = [
-                CircuitContext.active_context.circuit.qubits.index(t) for t in self.target
-            ]
+        circuit_qubits = ()
+        if CircuitContext.active_context:
+            circuit_qubits = CircuitContext.active_context.circuit.qubits
+
+        if self is not None and self.qubits and all(qb in circuit_qubits for qb in self.qubits):
+            # order of the operation's qubits within the circuit
+            idx = sorted(circuit_qubits.index(qb) for qb in self.qubits)
+            control_idx = [idx.index(circuit_qubits.index(c)) for c in self.control]
+            target_idx = [idx.index(circuit_qubits.index(t)) for t in self.target]
         else:
             control_idx = list(range(num_control))
             target_idx = list(range(num_control, num_qubits))
@@ -568,6 +570,21 @@ class ControlledOperation(Operation):
         )
         return matrix
 
+    @property
+    def _target_unitary(self) -> NDArray:
+        """The matrix of the target operation."""
+        # parametric target operations only have a matrix when given parameters
+        if not hasattr(self, "parameters"):
+            return self.target_operation.matrix
+
+        # the target operation should not be applied to an active circuit
+        active_context = CircuitContext._active_context
+        CircuitContext._active_context = None
+        try:
+            return self.target_operation(self.parameters).matrix
+        finally:
+            CircuitContext._active_context = active_context
+
     @property
     def control(self) -> Optional[tuple[Qubit]]:
         """Control qubit(s)."""
@@ -650,7 +667,7 @@ class ParametricControlledOperation(ControlledOperation, ParametricOperation):
     @mixedproperty(self_required=True)
     def matrix(cls, self) -> NDArray:
         """The matrix representation of the parametric controlled operation."""
-        self._target_matrix = cls.target_operation(self.parameters).matrix
+        self._target_matrix = self._target_unitary
 
         # signature of super required for correct self to be passed along (do not remove)
         # if removed, 'matrix' attribute will crash due to '_target_matrix' not found
diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index 0dbe83e..912ddec 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -91,10 +91,7 @@ def apply_instruction(
 
     elif isinstance(op, ops.ControlledOperation):
         # should be single qubit gate with controls
-        if isinstance(op, ops.ParametricOperation):
-            gate = op.target_operation(op.parameters).matrix
-        else:
-            gate = op.target_operation.matrix
+        gate = op._target_unitary
         gate = np.array(gate, dtype=np.complex128, order="C")
         assert gate.shape == (2, 2), (op, gate)
         if conjugate_gate:
diff --git a/dwave/gate/tools/unitary.py b/dwave/gate/tools/unitary.py
index c65e5d3..e38ce8d 100644
--- a/dwave/gate/tools/unitary.py
+++ b/dwave/gate/tools/unitary.py
@@ -100,13 +100,8 @@ def _apply_controlled_gate(state: NDArray, op: ControlledOperation, qubits) -> N
     """
     control_idx = [qubits.index(c) for c in op.control or []]
     target_idx = [qubits.index(t) for t in op.target or []]
-    # parametric target operations only have a matrix when given parameters
-    if hasattr(op, "parameters"):
-        target_operation = op.target_operation(op.parameters)
-    else:
-        target_operation = op.target_operation
     controlled_unitary = build_controlled_unitary(
-        control_idx, target_idx, target_operation.matrix, len(qubits)
+        control_idx, target_idx, op._target_unitary, len(qubits)
     )
     return controlled_unitary @ state
 
-- 
2.43.0


From 6b8b4f7cae68e25d85e3c6fcfac0ab3b5ee8295c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:08 +0000
Subject: [PATCH 46/70] fix: QIR programs number qubits and bits by their
 position in the circuit

---
 dwave/gate/qir/compiler.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index c98a62b..fe34ab5 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -348,6 +348,10 @@ def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
     """
     module = BaseModule("Circuit", num_qubits=circuit.num_qubits, num_bits=circuit.num_bits)
 
+    # qubits and bits are numbered by their positions in the whole circuit
+    qubit_index = {qb: idx for idx, qb in enumerate(circuit.qubits)}
+    bit_index = {b: idx for idx, b in enumerate(circuit.bits)}
+
     block = "body"
     for op in circuit.circuit:
         type_, pyqir_op = Operations.to_qir.get(op.__class__.name, (None, None))
@@ -365,9 +369,7 @@ def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
             block = "measurements"
 
             for qb, b in zip(op.qubits, op.bits):
-                _, qubit_idx = circuit.find_qubit(qb)
-                _, bit_idx = circuit.find_bit(b)
-                args = (module.qubits[qubit_idx], module.results[bit_idx])
+                args = (module.qubits[qubit_index[qb]], module.results[bit_index[b]])
 
                 measurement_instruction = Instruction(InstrType.MEASUREMENT, pyqir_op, args)
                 module.add_instruction("measurements", measurement_instruction)
@@ -386,8 +388,7 @@ def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
                 args.extend(op.parameters)
 
             for qb in op.qubits:
-                _, qubit_idx = circuit.find_qubit(qb)
-                args.append(module.qubits[qubit_idx])
+                args.append(module.qubits[qubit_index[qb]])
 
             if type_ is InstrType.EXTERNAL:
                 body_instruction = module.get_external_instruction(pyqir_op, args)
-- 
2.43.0


From f31860c962f7d0dbccf388ed17984cbb1670caa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:08 +0000
Subject: [PATCH 47/70] fix: identity operations are left out of QIR programs
 instead of failing

---
 dwave/gate/qir/compiler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index fe34ab5..63e1fde 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -396,6 +396,8 @@ def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
                 body_instruction = Instruction(InstrType.BASE, pyqir_op, args)
 
             module.add_instruction("body", body_instruction)
+        elif type_ is InstrType.SKIP:
+            continue
         elif type_ is InstrType.DECOMPOSE or (type_ is InstrType.EXTERNAL and not add_external):
             raise NotImplementedError("Operation decompositions not supported.")
         else:
-- 
2.43.0


From e65effde85fb0d8fd0226e8d073b2e6d72c1e19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:08 +0000
Subject: [PATCH 48/70] fix: conditional operations are refused in QIR programs
 instead of made unconditional

---
 dwave/gate/qir/compiler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index 63e1fde..23b1ad6 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -354,6 +354,9 @@ def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
 
     block = "body"
     for op in circuit.circuit:
+        if op._cond:
+            raise NotImplementedError("Conditional operations are not supported in QIR.")
+
         type_, pyqir_op = Operations.to_qir.get(op.__class__.name, (None, None))
         if add_external and type_ is InstrType.EXTERNAL:
             qubit_type = module.Types.QUBIT
-- 
2.43.0


From 1c1d0fa7cc67557ada1c48a6448b32f51005a2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:08 +0000
Subject: [PATCH 49/70] fix: external QIR functions are declared with
 parameters before qubits, as called

---
 dwave/gate/qir/compiler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index 23b1ad6..d310230 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -363,7 +363,8 @@ def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
             param_type = module.Types.DOUBLE
 
             num_parameters = getattr(op, "num_parameters", 0)
-            parameter_types = [qubit_type] * op.num_qubits + [param_type] * num_parameters
+            # same order as the arguments below
+            parameter_types = [param_type] * num_parameters + [qubit_type] * op.num_qubits
 
             module.add_external_function(pyqir_op, parameter_types=parameter_types)
 
-- 
2.43.0


From 10734eb98e2672f0d83e8061e5350e53fc10ac4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:08 +0000
Subject: [PATCH 50/70] fix: external QIR functions are declared once instead
 of once per operation

---
 dwave/gate/qir/compiler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index d310230..69e99d7 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -358,7 +358,11 @@ def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
             raise NotImplementedError("Conditional operations are not supported in QIR.")
 
         type_, pyqir_op = Operations.to_qir.get(op.__class__.name, (None, None))
-        if add_external and type_ is InstrType.EXTERNAL:
+        if (
+            add_external
+            and type_ is InstrType.EXTERNAL
+            and pyqir_op not in module._external_functions
+        ):
             qubit_type = module.Types.QUBIT
             param_type = module.Types.DOUBLE
 
-- 
2.43.0


From 879f5639aefd2b52c98b05ce8b7fa9a2116386ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:27 +0000
Subject: [PATCH 51/70] fix: integer parameters of external operations can be
 exported to QIR

---
 dwave/gate/qir/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index 69e99d7..53e649a 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -393,7 +393,7 @@ def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
 
             # if isinstance(op, ParametricOperation):
             if hasattr(op, "parameters"):
-                args.extend(op.parameters)
+                args.extend(float(p) for p in op.parameters)
 
             for qb in op.qubits:
                 args.append(module.qubits[qubit_index[qb]])
-- 
2.43.0


From 94be4bcf1cc3e572ba7222f979b1951e51171e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:27 +0000
Subject: [PATCH 52/70] fix: operations with several parameters can be loaded
 from QIR

---
 dwave/gate/qir/loader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/qir/loader.py b/dwave/gate/qir/loader.py
index 3e84ab0..783c3cd 100644
--- a/dwave/gate/qir/loader.py
+++ b/dwave/gate/qir/loader.py
@@ -122,9 +122,12 @@ def _module_to_circuit(module: Module, circuit: Optional[Circuit] = None) -> Cir
                     for _ in range(circuit.num_qubits, max(qubits or [0]) + 1):
                         circuit.add_qubit()
 
+                    # parameters are passed as a single sequence
+                    args = (params,) if params else ()
+
                     circuit.unlock()
                     with circuit.context as reg:
-                        getattr(ops, op_name)(*params, qubits=[reg.q[qubit] for qubit in qubits])
+                        getattr(ops, op_name)(*args, qubits=[reg.q[qubit] for qubit in qubits])
 
     # finally, add measurements (if any) to circuit
     if meas_qubits:
-- 
2.43.0


From 00f91fd92e493769648eb6b390146c52c95cc4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:27 +0000
Subject: [PATCH 53/70] fix: QIR programs can measure qubits that no operation
 is applied to

---
 dwave/gate/qir/loader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dwave/gate/qir/loader.py b/dwave/gate/qir/loader.py
index 783c3cd..a5bc434 100644
--- a/dwave/gate/qir/loader.py
+++ b/dwave/gate/qir/loader.py
@@ -144,6 +144,9 @@ def _add_measurements(circuit: Circuit, qubits: Sequence[int], bits: Sequence[in
         qubits: The qubits that are being measured.
         bits: The bits in which the measurement values are stored.
     """
+    for _ in range(circuit.num_qubits, max(qubits or [0]) + 1):
+        circuit.add_qubit()
+
     for _ in range(circuit.num_bits, max(bits or [0]) + 1):
         circuit.add_bit()
 
-- 
2.43.0


From 6a0c6edbdf5e1053897fb2440392f77cc6d38007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:31 +0000
Subject: [PATCH 54/70] fix: loading QIR into a circuit with several registers
 keeps the qubit positions

---
 dwave/gate/qir/loader.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/dwave/gate/qir/loader.py b/dwave/gate/qir/loader.py
index a5bc434..4397f35 100644
--- a/dwave/gate/qir/loader.py
+++ b/dwave/gate/qir/loader.py
@@ -119,8 +119,7 @@ def _module_to_circuit(module: Module, circuit: Optional[Circuit] = None) -> Cir
                         # delay adding until all measurements are collected
                         continue
 
-                    for _ in range(circuit.num_qubits, max(qubits or [0]) + 1):
-                        circuit.add_qubit()
+                    _add_qubits(circuit, max(qubits or [0]) + 1)
 
                     # parameters are passed as a single sequence
                     args = (params,) if params else ()
@@ -136,6 +135,19 @@ def _module_to_circuit(module: Module, circuit: Optional[Circuit] = None) -> Cir
     return circuit
 
 
+def _add_qubits(circuit: Circuit, num_qubits: int) -> None:
+    """Add missing qubits to the circuit.
+
+    Args:
+        circuit: The circuit to add the qubits to.
+        num_qubits: The number of qubits that the circuit should contain at least.
+    """
+    # add to the last register; keeps the positions of all other qubits
+    qreg_label = next(reversed(circuit.qregisters), None)
+    for _ in range(circuit.num_qubits, num_qubits):
+        circuit.add_qubit(qreg_label=qreg_label)
+
+
 def _add_measurements(circuit: Circuit, qubits: Sequence[int], bits: Sequence[int]) -> None:
     """Add measurements to circuit.
 
@@ -144,11 +156,12 @@ def _add_measurements(circuit: Circuit, qubits: Sequence[int], bits: Sequence[in
         qubits: The qubits that are being measured.
         bits: The bits in which the measurement values are stored.
     """
-    for _ in range(circuit.num_qubits, max(qubits or [0]) + 1):
-        circuit.add_qubit()
+    _add_qubits(circuit, max(qubits or [0]) + 1)
 
+    # add missing bits to the last register; keeps the positions of all other bits
+    creg_label = next(reversed(circuit.cregisters), None)
     for _ in range(circuit.num_bits, max(bits or [0]) + 1):
-        circuit.add_bit()
+        circuit.add_bit(creg_label=creg_label)
 
     circuit.unlock()
     with circuit.context as reg:
-- 
2.43.0


From c7b2afc69aee3ea755e6a237c27e25e4ed8e60e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:31 +0000
Subject: [PATCH 55/70] fix: operations following measurements stay behind them
 when loaded from QIR

---
 dwave/gate/qir/loader.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/qir/loader.py b/dwave/gate/qir/loader.py
index 4397f35..8730f45 100644
--- a/dwave/gate/qir/loader.py
+++ b/dwave/gate/qir/loader.py
@@ -116,9 +116,14 @@ def _module_to_circuit(module: Module, circuit: Optional[Circuit] = None) -> Cir
                     if op_name == "Measurement":
                         meas_qubits.extend(qubits)
                         meas_bits.extend(bits)
-                        # delay adding until all measurements are collected
+                        # delay adding until all consecutive measurements are collected
                         continue
 
+                    if meas_qubits:
+                        # keep the order of operations following measurements
+                        _add_measurements(circuit, meas_qubits, meas_bits)
+                        meas_qubits, meas_bits = [], []
+
                     _add_qubits(circuit, max(qubits or [0]) + 1)
 
                     # parameters are passed as a single sequence
-- 
2.43.0


From e6b5afa6190dc6a8d511de4fd3c1cfe2178705fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:31 +0000
Subject: [PATCH 56/70] fix: QIR modules can be reset before being compiled and
 more than once

---
 dwave/gate/qir/compiler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index 53e649a..ae950be 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -304,7 +304,9 @@ class BaseModule:
         """
         self._module = pyqir.qir_module(self.context, self.name, **self._module_kwargs)
         self._remove_external_instructions()
-        self._return.erase()
+        if self._return is not None:
+            self._return.erase()
+            self._return = None
 
         if rm_instructions:
             for key in self._instructions:
-- 
2.43.0


From ff33bf0ea54c5bb4acf0a4e5b207f4b289530220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:31 +0000
Subject: [PATCH 57/70] fix: external instructions are kept when recompiling a
 QIR module

---
 dwave/gate/qir/compiler.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index ae950be..9d8d394 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -303,7 +303,6 @@ class BaseModule:
             rm_instructions: Whether to also reset all instructions.
         """
         self._module = pyqir.qir_module(self.context, self.name, **self._module_kwargs)
-        self._remove_external_instructions()
         if self._return is not None:
             self._return.erase()
             self._return = None
@@ -319,23 +318,26 @@ class BaseModule:
             # replace all external function with new ones using the _new_ module
             # must be after the new 'self._module' declaration above
             for name, exfunc in self._external_functions.items():
-                function_type = self.Types.function(
-                    exfunc.type.ret, [p.type for p in exfunc.params]
-                )
-                self._external_functions[name] = pyqir.Function(
-                    function_type, Linkage.EXTERNAL, exfunc.name, self._module
-                )
+                self._external_functions[name] = self._redeclare(exfunc)
+            self._rebind_external_instructions()
 
         self._is_compiled = False
         self._qir = self._bitcode = None
 
-    def _remove_external_instructions(self) -> None:
-        """Removes all external functions from the instructions."""
-        for block, instructions in self._instructions.items():
-            instr_len = len(instructions)
-            for i, instr in enumerate(reversed(instructions)):
+    def _redeclare(self, function: pyqir.Function) -> pyqir.Function:
+        """Declares an external function from a former module in the current one."""
+        function_type = self.Types.function(function.type.ret, [p.type for p in function.params])
+        return pyqir.Function(function_type, Linkage.EXTERNAL, function.name, self._module)
+
+    def _rebind_external_instructions(self) -> None:
+        """Rebinds all external instructions to the functions in the current module."""
+        for instructions in self._instructions.values():
+            for i, instr in enumerate(instructions):
                 if instr.type is InstrType.EXTERNAL:
-                    del self._instructions[block][instr_len - i - 1]
+                    if instr.name not in self._external_functions:
+                        self._external_functions[instr.name] = self._redeclare(instr._external)
+
+                    instructions[i] = self.get_external_instruction(instr.name, instr.args)
 
 
 def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
-- 
2.43.0


From 46266f4ae9ced98272edcfd68563db9a3941e339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:14 +0000
Subject: [PATCH 58/70] fix: QIR modules can be compiled after a failed
 compilation

---
 dwave/gate/qir/compiler.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index 9d8d394..d0fbc4e 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -146,13 +146,18 @@ class BaseModule:
                 )
             self.reset(rm_instructions=False)
 
-        self._compile()
+        try:
+            self._compile()
 
-        self._return = self.builder.ret(self._return_cmd)
+            self._return = self.builder.ret(self._return_cmd)
 
-        error_msg = self._module.verify()
-        if error_msg is not None and strict:
-            raise CompileError(error_msg)
+            error_msg = self._module.verify()
+            if error_msg is not None and strict:
+                raise CompileError(error_msg)
+        except Exception:
+            # remove the partially compiled program
+            self.reset(rm_instructions=False)
+            raise
 
         self._qir = str(self._module)
         self._bitcode = self._module.bitcode
-- 
2.43.0


From a00fd97fb95e87580337bd1d2442cc24b531c617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:14 +0000
Subject: [PATCH 59/70] fix: QIR instructions can be compared with other
 objects

---
 dwave/gate/qir/instructions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dwave/gate/qir/instructions.py b/dwave/gate/qir/instructions.py
index 143edf9..65430ee 100644
--- a/dwave/gate/qir/instructions.py
+++ b/dwave/gate/qir/instructions.py
@@ -190,6 +190,9 @@ class Instruction:
         Two instructions are considered equal if they have the same name, type,
         number of qubits and number of results.
         """
+        if not isinstance(value, Instruction):
+            return NotImplemented
+
         eq_name = self.name == value.name
         eq_type = self.type == value.type
 
-- 
2.43.0


From 3412c1746f1a236ce1b5a395f8e700dbc33ed8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:26 +0000
Subject: [PATCH 60/70] fix: OpenQASM reserved words are refused as register
 labels

---
 dwave/gate/circuit.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 097f165..e28fb45 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -60,6 +60,11 @@ Bits = Union[Bit, Sequence[Bit]]
 class CircuitError(Exception):
     """Exception to be raised when there is an error with a Circuit."""
 
+# reserved words (starting with a lowercase letter) that cannot be used as names in OpenQASM 2.0
+_QASM_KEYWORDS = frozenset(
+    "barrier cos creg exp gate if include ln measure opaque pi qreg reset sin sqrt tan".split()
+)
+
 
 class Circuit:
     """Class to build and manipulate quantum circuits.
@@ -653,6 +658,8 @@ class Circuit:
             for label in labels:
                 if not re.fullmatch("[a-z][A-Za-z0-9_]*", label):
                     raise CircuitError(f"Register label '{label}' is not a valid OpenQASM name.")
+                if label in _QASM_KEYWORDS:
+                    raise CircuitError(f"Register label '{label}' is reserved in OpenQASM.")
                 if labels.count(label) > 1:
                     raise CircuitError(f"Register label '{label}' used for several registers.")
 
-- 
2.43.0


From 895015e31dd3c48c031886dba8ed5c30971a5359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:06 +0000
Subject: [PATCH 61/70] fix: leaving a circuit context locks the circuit even
 if an exit function fails

---
 dwave/gate/circuit.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index e28fb45..d5d2d48 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -970,11 +970,12 @@ class CircuitContext:
         # TODO: add setting to automatically add missing qubits on exit (or raise error)
         CircuitContext._active_context = None
 
-        for exit_func in self.on_exit_functions:
-            exit_func()
-        self.on_exit_functions.clear()
-
-        self.circuit.lock()
+        try:
+            for exit_func in self.on_exit_functions:
+                exit_func()
+        finally:
+            self.on_exit_functions.clear()
+            self.circuit.lock()
 
     @mixedproperty
     def active_context(cls) -> Optional[CircuitContext]:
-- 
2.43.0


From 2bf790dad8cc64363ccb54cb31f614688baee034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:18 +0000
Subject: [PATCH 62/70] fix: frozen registers do not add items when asked for
 their index permissively

---
 dwave/gate/registers/registers.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/dwave/gate/registers/registers.py b/dwave/gate/registers/registers.py
index 688001f..6f4a5ef 100644
--- a/dwave/gate/registers/registers.py
+++ b/dwave/gate/registers/registers.py
@@ -74,6 +74,21 @@ class Register(cyRegister, AbstractSet[Data], Sequence[Data]):
         """Freezes the register so that no (qu)bits can be added or removed."""
         self._frozen = True
 
+    def index(self, v: Hashable, permissive: bool = False) -> int:
+        """Return the index of an item.
+
+        Args:
+            v: Item in the register.
+            permissive: Whether to add the item to the register if it is not there.
+
+        Returns:
+            int: Index of the item.
+        """
+        if permissive and self.frozen and v not in self:
+            raise RegisterError("Register is frozen and no more data can be added.")
+
+        return super().index(v, permissive)
+
     def __str__(self) -> str:
         """Returns the data as a string."""
         return f"{self.__class__.__name__}({list(self)})"
-- 
2.43.0


From c9351999cf20c3b612bbbc2092f43e03f8e22d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:10 +0000
Subject: [PATCH 63/70] fix: extending a circuit with its own operations ends

---
 dwave/gate/circuit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index d5d2d48..d7e6b3a 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -238,7 +238,8 @@ class Circuit:
         """
         num_operations = len(self._circuit)
         try:
-            for op in operations:
+            # the operations may be the circuit's own, which grow when appending
+            for op in tuple(operations):
                 self.append(op)
         except Exception:
             # either all operations are appended or none
-- 
2.43.0


From 7adcf2a7e2fde572d9ae272beea3764cd3e38520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:15 +0000
Subject: [PATCH 64/70] fix: applying a parametric circuit outside of a context
 leaves no reset behind

---
 dwave/gate/circuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index d7e6b3a..853f048 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -784,8 +784,8 @@ class ParametricCircuit(Circuit):
             for i, var in enumerate(self._parameter_register):
                 var.set(parameters[i])
 
-        # delay reset variables function call to on context exit
-        CircuitContext.on_exit_functions.append(self.reset_variables)
+            # delay reset variables function call to on context exit
+            CircuitContext.on_exit_functions.append(self.reset_variables)
 
         return super().__call__(qubits=qubits, bits=bits)
 
-- 
2.43.0


From 5b8048b0bfdc612f85202661956c5ed18200e338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:10 +0000
Subject: [PATCH 65/70] fix: registers without a label get one that is not in
 use

---
 dwave/gate/circuit.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 853f048..08ebadd 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -480,7 +480,9 @@ class Circuit:
                 integer starting at 0).
         """
         if label is None:
-            label = f"qreg{len(self.qregisters)}"
+            # the label may have been given to another register
+            numbers = itertools.count(len(self.qregisters))
+            label = next(l for i in numbers if (l := f"qreg{i}") not in self.qregisters)
 
         if label in self._qregisters:
             raise ValueError(f"Quantum register {label} already present in the circuit.")
@@ -502,7 +504,9 @@ class Circuit:
                 integer starting at 0).
         """
         if label is None:
-            label = f"creg{len(self.cregisters)}"
+            # the label may have been given to another register
+            numbers = itertools.count(len(self.cregisters))
+            label = next(l for i in numbers if (l := f"creg{i}") not in self.cregisters)
 
         if label in self._cregisters:
             raise ValueError(f"Classical register {label} already present in the circuit")
-- 
2.43.0


From 6ba6b497172df903efa0422b13a06160daffeefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:45 +0000
Subject: [PATCH 66/70] fix: failing to evaluate an operation in place leaves
 all its variables

---
 dwave/gate/operations/base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 0231dfe..3fd1f90 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -398,15 +398,18 @@ class ParametricOperation(Operation):
         """
         op = self if inplace else copy.deepcopy(self)
 
-        for i, p in enumerate(op.parameters):
+        # only replaced once all values are known
+        values = list(op.parameters)
+        for i, p in enumerate(values):
             if isinstance(p, Variable):
                 if parameters:
-                    op.parameters[i] = parameters[i]
+                    values[i] = parameters[i]
                 elif p.value is not None:
-                    op.parameters[i] = p.value
+                    values[i] = p.value
                 else:
                     raise ValueError("No available parameter to evaluate with.")
 
+        op.parameters[:] = values
         return op
 
     @mixedproperty
-- 
2.43.0


From 4d683babd8141f059f5f9293b7fb266a6c8e9415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:51 +0000
Subject: [PATCH 67/70] fix: operations refused by a circuit keep their
 variables

---
 dwave/gate/circuit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 08ebadd..0aba596 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -218,16 +218,16 @@ class Circuit:
                 "Circuit is locked and no more operations can be appended. To "
                 "unlock the circuit, call 'Circuit.unlock()' first."
             )
+        for q in operation.qubits or []:
+            if q not in self.qubits:
+                raise ValueError(f"Qubit '{q}' not in circuit.")
+
         if not self.parametric:
             # if a parametric operation is called within a non-parameteric circuit, all variables
             # should be replaced by their corresponding parameter values; eval does that
             eval = getattr(operation, "eval", None)
             operation = eval(inplace=True) if eval else operation
 
-        for q in operation.qubits or []:
-            if q not in self.qubits:
-                raise ValueError(f"Qubit '{q}' not in circuit.")
-
         self._circuit.append(operation)
 
     def extend(self, operations: Sequence[Operation]) -> None:
-- 
2.43.0


From f66176a8d84692d941c44ece7aaf72f3509593d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:53 +0000
Subject: [PATCH 68/70] fix: evaluated circuits keep conditions on their own
 bits

---
 dwave/gate/circuit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 0aba596..e486e2d 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -833,7 +833,8 @@ class ParametricCircuit(Circuit):
         for i, op in enumerate(circuit.circuit):
             eval = getattr(op, "eval", None)
             params = parameters[i] if parameters else None
-            circuit.circuit[i] = eval(params, inplace) if eval else op
+            # operations of a copy are copies already, acting on its qubits and bits
+            circuit.circuit[i] = eval(params, inplace=True) if eval else op
 
         return circuit
 
-- 
2.43.0


From d3d1215c8c288c999139aa1fd303811a21f8a360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:00 +0000
Subject: [PATCH 69/70] fix: evaluated operations keep conditions on the same
 bits

---
 dwave/gate/operations/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 3fd1f90..c2500b4 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -397,6 +397,8 @@ class ParametricOperation(Operation):
             ValueError: If no parameters are passed and if variable has no set value.
         """
         op = self if inplace else copy.deepcopy(self)
+        # copies act on the same qubits, under the same conditions
+        op._qubits, op._cond = self._qubits, self._cond
 
         # only replaced once all values are known
         values = list(op.parameters)
-- 
2.43.0


From 96ff86cc472ac3cbda5aeef7901776fdfb5bda25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:46 +0000
Subject: [PATCH 70/70] fix: operations recorded twice are evaluated with their
 own values

---
 dwave/gate/circuit.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index e486e2d..0aba596 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -833,8 +833,7 @@ class ParametricCircuit(Circuit):
         for i, op in enumerate(circuit.circuit):
             eval = getattr(op, "eval", None)
             params = parameters[i] if parameters else None
-            # operations of a copy are copies already, acting on its qubits and bits
-            circuit.circuit[i] = eval(params, inplace=True) if eval else op
+            circuit.circuit[i] = eval(params, inplace) if eval else op
 
         return circuit
 
-- 
2.43.0

