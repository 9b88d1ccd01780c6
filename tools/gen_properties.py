#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording stays reviewable)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        anchors["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": anchors})


G = "dwave/gate/"
SIM = G + "simulator/simulator.pyx"
GEN = G + "simulator/operation_generation.py"
BASE = G + "operations/base.py"
OPS = G + "operations/operations.py"
CIR = G + "circuit.py"
CYR = G + "registers/cyregister.pyx"
REG = G + "registers/registers.py"
PRI = G + "primitives.py"
UNI = G + "tools/unitary.py"
CNT = G + "tools/counters.py"
QC = G + "qir/compiler.py"
QI = G + "qir/instructions.py"
QL = G + "qir/loader.py"
MIX = G + "mixedproperty.py"

# ------------------------------------------------------------------ simulator
prop("S01", "State-vector simulation is the ordered product of the gate matrices",
     "Simulating a measurement-free circuit from the all-zero state leaves exactly the vector obtained by applying, in order, every operation's matrix to the qubits it names (first qubit most significant), and the identity to all others. This holds for every supported gate, every choice and order of distinct qubits, every parameter value and every user-defined single-qubit matrix.",
     ["programs", "inputs"], "every gate sequence, qubit assignment, angle and single-qubit matrix, up to the stated number of qubits",
     "Tests compare a handful of fixed circuits; a wrong index or swapped operand for one particular ordering of targets, or for a non-symmetric matrix, stays invisible.",
     [SIM, GEN], [("gate dispatch to kernels", SIM + ": apply_instruction, simulate"), ("generated amplitude kernels", GEN + ": generate_op_c_code")],
     ["Circuit.state"])
prop("S02", "Little-endian results are big-endian results with qubit order reversed",
     "Simulating with little-endian indexing gives the same amplitudes as big-endian simulation with every basis index bit-reversed, for pure-state and for density-matrix simulation. The choice never changes which physical qubit an operation acts on.",
     ["programs", "inputs", "configurations"], "every circuit, both indexing conventions, both simulation methods, up to the stated size",
     "The two conventions are separate generated code paths; tests only sample a few gates per path.",
     [SIM, GEN], [("endianness selection", SIM + ": simulate, apply_instruction"), ("qubit index to bit position", GEN + ": qubit_index")],
     ["Circuit.state", "Circuit.density_matrix"])
prop("S03", "Density-matrix simulation equals the outer product of the pure state",
     "For a measurement-free circuit, density-matrix simulation yields exactly the outer product of the state vector with its own conjugate, so the result is Hermitian with unit trace. Reading the density matrix after pure-state simulation yields the same matrix.",
     ["programs", "inputs"], "every gate sequence with complex amplitudes and every angle, up to the stated size",
     "Missing conjugations only show with complex amplitudes on particular gates; tests use mostly real states.",
     [SIM, CIR], [("virtual-qubit conjugate application", SIM + ": _simulate_circuit_density_matrix"), ("pure state to density matrix", CIR + ": Circuit.density_matrix")],
     ["Circuit.density_matrix"])
prop("S04", "Amplitude kernels touch each amplitude exactly once, for any size",
     "Each low-level routine that applies a gate, swap or measurement projector to a state of n qubits only accesses indices below 2^n, updates every affected amplitude exactly once from its pre-update partner amplitudes, and leaves all others unchanged. This holds for any number of qubits and any distinct target and control positions, without integer overflow or undefined shifts.",
     ["inputs", "configurations"], "all qubit counts up to 40, all distinct target/control positions, all loop iterations, all amplitudes",
     "A test machine can only hold about 30 qubits, and index arithmetic may fail only for wide shifts or a particular ordering of positions.",
     [GEN], [("index expansion masks", GEN + ": generate_op_c_code masks/positions"), ("shift width", GEN + ": shift, num_states")],
     ["state vector memory after the routine returns"])
prop("S05", "Measuring follows the Born rule, collapses the state and records outcomes",
     "Measuring a qubit returns 0 exactly when the uniform random draw is below the squared norm of the 0-component and 1 otherwise; the state becomes the renormalised projection on the outcome, and each outcome is written to the bit paired with that qubit. Qubits measured together are measured one after another on the already collapsed state, and no outcome of zero probability is ever reported.",
     ["inputs", "programs"], "every state, random draw, measured qubit set and bit assignment, up to the stated size",
     "Tests see few random draws and mostly basis states; boundary draws, partial collapses and bit/qubit pairing order need every value.",
     [SIM, GEN, BASE], [("operator selection", GEN + ": generate_op_set"), ("bit recording", SIM + ": _measure, sample_qubit"), ("qubit to bit pairing", BASE + ": Measurement.__or__")],
     ["Circuit.state", "Bit.value", "sample_qubit return value"])
prop("S06", "Sampling a measurement re-draws from the stored pre-measurement state",
     "Samples of a simulated measurement contain one entry per requested qubit (by default per measured qubit), in order, each drawn by the Born rule from the state just before the measurement; sampling leaves the stored state, the bits and the circuit unchanged, and expectation values are the means of such samples. Simulating the circuit again does not alter the shape of the samples.",
     ["histories", "inputs"], "every state, draw, qubit selection, sample count and number of earlier simulations, within the stated bounds",
     "Tests check fixed seeds and single simulations; accumulated or aliased measurement records only show across repeated use.",
     [BASE, SIM], [("measurement record", SIM + ": _measure"), ("sampling", BASE + ": Measurement.sample, expval")],
     ["Measurement.sample", "Measurement.expval", "Measurement.state"])
prop("S07", "Conditional operations take effect exactly when all their bits are one",
     "An operation conditioned on one or more classical bits acts in simulation exactly as unconditioned when every one of those bits holds 1 at that point of the run, and does nothing when any of them holds 0. The bit values are those current when the operation is reached, including outcomes measured earlier in the same run; the same holds for circuits obtained by evaluating or applying others.",
     ["programs", "inputs"], "every operation kind, condition set and vector of bit values, within the stated bounds",
     "Measured bits are random; tests pin a few outcomes rather than all combinations of bits and operations.",
     [BASE, SIM], [("blocking test", BASE + ": Operation.is_blocked, conditional"), ("dispatch guard", SIM + ": apply_instruction")],
     ["Circuit.state"])
prop("S08", "Simulation is repeatable and does not alter the circuit",
     "Simulating changes neither the operations, their order, parameters and qubits, nor the registers of a circuit, and always starts from the all-zero state: simulating again with the same seed or random draws and the same preset bits gives the same state and the same measured bits, whatever was simulated before. User-provided operation matrices are left untouched and may have any memory layout.",
     ["histories", "programs"], "every circuit and every sequence of simulations (both methods, both endiannesses), within the stated bounds",
     "Tests simulate each circuit once; leftovers of a previous run or in-place modification of shared arrays only show later.",
     [SIM, CIR, BASE], [("state initialisation", SIM + ": simulate"), ("result storage", CIR + ": Circuit.set_state")],
     ["Circuit.state", "Circuit.circuit", "Bit.value"])

# ------------------------------------------------------------------ gates
prop("G01", "Every built-in gate matrix is its textbook unitary for all parameters",
     "The matrix of each built-in gate equals the standard definition of that gate for every real parameter value (control qubits first and most significant), and is unitary. Aliases denote the same gate, and reading a matrix never hands out storage that lets one caller change what another reads.",
     ["inputs"], "all built-in gates, all real parameter values",
     "A sign or half-angle error can cancel for the few angles tests use, and equals-up-to-phase mistakes pass probability tests.",
     [OPS, BASE], [("gate matrices", OPS + ": matrix properties"), ("controlled gate matrices", BASE + ": ControlledOperation.matrix")],
     ["Operation.matrix"])
prop("G02", "Controlled-unitary construction is right for any control/target layout",
     "Building a controlled unitary over n qubits applies the given 2x2 matrix to the target exactly on the basis states where all controls are 1, and is the identity elsewhere, for any distinct control and target positions in any order and any matrix. Overlapping control and target, or positions outside the qubit count, are rejected.",
     ["inputs"], "every number of qubits, control set and order, target position and matrix, up to the stated size",
     "Tests hit few layouts; insertion-order mistakes depend on the relative order of controls and target.",
     [UNI], [("bitstring insertion", UNI + ": build_controlled_unitary")], ["build_controlled_unitary return value"])
prop("G03", "A custom operation's matrix is the ordered product of its circuit's gates",
     "An operation created from a circuit of single-qubit and controlled operations has, as its matrix, the product in application order of the circuit's operations embedded on their qubits, and acts on as many qubits and parameters as the circuit. For parametric circuits the k-th parameter replaces the k-th circuit parameter wherever and however often it occurs.",
     ["programs", "inputs"], "every circuit of one-qubit and singly or multiply controlled gates, parameter binding and angle, within the stated bounds",
     "Parameters used twice, out of order or inside controlled gates are not sampled by tests.",
     [BASE, UNI], [("custom operation", BASE + ": create_operation"), ("unitary of a circuit", UNI + ": build_unitary")], ["matrix of created operation"])
prop("G04", "The unitary of a circuit always reflects the circuit's current operations",
     "Asking for the unitary of a circuit, or the matrix of an operation created from it, always gives the product for the operations the circuit contains at that moment, regardless of what was computed, returned or modified by callers before.",
     ["histories"], "every interleaving of building, appending, removing, resetting, and reading or modifying returned matrices, within the stated bounds",
     "Tests build each circuit once; stale or shared cached results only show after a later change.",
     [UNI, BASE, CIR], [("result caching", UNI + ": build_unitary"), ("lazy matrix", BASE + ": create_operation")], ["build_unitary return value", "matrix of created operation"])
prop("G05", "Declared decompositions and gate definitions reproduce the gate",
     "Wherever a gate declares a decomposition into other gates, or an OpenQASM definition in terms of standard gates, applying those gates in the order given reproduces the gate's matrix up to a global phase, for every parameter value.",
     ["inputs"], "every gate with a declared decomposition or definition, all real parameter values",
     "Tests check only that the names exist; the algebraic identity over all angles is never evaluated.",
     [OPS], [("decomposition lists", OPS + ": _decomposition"), ("OpenQASM definitions", OPS + ": _qasm_decl")], ["Operation.decomposition", "Circuit.to_qasm(gate_definitions=True)"])
prop("G06", "Operations reject wrong qubit or parameter counts, whatever happened before",
     "Constructing a built-in gate with qubits succeeds exactly when as many qubits as the gate acts on and as many parameters as it declares are supplied; otherwise an error is raised, nothing is appended to the active circuit. Qubits assigned to an existing operation are checked in the same way, and a refused assignment changes nothing. The outcome does not depend on which gates or attributes were used earlier in the process.",
     ["histories", "inputs"], "every gate, every number of qubits and parameters up to a bound, any earlier use",
     "Tests run in one order in one process; validation depending on lazily cached class state passes by luck.",
     [BASE], [("qubit validation", BASE + ": Operation._check_qubits"), ("lazy qubit count", BASE + ": ControlledOperation.num_qubits"), ("parameter validation", BASE + ": ParametricOperation._check_parameters")], ["constructor result"])
prop("G07", "Operation equality compares gate, qubits and parameters only",
     "Two operations compare equal exactly when they are of the same gate, act on the same qubits in the same order, and have equal parameters; comparing any two operations never fails. Re-applying an operation yields an equal operation, on the new qubits if given, and searching or removing operations in a circuit follows this equality.",
     ["inputs", "programs"], "every pair of operations, qubit tuples, parameter values, within the stated bounds",
     "Tests compare like with like; mixed kinds of operations in one circuit are not compared pairwise.",
     [BASE, CIR], [("equality", BASE + ": Operation.__eq__, ParametricOperation.__eq__"), ("re-application", BASE + ": __call__ methods"), ("removal", CIR + ": Circuit.remove")], ["==", "Circuit.remove"])

# ------------------------------------------------------------------ circuit
prop("C01", "A circuit's qubits and bits are always the concatenation of its registers",
     "After any sequence of adding qubits, bits and registers and of resets, the circuit's qubit (bit) sequence is the concatenation, in creation order, of its quantum (classical) registers, the counts match, and every newly requested qubit or bit is exactly the one given or a fresh one. A register requested without a label gets one that is not in use.",
     ["histories"], "every sequence of register-modifying calls with any register labels and bit values, within the stated length",
     "The combined view is cached; a stale cache needs a particular interleaving of reads and modifications.",
     [CIR], [("cached views", CIR + ": Circuit.qubits, Circuit.bits"), ("register changes", CIR + ": add_qubit, add_bit, add_qregister, add_cregister, reset")], ["Circuit.qubits", "Circuit.bits"])
prop("C02", "Finding and getting qubits and bits agree with the registers",
     "Finding a qubit or bit returns the register that holds it and its position there, such that indexing that register gives it back; getting by label returns the first, or all in order, of the items with exactly that label, limited to the named register if one is named. Absent items, labels or registers raise an error.",
     ["inputs", "histories"], "every register layout, item label, register label and queried item, within the stated bounds",
     "Duplicate labels, falsy labels and several registers are combinations tests do not enumerate.",
     [CIR], [("lookup", CIR + ": get_qubit, find_qubit, get_bit, find_bit")], ["return values of the lookups"])
prop("C03", "Rejected changes leave the circuit exactly as it was",
     "A qubit, bit or register label that is already present, an object of the wrong type, or an operation on qubits the circuit does not contain is refused with an error and leaves registers, operations and state, and the refused operation's parameters, unchanged. Consequently no qubit or bit ever occurs twice in a circuit and every operation acts only on the circuit's own qubits.",
     ["histories", "inputs"], "every rejected call after every short history of accepted calls",
     "Tests assert the raised error but rarely that nothing was modified before raising.",
     [CIR], [("validation before mutation", CIR + ": add_qubit, add_bit, add_qregister, append")], ["Circuit.qregisters", "Circuit.circuit"])
prop("C04", "Operations are recorded once, in application order, unless locked or frozen",
     "Inside a circuit's context each successfully constructed operation is appended to that circuit exactly once in program order; operations constructed outside any context or while the context is frozen are not appended, and nested freezing ends only with the outermost. Appending or extending by operations, the circuit's own included, adds each exactly once at the end. A locked circuit refuses appending and re-entering until unlocked.",
     ["programs", "histories"], "every program of constructions, freezes (nested, left normally or by an error), locks and unlocks, within the stated length",
     "The context is global state; only particular nestings or exceptions reveal leaks.",
     [CIR, BASE], [("append on construction", BASE + ": Operation.__init__"), ("freeze", CIR + ": CircuitContext.freeze"), ("lock", CIR + ": Circuit.lock, unlock, append")], ["Circuit.circuit"])
prop("C05", "At most one circuit context is active, and leaving it always releases it",
     "Entering a context while another is active is refused and leaves the active one in place; leaving a context, normally or by an exception, always clears the active context and locks its circuit, and exceptions propagate. Afterwards any unlocked circuit can be entered again.",
     ["histories", "fault_sequences"], "every sequence of enters, exits and exceptions over several circuits, parametric and not, within the stated length",
     "Failure inside a context poisons all later ones only in specific orders.",
     [CIR], [("context protocol", CIR + ": CircuitContext.__enter__, __exit__")], ["CircuitContext.active_context", "Circuit.is_locked"])
prop("C06", "Applying a circuit inside another replays it on the mapped qubits and bits",
     "Applying a circuit to given qubits and bits within another circuit's context appends, in order, the same gates with the same parameters, with every qubit and bit (of measurements and of conditions) replaced by the one at the same position in the given sequences. The applied circuit is unchanged, and wrong numbers of qubits or bits are rejected without appending anything.",
     ["programs", "inputs"], "every inner circuit over all operation kinds, every mapping, within the stated bounds",
     "Tests apply a few gates; conditions, set bits, controlled and parametric gates with permuted mappings are combinations.",
     [CIR], [("replay", CIR + ": Circuit.__call__")], ["Circuit.circuit of the outer circuit"])
prop("C07", "Binding parameters replaces each variable by its value, any value",
     "Evaluating a parametric operation or circuit, or applying it with a list of values, replaces every variable by exactly the value supplied for it (zero included), everywhere it occurs and in every kind of parametric gate, and leaves the original unevaluated unless asked to work in place. The result acts on the corresponding qubits and, conditions included, on the corresponding bits. Missing values raise an error instead of leaving a variable behind, and an operation that cannot be evaluated keeps its variables.",
     ["inputs", "programs"], "every real value, every use pattern of variables over parametric gates, within the stated bounds",
     "A value such as zero is falsy and slips through truthiness tests; tests use non-zero values.",
     [BASE, CIR, PRI], [("operation evaluation", BASE + ": ParametricOperation.eval"), ("circuit evaluation", CIR + ": ParametricCircuit.__call__, eval"), ("variable value", PRI + ": Variable")], ["Operation.parameters", "Circuit.circuit"])
prop("C08", "Parametric circuits hand out stable, consecutive parameter variables",
     "Within a parametric circuit's context, requesting the parameter at any index yields the same variable every time, creating exactly the missing ones up to that index (none for an index before the first); the number of parameters is the number of variables requested so far. Leaving the context fixes the number of parameters, and all variables are unset again after the circuit has been applied, and an application refused outside of contexts has no later effect.",
     ["histories"], "every sequence of index requests, freezes and applications, within the stated length",
     "Growth on access depends on the history of indices asked for.",
     [REG, CIR], [("self-incrementing register", REG + ": SelfIncrementingRegister.__getitem__"), ("variable reset", CIR + ": ParametricCircuit.reset_variables")], ["SelfIncrementingRegister", "ParametricCircuit.num_parameters"])
prop("C09", "A circuit stores exactly the valid quantum states it is given",
     "Setting a state is accepted exactly when it is a vector of unit norm with 2^n entries or a 2^n by 2^n matrix with unit trace, and, unless forced, no state is set yet; with normalisation requested any non-zero state is first scaled to that. The stored state is what is read back, and a refused state changes nothing.",
     ["inputs", "histories"], "every vector or matrix with real and complex entries up to the stated size, every order of set calls",
     "Mixed states other than rank-one matrices are not sampled, where vector norm and trace differ.",
     [CIR], [("state validation", CIR + ": Circuit.set_state, _assert_state"), ("state access", CIR + ": Circuit.state, density_matrix")], ["Circuit.state", "Circuit.density_matrix"])
prop("C10", "Resetting and removing leave exactly what they promise",
     "Removing an operation deletes exactly the first equal operation and keeps the order of the others; resetting removes all operations, unlocks the circuit, and either keeps the registers with every bit unset or removes all registers. After a reset the circuit can be used like a new one.",
     ["histories"], "every short history of appends, removes, resets and register changes",
     "Leftover caches, flags and bit values after a reset only show in later use.",
     [CIR], [("reset", CIR + ": Circuit.reset"), ("remove", CIR + ": Circuit.remove")], ["Circuit.circuit", "Circuit.qubits", "Circuit.is_locked"])

# ------------------------------------------------------------------ registers
prop("R01", "A register is an ordered collection of distinct items",
     "From any reachable register, adding items appends exactly the new ones in order and never duplicates one; membership, index, position access (also negative), iteration, length and equality of position and index always agree with one ordered list of distinct items. Items may be arbitrary hashable values, including integers that coincide with positions.",
     ["histories", "inputs"], "every valid register content up to the stated size with arbitrary labels, and any single operation from there",
     "Integer labels coinciding with positions are stored implicitly, so a bug needs a specific clash of label and position.",
     [CYR, REG], [("implicit integer labels", CYR + ": cyRegister._append, count, index, at")], ["Register contents"])
prop("R02", "Popping, removing and relabelling keep the remaining order",
     "From any reachable register, popping removes the last item, removing deletes one item and shifts the rest, clearing empties, and relabelling replaces labels simultaneously in place (swaps and cycles included) while refusing clashes unchanged. The mapping returned when relabelling to integers restores the original labels.",
     ["histories", "inputs"], "every valid register content up to the stated size, every item and every label mapping",
     "Relabelling conflicts need particular cycles between labels and positions.",
     [CYR], [("relabelling", CYR + ": _relabel, _iter_safe_relabels, _resolve_label_conflict"), ("removal", CYR + ": _remove, _pop")], ["Register contents"])
prop("R03", "Slicing, copying and adding registers follow sequence rules, independently",
     "Slicing with any start, stop and step gives the items a list would give, copying and adding give the expected items, and the results are complete registers of the same kind, independent of the originals: later changes to either do not affect the other.",
     ["inputs", "histories"], "every register content up to the stated size, every slice, every later modification",
     "Tests use forward in-range slices; negative or oversized bounds and use of the copy are not enumerated.",
     [CYR, REG], [("slicing", CYR + ": __getitem__"), ("copying", CYR + ": copy"), ("concatenation", REG + ": Register.__add__")], ["Register contents"])
prop("R04", "A frozen register can no longer gain items",
     "Once frozen, a register refuses every public attempt to add items, single or several, and its contents stay the same; an unfrozen register accepts exactly what it is given, treating strings as single items and sequences or registers as several.",
     ["histories", "inputs"], "every register content and every kind of addition, before and after freezing",
     "Acceptance depends on the type and number of the data given.",
     [REG], [("freezing", REG + ": Register.add, freeze")], ["Register contents"])

prop("R05", "Registers compare and combine as sets of their items",
     "Two registers of one kind are equal exactly when they hold the same items, and contain, properly contain or are disjoint from each other exactly as the sets of their items are. Their union, intersection, difference and symmetric difference are new registers of the same kind holding exactly the right items, each once, with consistent positions, leaving both operands unchanged and independent of the result. Reversing gives the items in reverse order. Items are told apart by identity and label, not by the values they currently hold.",
     ["inputs", "histories"], "every pair of register contents up to the stated sizes, every operator, and a change of an operand afterwards",
     "Registers inherit these operations and answer them through membership, iteration and construction; integer labels that coincide with positions in one operand but not the other are not tried.",
     [CYR, REG], [("membership and construction", CYR + ": cyRegister.__contains__, count, __iter__, __init__"), ("set and sequence operations", REG + ": Register")], ["Register contents"])

# ------------------------------------------------------------------ primitives / tools
prop("P01", "Qubits and bits get identifiers that are never issued twice",
     "Identifiers drawn one after another, in any number and with any batch size and starting length, are pairwise distinct until all identifiers of all lengths are used up, across batch refreshes and length increases; then drawing fails instead of repeating.",
     ["histories"], "every number of draws and refreshes, batch size and initial length, within the stated bounds",
     "A repetition would only appear after exhausting a batch or all identifiers of one length.",
     [CNT, PRI], [("batch refill", CNT + ": IDCounter.refresh, next")], ["Qubit.id", "Bit.id"])
prop("P02", "Qubit, bit and variable equality, hashing and values are consistent",
     "Qubits and bits are equal exactly when they are the same identifier, whatever their labels, and two equal ones hash equal; a bit holds unset, 0 or 1, equals exactly the value it holds, refuses silent overwriting unless forced, and can be reset. A variable equals (and hashes like) another with the same name, and equals exactly the value it has been set to, zero included.",
     ["inputs", "histories"], "every pair of objects, labels, names, values and set/reset history, within the stated bounds",
     "Zero, unset and relabelled cases are corner values that tests skip.",
     [PRI], [("equality and hashing", PRI + ": Qubit, Bit, Variable")], ["==, hash, Bit.value, Variable.value"])
prop("P03", "Mixed class/instance properties read the right object and cannot be set",
     "A property defined for both class and instance always evaluates its function with the class and, when read on an instance, that very instance; when it needs an instance and is read on the class it gives nothing. Assigning to it on an instance, or to a gate's matrix on the class, is refused for any value and changes nothing.",
     ["inputs", "configurations"], "every access path (class, subclass, instance), declared variant and underlying value",
     "Behaviour depends on combinations of access path and declaration that tests sample once each.",
     [MIX, BASE], [("descriptor access", MIX + ": mixedproperty.__get__, __set__"), ("locked attributes", BASE + ": ABCLockedAttr")], ["property reads and writes"])

# ------------------------------------------------------------------ IO
prop("Q01", "OpenQASM output states every operation on the right declared qubits",
     "Exporting a circuit to OpenQASM 2.0 declares every register with its size under distinct names and then lists one statement per operation in circuit order, naming the gate, its parameters exactly, and for each qubit in order the declared register and position that hold it, under either naming option. Circuits with content the format cannot express, and parametric circuits, are refused, not silently changed.",
     ["programs", "inputs"], "every circuit over exportable operations, register layout, label option and parameter value, within the stated bounds",
     "Several registers, label options and parameter values multiply; tests compare a few fixed strings.",
     [CIR, OPS, REG], [("export", CIR + ": Circuit.to_qasm"), ("statement formatting", BASE + ": Operation._map_qubits and to_qasm methods"), ("register declarations", REG + ": to_qasm")], ["Circuit.to_qasm"])
prop("Q02", "Exported OpenQASM defines each non-standard gate it uses exactly once",
     "When gate definitions are requested, every gate used in the output that needs a definition is defined exactly once before its first use, and gates that are not used are not defined; the statements are the same as without definitions.",
     ["programs"], "every circuit over the gates with and without definitions, within the stated length",
     "Repeated use of one gate, or mixtures, are not among the fixed strings tests compare.",
     [CIR, OPS], [("gate definitions", CIR + ": Circuit.to_qasm gate_definitions")], ["Circuit.to_qasm(gate_definitions=True)"])
prop("Q03", "QIR output calls the right function on the right qubits, in order",
     "Compiling a circuit to QIR produces, in circuit order, one call per operation to the function of that gate with exactly its parameters and with its qubits numbered by their position in the whole circuit, followed by the measurements, each from its qubit into its own result, with distinct qubits and bits getting distinct numbers, and the results recorded in that order. Identity operations are left out, and operations that cannot be expressed, such as conditional ones, gates after measurements, and without external functions gates outside of the base profile, raise an error instead of being dropped or reordered.",
     ["programs", "inputs"], "every circuit over all operation kinds, register layouts and parameter values, within the stated bounds",
     "Tests use single registers and a few gates; numbering collisions need several registers.",
     [QC, QI], [("compilation", QC + ": qir_module, BaseModule._compile"), ("operation table", QI + ": Operations.to_qir")], ["Circuit.to_qir"])
prop("Q04", "Loading exported QIR gives back the same circuit",
     "Exporting a circuit to QIR, as text or bitcode, and loading it gives a circuit with the same gates and parameters on the same qubit positions in the same order, and the same measured qubit and bit positions, omitting only identities. Loading into an existing circuit appends to it, with qubits and bits matched by position, and operations that follow a measurement of their qubit in a program stay behind it.",
     ["programs", "inputs"], "every exportable circuit, with or without external functions, within the stated bounds",
     "Round trips of every gate, parameter count and measurement layout are not in the tests.",
     [QL, QC, QI], [("loading", QL + ": _module_to_circuit, _deconstruct_call_instruction"), ("operation table", QI + ": Operations.from_qis_operation")], ["Circuit.from_qir"])
prop("Q05", "Recompiling or resetting a QIR module keeps or clears its program as stated",
     "Compiling a QIR module again by force yields the same program as the first time, external functions included; resetting with removal leaves an empty module that can be refilled, and compiling twice without force is refused. A compilation that fails leaves the module usable. Instructions compare equal exactly when kind, name, parameters and numbers of qubits and results agree.",
     ["histories", "programs"], "every program of added instructions, compilations and resets, within the stated length",
     "Only particular orders of compile and reset reveal lost instructions.",
     [QC, QI], [("recompilation", QC + ": BaseModule.compile, reset"), ("instruction equality", QI + ": Instruction.__eq__")], ["BaseModule.qir", "Instruction.__eq__"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
