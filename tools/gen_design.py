#!/usr/bin/env python3-vt
"""Writes DESIGN.md from the text below, the bounds in props/*.py, known_findings.jsonl and seeded/."""
import importlib, json, pathlib, re, sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
sys.dont_write_bytecode = True

HEAD = '''# Solver-based checking of dwave-gate

One engine decides every property: the source in /repo's working tree is executed symbolically, and an SMT solver (z3)
decides which branches are feasible and whether an assertion can fail.

    python3-vt check.py --property ID --tier quick|thorough [--only PART-OF-A-HARNESS-NAME] [-v]

Exit 0: the property held on everything explored.  Exit 1: a violation was found *and reproduced on the real build*
(`VIOLATION property=ID replay=FILE`).  Exit 2: no verdict (code that cannot be encoded, an undecided query, an exhausted
budget, a candidate that could not be reproduced); never treated as a pass.

This file is written by tools/gen_design.py (the bounds come from the property modules, so they are those of the checks).

## How a check works

1. **Snapshot and build** (sx/prepare.py).  /repo's working tree is copied to a scratch directory outside of /repo, once as
   source for symbolic execution, once as the real package for replays.  The kernels' header is generated by the
   repository's own generator.  The extensions are reused if their sources have the fingerprint of /repo's build, and
   built otherwise.  Nothing of /repo is written to.
2. **Encoding the real code** (sx/loader.py).  Python modules are executed as they are, with two rewrites (dict and set
   displays become containers whose lookups ask the solver; `type(x)` is redirected so that symbolic values pass for the
   types they stand for) and with stand-ins for builtins, `math`, `cmath` and the numpy functions that cannot handle
   symbolic entries (sx/shims.py).  Cython modules are parsed by Cython's own parser and written back as Python with
   C-level semantics kept (sx/decython.py, sx/cyrt.py: C integer conversions, typed arguments, cdef dispatch,
   memoryviews, buffer addresses).  The C++ amplitude kernels are compiled by clang to LLVM IR, which is executed
   instruction by instruction (sx/llvm.py).  All of it is regenerated on every run.
3. **Harness** (props/ID.py).  A harness drives the public interface like a user, with symbolic inputs: integers,
   reals, angles, complex numbers, opaque texts (labels, names), truth values, and choices (of a gate, a position, a
   next step) that are forks of an integer variable.  Modules are executed afresh on every path.
4. **Deciding** (sx/engine.py).  Whenever a truth value of a symbolic condition is needed, z3 decides which outcomes are
   feasible; each is followed.  An assertion is a query `path condition and not assertion`; unsat on every feasible path
   within the bounds means that it holds for all values.  Numbers are exact reals: states and matrices are vectors of
   polynomials with rational coefficients over real variables, sines and cosines are pairs of variables with
   s^2 + c^2 = 1 and linear relations between angles.  Identities are decided by that normal form first (a polynomial
   that vanishes identically is zero for every value); z3 confirms a sample of such decisions per harness, decides all
   others, and all path conditions.  `check_close` on values that differ yields a model.
5. **Counterexamples are replayed.**  A model is turned into concrete inputs.  Angles are pinned to values consistent with
   their sines and cosines (`realistic()`), as polynomial models may name sines without an angle.  The same harness then
   runs on the real build, in a forked process with a time limit; only a reproduced failure is a violation.
6. **Witnesses.**  On the way, models of passing paths are replayed on the real build too: the harness has to pass there
   with the very same assertions.  This validates encoding, stand-ins and harness against the real code on every run
   (a crash or disagreement is reported).
7. **Evidence** is written per run: functions and kernels executed, paths, obligations, queries, solver time, bounds.

Work is split over 8 processes by handing over unexplored prefixes of decisions.  Quick checks take 5 to 70 s.

## What is trusted, and what is outside

* Floating-point rounding: numbers are exact.  Coefficients below 1e-9 are dropped in comparisons, which covers rounded
  constants such as sqrt(2)/2.  Tolerances in the code are modelled exactly where the property is about them (C09).
* The stand-ins of sx/shims.py, the translation of Cython and the IR interpreter; all are exercised by the replayed
  witnesses.  What they do not know raises NotImplementedError, hence "no verdict", not a wrong one.
* PyQIR (Q03-Q05) is a compiled library; symbolic runs see a stand-in (props/pyqirstub.py) with the interface the code
  uses, which writes the same text.  Replays use PyQIR itself.
* The random generator is a script of arbitrary draws in [0, 1) (S05, S06).
* Structural choices (which operation next, which qubits) are finite and enumerated through solver variables: a bound on
  lengths and sizes as stated per property.  Values are never enumerated.
* Threads are not modelled; the library makes no promise about them (contexts are process-wide).

## Specification notes

Behaviour pinned by the repository's own tests is taken as intended, even where one could argue: the matrix of a
controlled operation read while a context is active refers to the order of the circuit's qubits; an unset bit is truthy;
IDCounter.reset starts identifiers afresh; conditional operations and mid-circuit measurement order in QIR are refused or
delayed.  Each such case is named under "outside" of the property it touches.

'''

HOW = {
"S01": "Circuits are simulated symbolically through simulate(), the Cython simulator and the IR of the kernels; the state is compared, amplitude by amplitude, with the product of the operations' matrices applied by a dozen lines of reference linear algebra. Tests sample fixed circuits and angles; here angles, user matrices and (by product states that span all states) the incoming state are arbitrary.",
"S02": "The same symbolic circuit is simulated in both orders; the results must be each other's bit-reversal, entry by entry. No reference semantics is needed, so errors cannot cancel against S01.",
"S03": "The same symbolic circuit is simulated as state and as density matrix; the latter must be v v*, Hermitian, of trace one.",
"S04": "The IR of every kernel is executed with symbolic 64-bit sizes, positions and masks. The amplitude loop is summarised by one arbitrary iteration k: the indices it touches are proved in bounds, to belong to k alone (distinct iterations touch disjoint sets), to be exactly the amplitudes that differ in the target bits with all controls set, and the values stored to be the matrix applied to those read. Complete runs for small sizes check the summary. Widths, shifts and overflow are bit-vector queries, which no test with a few qubits reaches (the original overflowed at 31 qubits).",
"S05": "The draws of the random generator are symbolic; the code's own comparisons fork on them. On every path the outcome recorded has to be the one the Born rule assigns to that draw, the state the normalised projection, the bits those of the measurement, for any incoming state.",
"S06": "As S05 for Measurement.sample and expval: the joint distribution over any requested qubits of the stored pre-measurement state is followed draw by draw; nothing else may change.",
"S07": "One operation conditioned on bits whose values are chosen or measured symbolically; the state must be that with or without the operation. Further harnesses: outcomes overwritten during the run, blocked measurements, several or equal neighbouring operations with their own conditions.",
"S08": "Two and three simulations with the same (symbolic) draws must agree with each other and leave operations, registers, parameters, user matrices in any memory layout, and bits that are not measured as they were.",
"G01": "Every gate matrix, for symbolic parameters, against matrices written down from the literature (props/gates.py), which are unitary by the same normal form; on class, instance and within contexts.",
"G02": "make_controlled_unitary and controlled operations against a definition by bit positions, for an arbitrary complex 2x2 matrix and all positions.",
"G03": "create_operation of symbolic circuits; class and instance matrices against the reference product; parameters substituted per instance.",
"G04": "Histories of reading and changing; every reading has to equal the reference product for the circuit as it is then. Catches caches that miss an invalidation.",
"G05": "Decompositions are applied by reference semantics, exported definitions are parsed by an OpenQASM reader written from the language paper and evaluated with the meaning of qelib1; both have to equal the gate up to a global phase, for all parameters.",
"G06": "Constructors with symbolic parameters and every number of qubits and parameters, after other uses of the class (class-level caches), within contexts: accepted exactly if the numbers fit; a refusal leaves the circuit alone.",
"G07": "Equality of any two operations against class, qubits and parameter equality, where parameter equality is a term z3 decides; re-application, also of controls or targets only; search and removal against the same relation.",
"C01": "Histories of additions and resets against a model of labelled lists; labels are symbolic texts, so that collisions with labels the circuit makes up itself are found by the solver.",
"C02": "find_* and get_* against the model of registers with symbolic labels (equal or not is decided by forks), and labels of other types.",
"C03": "A snapshot before and after each refused change (refusal itself required) must agree.",
"C04": "Programs of symbolic steps within a context; the recorded operations must be the model's, by identity.",
"C05": "A model of the active context and of locks follows every sequence of entering, leaving, failing and resetting.",
"C06": "The operations recorded by an application must be those of the applied circuit on the mapped qubits and bits, with parameters, conditions and bits; the applied circuit stays.",
"C07": "Values are symbolic (0 and complex included); evaluated operations must hold them where their variables stood.",
"C08": "Requests against a model of consecutive variables; identity of variables is required.",
"C09": "Acceptance as a condition on symbolic entries: norm or trace one within the code's tolerance, shape, force; what is read back is what was given.",
"C10": "After a reset or removal, everything promised to be gone is, and the rest is as before; the circuit works afterwards.",
"R01": "Symbolic labels (integers, texts, others) in the real Cython register against a list of distinct items: membership, index, iteration, refusal of duplicates. Integer labels exercise the register's range encoding, where label = index is a special case.",
"R02": "Sequences of pops, removals and relabellings against the list.",
"R03": "Slices with symbolic bounds against Python's list slicing; copies and sums; independence of a later change of either.",
"R04": "Every public way of adding to a frozen register, with symbolic items; contents stay, errors are the promised ones.",
"R05": "All comparison and set operators between registers whose items are symbolic integers or opaque strings (or bits and variables with symbolic values), against the same operators computed from the list of items; the result is checked as a register and for independence.",
"P01": "The counter runs with symbolic batch sizes; identifiers are opaque texts, distinctness is asserted pairwise; lengths and refreshes as stated.",
"P02": "Equality, hashes and values for symbolic labels and values (hashes are uninterpreted functions of the hashed value).",
"P03": "The descriptor with symbolic attribute values on classes, subclasses and instances; refusal of assignments.",
"Q01": "The text holds tokens that stand for symbolic parameters; an independent reader gives the statements back, which must be the circuit's.",
"Q02": "As Q01, for the definitions: each once, before its use, for exactly the gates outside of qelib1.",
"Q03": "The LLVM text written by the compiler is read by an independent reader (control flow included); calls, arguments and order must be the circuit's.",
"Q04": "Export and load; the loaded circuit must have the same operations on the same positions; likewise into a circuit with content; hand-written programs of other orders.",
"Q05": "Histories of a module against a model of its program; equality of instructions against their parts.",
}

TAIL_NOTES = {
"first": {  # planted changes that a check missed at first, and what was done
"r02-intermediate-label": "relabelling through labels in use was added",
"s03-two-control-conjugate": "user matrices with two controls were added to S03",
"s06-first-state-kept": "measurements simulated twice with other states were added",
"s08-cached-targets": "operations shared by circuits that hold their qubits elsewhere were added",
"c03-empty-register-replaced": "empty registers were added",
"c04-append-dedupe": "equal operations in a row were added",
"c08-freeze-after-exit": "requests after leaving contexts by errors were added",
"c05-exit-hook-raises": "exit functions that fail were added (and a defect found and repaired)",
"g01-small-angle": "counterexamples with sines close to 0 had no real angle; `realistic()` pins them",
"g03-order-of-first-two": "`.real`, `.imag`, `isrealobj` of symbolic arrays; three-qubit circuits with two gates on a qubit",
"s02-two-control-big-endian": "user matrices with one and two controls were added to S02",
"c09-nearly-real": "`real_if_close` and other numpy predicates of symbolic arrays",
"g06-setter-unchecked": "assignments of qubits to existing operations were added (and to the statement)",
"q01-custom-name-parameters": "format specifications of symbolic numbers; counterexamples are also tried without coincidences (`generic()`)",
"p03-set-same-value": "the value assigned may be the current one",
"c08-negative-parameter": "requests before the first parameter were added",
"g07-close-parameters": "closeness of two inputs is encoded with its tolerance (it was equality)",
"c07-condition-lost": "evaluated operations are conditional as well (this also led to two fixes)",
"s06-no-qubits": "no qubits may be requested",
"s08-locks": "the simulated circuit may be unlocked",
"c10-stale-bits": "only some of qubits and bits have been listed before the reset",
"c08-one-hook": "several circuits are applied in one context",
"s01-shared-instance": "operation objects are recorded several times",
"g03-shared-instance": "operation objects are recorded several times",
"q01-shared-instance": "operation objects are recorded several times",
"c03-refused-remove": "removals of absent operations from circuits with a state were added",
"s05-first-outcome-projected": "density matrices of three measured qubits were added",
"s08-empty-circuit": "circuits with a state set beforehand, with and without operations, were added",
"p02-bit-equals-label": "bits without a value are compared to their identifiers and labels",
"s08-zero-seed": "the seed of the generator is symbolic now",
"c01-falsy-register-label": "labels that are numbers or the empty text were added",
"c03-register-with-number": "labels that are numbers or the empty text were added",
"q02-definition-per-parameters": "counterexamples are also tried with generic values of undetermined inputs (`generic()`)",
"s01-target-order": "any matrix with two controls on any qubits was added to S01",
"s07-any-of-many": "conditions on three and four bits moved from thorough to quick",
"s07-cancelled-pairs": "equal neighbouring operations with their own conditions were added",
"s08-first-bits-reset": "bits preset by the user and not measured were added",
"r04-copy-extends-frozen": "sums, copies and permissive index requests were added (and a defect found and repaired)",
"q01-simplified-names": "layouts with one full and one empty register were added",
"q01-rounded-parameter": "replays compare read-back numbers to 1e-9 instead of 1e-6",
"q03-second-measurement-lost": "repeated measurements as the only operations were added",
"q04-single-digit": "circuits with more than ten qubits and bits were added (also to Q01 and Q03)",
"q05-return-kept": "return values and resets were added",
"q05-integer-parameters": "integer parameters in compared instructions were added",
"c02-labels-as-strings": "labels of several types were added",
"c06-mapped-by-label": "registers with equal item labels were added",
"g07-reapply-first-control": "re-application with only controls or targets was added",
}}


def main():
    out = [HEAD]
    props = [json.loads(l) for l in open(ROOT / "properties.jsonl")]
    findings = [json.loads(l) for l in open(ROOT / "known_findings.jsonl")]
    seeds = {p.name: json.loads((p / "meta.json").read_text()) for p in sorted((ROOT / "seeded").iterdir())}
    log = {}
    f = ROOT / "tools" / "catches.json"
    if f.exists():
        log = json.loads(f.read_text())
    out.append("## Properties\n\nBounds are those of the quick tier; the thorough tier widens them where stated.\n")
    for p in props:
        i = p["id"]
        m = importlib.import_module("props." + i)
        out.append(f"### {i} {p['title']}\n\n{p.get('statement') or p.get('description')}\n\n{HOW[i]}\n")
        out.append(f"*Bounds:* {m.BOUNDS}.  \n*Outside:* {m.OUTSIDE}.\n")
        d = [x for x in findings if x["property"] == i]
        if d:
            t = []
            for x in d:
                w = re.sub(r"^fixed: property=\S+ ", "", x["what"])
                t.append(f"  - {'known finding: ' if x['status'] == 'known' else ''}{w}")
            out.append("*Defects of the code found:*\n" + "\n".join(t) + "\n")
    out.append("## Planted changes\n")
    out.append(
        "Each was written from a property's text and the code, builds and passes the 937 tests, and comes with a demonstration "
        "(tools/plant.py confirms all of that in a private copy). `tools/plant.py catch` runs the property's quick check "
        "against it. Changes that the tests catch or whose demonstration did not fail were dropped.\n")
    out.append("| change | breaks | needs | quick check |\n|---|---|---|---|")
    for s, meta in seeds.items():
        r = log.get(s)
        caught = {True: "caught", False: "**missed**", None: "not run"}[r]
        note = TAIL_NOTES["first"].get(s)
        out.append(f"| {s} | {meta['property']}: {meta['what_it_breaks']} | {meta['needs']} | {caught}{'; missed at first: ' + note if note else ''} |")
    out.append("")
    out.append(open(ROOT / "tools" / "design_tail.md").read() if (ROOT / "tools" / "design_tail.md").exists() else "")
    (ROOT / "DESIGN.md").write_text("\n".join(out).rstrip() + "\n")


main()
