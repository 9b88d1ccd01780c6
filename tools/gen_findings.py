#!/usr/bin/env python3
"""Writes the 'fixed' entries of known_findings.jsonl from /repo's fix commits (run by hand)."""
import json
import subprocess

PROP = {
    "evaluated circuits keep conditions": "C07", "evaluated operations keep conditions": "C07", "operations recorded twice are evaluated": "C07",
    "registers without a label get": "C01", "failing to evaluate an operation": "C07", "operations refused by a circuit keep": "C03",
    "extending a circuit with its own": "C04", "applying a parametric circuit outside": "C08",
    "frozen registers do not add items": "R04",  # start of the subject: property
    "leaving a circuit context locks": "C05",
    "OpenQASM reserved words": "Q01", "QIR instructions can be compared": "Q05", "QIR modules can be compiled after": "Q05",
    "external instructions are kept": "Q05", "QIR modules can be reset": "Q05", "operations following measurements stay": "Q04",
    "loading QIR into a circuit": "Q04", "QIR programs can measure": "Q04", "operations with several parameters can be loaded": "Q04",
    "integer parameters of external": "Q03", "external QIR functions are declared once": "Q03",
    "external QIR functions are declared with": "Q03", "conditional operations are refused in QIR": "Q03",
    "identity operations are left out of QIR": "Q03", "QIR programs number qubits": "Q03",
    "registers accept labels that": "R01", "slice registers by": "R03", "copies and sums of registers": "R03",
    "gate kernels work for more": "S04", "simulate user-defined matrices": "S08", "name the multi-qubit": "S01",
    "simulating again does not": "S06", "measurements in density": "S05", "density-matrix simulation heeds": "S02",
    "density matrix of a pure": "S03", "density matrices are normalized": "C09", "refusing a qubit": "C03",
    "resetting without registers": "C10", "resetting a circuit discards": "C10", "bits with value 0 can be added": "C01",
    "get_qubit and get_bit": "C02", "bits with value 0 can be passed": "C06", "applying a circuit keeps": "C06",
    "circuits with measurements that": "C06", "controlled operations on more": "C06", "leaving a nested": "C04",
    "the value 0 of a variable": "P02", "parametric circuits refuse": "C07", "parametric circuits can be applied": "C07",
    "the unitary of a circuit": "G04", "unitaries of circuits with": "G03", "custom operations use": "G03",
    "controlled unitaries refuse": "G02", "parametric operations can be compared": "G07",
    "parametric controlled operations keep": "C07", "controlled operations always check": "G06",
    "changing the qubits": "G07", "sampling refuses qubits": "S06", "custom parametric operations state": "Q01",
    "OpenQASM gate definitions": "Q02", "OpenQASM definition of the controlled": "G05", "conditional operations are not silently exported": "Q01",
    "register labels that are no": "Q01", "define crx": "Q02", "operations of different classes": "G07",
    "applying or extending by": "C03", "resetting a parametric": "C10", "a freezing context manager": "C04",
    "registers keep bits and": "R01", "matrices of controlled operations can": "G01",
}
try:
    from findings_extra import EXTRA
    PROP.update(EXTRA)
except ImportError:
    pass
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h%x01%s%x01%b%x02"], capture_output=True, text=True).stdout
rows = []
for e in log.split("\x02"):
    if "\x01" not in e:
        continue
    c, s, b = e.strip().split("\x01")
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    p = [v for k, v in PROP.items() if s.startswith(k)]
    assert len(p) == 1, (s, p)
    what = s + ". Before: " + " ".join(b.split()) if b.strip() else s
    rows.append({"status": "fixed", "property": p[0], "commit": c, "what": f"fixed: property={p[0]} {c} {what}"})
keep = [l for l in open("/verif/known_findings.jsonl") if l.strip() and json.loads(l)["status"] != "fixed"]
with open("/verif/known_findings.jsonl", "w") as f:
    for r in rows:
        f.write(json.dumps(r) + "\n")
    f.writelines(keep)
print(len(rows), "fixed;", len(keep), "known")
