#!/usr/bin/env python3-vt
"""Decides one property on /repo's current working tree.

    python3-vt /verif/check.py --property S01 [--tier quick|thorough]

Exit 0: the property held on everything explored.  Exit 1: a violation was found and reproduced on
the real build.  Exit 2: no verdict (the code could not be encoded, a query was undecided, a bound
of the exploration was hit, or a candidate could not be reproduced).
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True

from sx import prepare  # noqa: E402

SNAP = None


def _run_task(args):
    module, tier, name, deadline, seed, work, slice_s = args
    import warnings

    from sx import engine as E
    from sx.symh import SymH

    warnings.simplefilter("ignore")
    sys.setrecursionlimit(5000)
    mod = importlib.import_module("props." + module)
    hn = next(x for x in mod.harnesses(tier) if x.name == name)
    t0 = time.time()
    if os.environ.get("VERIF_STACK"):
        import faulthandler

        faulthandler.dump_traceback_later(float(os.environ["VERIF_STACK"]), exit=True)
    eng = E.Engine(max_paths=hn.max_paths, deadline=deadline, seed=seed)
    funcs, kernels = set(), set()
    src = SNAP.root
    mon = sys.monitoring
    mon.use_tool_id(3, "verif")

    def on_start(code, off):
        f = code.co_filename
        if f.startswith(src):
            funcs.add(f[len(src) + 1 :] + ":" + code.co_qualname)
        return mon.DISABLE

    mon.register_callback(3, mon.events.PY_START, on_start)
    mon.set_events(3, mon.events.PY_START)
    err = None
    left = []
    stubs = getattr(mod, "stubs", None)

    def path():
        h = SymH(eng, SNAP, stubs)
        hn.fn(h, **hn.params)
        h.confirm()

    def after():
        kernels.update(eng.path_state.get("kernels", ()))

    try:
        left = eng.explore(path, after_path=after, work=work, until=t0 + slice_s)
    except E.PathLimit as e:
        err = f"path limit: {e}"
    except E.Inconclusive as e:
        err = f"undecided: {e}"
    except BaseException as e:
        err = f"machinery error {type(e).__name__}: {e}\n" + traceback.format_exc()[-3000:]
    finally:
        mon.set_events(3, 0)
        mon.free_tool_id(3)
    return {
        "name": name,
        "left": left,
        "wall": time.time() - t0,
        "stats": eng.stats.as_dict(),
        "failures": [{"msg": f.msg, "kind": f.kind, "inputs": f.inputs, "other": f.other} for f in eng.failures],
        "witnesses": eng.witness_inputs,
        "error": err,
        "functions": sorted(f for f in funcs if not f.endswith(">")),
        "kernels": sorted(kernels),
        "extra": getattr(eng, "extra", {}),
    }


def replay(jobs, real, limit=60):
    if not jobs:
        return []
    n = min(8, len(jobs))
    chunks = [jobs[i::n] for i in range(n)]
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", REPLAY_LIMIT=str(limit), OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    env.pop("PYTHONPATH", None)
    procs = []
    for c in chunks:
        p = subprocess.Popen(
            [prepare.PY, os.path.join(ROOT, "sx", "concrete.py"), real], stdin=subprocess.PIPE,
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, cwd="/",
        )
        procs.append(p)
    import threading

    outs = [None] * n

    def run(i):
        outs[i] = procs[i].communicate(json.dumps(chunks[i]))

    ts = [threading.Thread(target=run, args=(i,)) for i in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    res = [None] * len(jobs)
    for i in range(n):
        lines = (outs[i][0] or "").strip().splitlines()
        for j, idx in enumerate(range(i, len(jobs), n)):
            res[idx] = json.loads(lines[j]) if j < len(lines) else {"status": "error", "msg": (outs[i][1] or "")[-500:]}
    return res


def load_known():
    p = os.path.join(ROOT, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                if line.strip():
                    d = json.loads(line)
                    if d.get("status") == "known":
                        out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--only", help="regular expression over harness names")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", os.cpu_count() or 1)))
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--no-replay", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scratch = tempfile.mkdtemp(prefix="vck-")
    try:
        code = run(a, t0, seed, scratch)
    except prepare.PrepareError as e:
        print(f"no verdict: {e}")
        code = 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


def explore_all(pid, a, hs, deadline, seed):
    """Explore every harness; long ones hand parts of their path tree to idle workers."""
    import queue

    by = {h.name: h for h in hs}
    acc = {}
    done = queue.Queue()
    open_tasks = 0

    def merge(r):
        t = acc.setdefault(r["name"], None)
        if t is None:
            acc[r["name"]] = r
            return r
        for k, v in r["stats"].items():
            t["stats"][k] = max(t["stats"][k], v) if k == "max_depth" else t["stats"][k] + v
        t["wall"] += r["wall"]
        t["failures"] += r["failures"]
        if len(t["witnesses"]) < 12:
            t["witnesses"] += r["witnesses"][-2:]
        t["error"] = t["error"] or r["error"]
        t["functions"] = sorted(set(t["functions"]) | set(r["functions"]))
        t["kernels"] = sorted(set(t["kernels"]) | set(r["kernels"]))
        t["extra"].update(r["extra"])
        return t

    from sx import engine as E

    ctx = mp.get_context("fork")
    E.CUTOFF = cutoff = ctx.Value("d", 1e18)
    known = [k for k in load_known() if k["property"] == pid]
    with ctx.Pool(max(1, a.jobs)) as pool:

        def submit(name, work):
            slice_s = 2.0 if by[name].split else 1e9
            pool.apply_async(
                _run_task, ((pid, a.tier, name, deadline, seed, work, slice_s),), callback=done.put,
                error_callback=lambda e: done.put({"crash": e}),
            )

        for h in hs:
            submit(h.name, [[]])
            open_tasks += 1
        while open_tasks:
            r = done.get()
            open_tasks -= 1
            if "crash" in r:
                raise RuntimeError(f"worker failed: {r['crash']}")
            left = r.pop("left")
            if r["failures"] and not any(re.fullmatch(k["harness"], r["name"]) for k in known):
                # one violation settles the verdict: the others are only looked for a while
                cutoff.value = min(cutoff.value, time.time() + 30)
            t = merge(r)
            s = t["stats"]
            if left and not t["error"] and len(t["failures"]) < 3:
                if s["paths"] + s["aborted"] > by[t["name"]].max_paths:
                    t["error"] = "path limit exceeded"
                else:
                    n = max(1, min(len(left), 2 * a.jobs - open_tasks))
                    for i in range(n):
                        submit(t["name"], left[i::n])
                        open_tasks += 1
    if a.v:
        for r in acc.values():
            s = r["stats"]
            print(
                f"  {r['name']}: {s['paths']} paths, {s['aborted']} aborted, {s['obligations']} obligations "
                f"({s['trivial']} by normal form, {s['queries']} by query), solver {s['solver_s']:.1f}s, "
                f"cpu {r['wall']:.1f}s, failures {len(r['failures'])} {r['error'] or ''}",
                flush=True,
            )
            for f in r["failures"]:
                print("     ", f["msg"], f["inputs"], flush=True)
    return list(acc.values())


def run(a, t0, seed, scratch):
    global SNAP
    pid = a.property
    budget = a.budget or (600 if a.tier == "quick" else 780)
    src, real = prepare.prepare(scratch)
    build = None if a.no_replay else prepare.start_build(real)
    from sx import llvm
    from sx.loader import Snapshot

    mod = importlib.import_module("props." + pid)
    errors = []
    kern = None
    if getattr(mod, "KERNELS", False):
        try:
            kern = llvm.compile_header(src, "dwave/gate/simulator/ops.h", os.path.join(scratch, "ops"))
        except subprocess.CalledProcessError as e:
            print("no verdict: kernels do not compile:\n" + e.stderr.decode()[-1500:])
            return 2
    SNAP = Snapshot(src, kern)
    hs = list(mod.harnesses(a.tier))
    names = [h.name for h in hs]
    if not hs:
        errors.append("no harnesses")
    assert len(set(names)) == len(names), "harness names must be unique"
    if a.only:
        hs = [h for h in hs if re.search(a.only, h.name)]
    for m in getattr(mod, "PRELOAD", ()):  # warm the code cache before forking
        try:
            SNAP.load_code(m)
        except Exception:
            pass
    results = explore_all(pid, a, hs, t0 + budget, seed)
    results.sort(key=lambda r: names.index(r["name"]))
    by = {h.name: h for h in hs}
    for r in results:
        if r["error"]:
            errors.append(f"{r['name']}: {r['error']}")
        elif r["stats"]["paths"] == 0 and not r["failures"]:
            errors.append(f"{r['name']}: vacuous (no feasible path)")
        elif r["stats"]["obligations"] == 0 and not r["failures"]:
            errors.append(f"{r['name']}: vacuous (no assertion evaluated)")

    # ---------------------------------------------------------------- replay on the real build
    violations, unreproduced = [], []
    nval = 0
    if not a.no_replay:
        prepare.finish_build(build, real)
        jobs, meta = [], []
        for r in results:
            own = getattr(mod, "replay", None)
            for f in r["failures"]:
                jobs.append({"module": pid, "tier": a.tier, "harness": r["name"], "inputs": f["inputs"]})
                meta.append(("failure", r, f))
                for x in f["other"]:
                    jobs.append({"module": pid, "tier": a.tier, "harness": r["name"], "inputs": x})
                    meta.append(("variant", r, f))
            if by[r["name"]].replay:
                for w in r["witnesses"]:
                    jobs.append({"module": pid, "tier": a.tier, "harness": r["name"], "inputs": w})
                    meta.append(("witness", r, w))
        outs = replay(jobs, real)
        shown_by_variant = {id(x) for (kind, r, x), o in zip(meta, outs) if kind == "variant" and o["status"] == "violated"}
        for job, (kind, r, x), o in zip(jobs, meta, outs):
            if o["status"] == "violated":
                violations.append({"harness": r["name"], "inputs": job["inputs"], "symbolic": "(path witness)" if kind == "witness" else x["msg"], "real": o["msg"]})
            elif kind == "variant" or id(x) in shown_by_variant:
                pass
            elif kind == "failure":
                unreproduced.append(f"{r['name']}: candidate not reproduced: {x['msg']} with {x['inputs']}: {o}")
            elif o["status"] == "ok":
                nval += 1
            elif o["status"] == "error":
                errors.append(f"{r['name']}: witness replay failed: {o['msg']}")
            if a.v and o["status"] != "ok":
                print("  replay", kind, r["name"], o, job["inputs"])
    else:
        for r in results:
            for f in r["failures"]:
                unreproduced.append(f"{r['name']}: {f['msg']} {f['inputs']}")

    # ---------------------------------------------------------------- verdict
    known = load_known()
    code = 0
    reported = []
    seen_known = set()
    for v in violations:
        k = next(
            (k for k in known if k["property"] == pid and re.fullmatch(k["harness"], v["harness"]) and re.search(k["match"], v["real"])),
            None,
        )
        if k:
            if k["id"] not in seen_known:
                seen_known.add(k["id"])
                print(f"KNOWN-FINDING: property={pid} {k['what']}")
            continue
        reported.append(v)
    os.makedirs(os.path.join(ROOT, "evidence", "replay"), exist_ok=True)
    shown = set()
    for v in reported:
        if v["harness"] in shown or len(shown) >= 5:
            continue
        shown.add(v["harness"])
        p = os.path.join(ROOT, "evidence", "replay", f"{pid}-{len(shown)}.json")
        with open(p, "w") as f:
            json.dump({"property": pid, "tier": a.tier, **v}, f, indent=1)
        print(f"VIOLATION property={pid} replay={p}")
        print(f"  {v['harness']}: {v['real']}")
        print(f"  inputs: {v['inputs']}")
        code = 1
    if not code:
        for u in unreproduced:
            print("no verdict:", u)
        for e in errors:
            print("no verdict:", e)
        if unreproduced or errors:
            code = 2
    wall = time.time() - t0
    write_evidence(a, seed, pid, mod, hs, results, nval, reported, errors + unreproduced, wall, seen_known)
    tot = {k: sum(r["stats"][k] for r in results) for k in ("paths", "obligations", "queries", "feas_queries", "confirm_queries")}
    print(
        f"{pid} [{a.tier}]: {len(results)} harnesses, {tot['paths']} paths, {tot['obligations']} obligations, "
        f"{tot['queries'] + tot['feas_queries'] + tot['confirm_queries']} solver queries, {nval} witnesses replayed on the real build, "
        f"{wall:.1f}s, exit {code}"
    )
    return code


def write_evidence(a, seed, pid, mod, hs, results, nval, violations, errors, wall, known):
    st = {}
    for r in results:
        for k, v in r["stats"].items():
            st[k] = max(st.get(k, 0), v) if k == "max_depth" else st.get(k, 0) + v
    functions = sorted({f for r in results for f in r["functions"]})
    kernels = sorted({k for r in results for k in r["kernels"]})
    samples = []
    for r in results:
        for w in r["witnesses"][:1]:
            if len(samples) < 8:
                samples.append(f"{r['name']}: " + json.dumps(w, sort_keys=True)[:300])
    ev = {
        "property": pid,
        "tier": a.tier,
        "seed": seed,
        "level": getattr(mod, "LEVEL", "model_checking"),
        "coverage": {
            "states": st.get("paths", 0),
            "transitions": st.get("decisions", 0),
            "traces_validated_against_impl": nval,
            "samples": samples,
            "exhaustive_within_bounds": not errors and not violations,
            "harnesses": [
                {
                    "name": r["name"],
                    "bounds": next(h.bounds for h in hs if h.name == r["name"]),
                    "paths": r["stats"]["paths"],
                    "infeasible": r["stats"]["aborted"],
                    "obligations": r["stats"]["obligations"],
                    "solver_s": round(r["stats"]["solver_s"], 3),
                    **r.get("extra", {}),
                }
                for r in results
            ],
            "functions_encoded": functions,
            "kernels_encoded": kernels,
            "modules_converted_from_cython": SNAP.converted,
            "obligations": st.get("obligations", 0),
            "obligations_by_normal_form": st.get("trivial", 0),
            "normal_forms_confirmed_by_solver": st.get("confirmed", 0),
            "queries_discharged": st.get("queries", 0) + st.get("confirm_queries", 0),
            "feasibility_queries": st.get("feas_queries", 0),
            "path_witness_queries": st.get("witnesses", 0),
            "solver": "z3 " + __import__("z3").get_version_string(),
            "solver_seconds": round(st.get("solver_s", 0.0), 3),
            "bounds": getattr(mod, "BOUNDS", ""),
            "outside_bounds": getattr(mod, "OUTSIDE", ""),
            "known_findings_seen": sorted(known),
            "undecided": errors[:10],
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + [
            "floating-point arithmetic is modelled by exact real arithmetic; coefficients below 1e-10 count as rounding",
            "numpy, the Python interpreter, Cython's code generation and the C++ compiler behave as documented (path witnesses are replayed on the real build)",
        ],
        "wall_s": round(wall, 2),
        "violations": [v["real"] for v in violations][:10],
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    main()
