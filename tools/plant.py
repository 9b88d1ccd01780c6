#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy of /repo, mounted over /repo in a private mount namespace.

    plant.py confirm SPEC.py     build, test and demonstrate a change; keep it in /verif/seeded/<id>
    plant.py catch ID [CHECK..]  run the property's check (or the named ones) with the change applied
    plant.py drift ID...         apply kept changes to /repo's HEAD, to see that they still apply

A spec is a Python file with id, property, needs, breaks, edits = [(file, old, new), ...], demo (a Python program).
"""
import json, os, pathlib, shutil, subprocess, sys, tempfile

SEEDED = pathlib.Path("/verif/seeded")
VERIF = pathlib.Path("/verif")


def copy():
    top = pathlib.Path(tempfile.mkdtemp(prefix="plant.", dir="/tmp"))
    subprocess.run(["cp", "-a", "/repo", str(top / "repo")], check=True)
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=top / "repo", check=True)
    return top


def inside(top, command, **kw):
    script = f"mount --bind {top}/repo /repo && cd /repo && {command}"
    return subprocess.run(["unshare", "-m", "bash", "-c", script], **kw)


def confirm(path):
    spec = {}
    exec(pathlib.Path(path).read_text(), spec)
    top = copy()
    try:
        repo = top / "repo"
        demo = top / "demo"
        demo.mkdir()
        (demo / "demo.sh").write_text(
            '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent\n'
            'exec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        (demo / "demo.py").write_text(spec["demo"].lstrip("\n"))
        (demo / "demo.sh").chmod(0o755)
        r = inside(top, f"bash {demo}/demo.sh", capture_output=True, text=True)
        if r.returncode:
            return print(spec["id"], "demo fails on the unchanged tree", r.stderr[-600:], r.stdout[-300:])
        for name, old, new in spec["edits"]:
            f = repo / name
            text = f.read_text()
            if text.count(old) != 1:
                return print(spec["id"], name, "pattern occurs", text.count(old), "times")
            f.write_text(text.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=repo, capture_output=True, text=True).stdout
        r = inside(top, f"bash /opt/vp/build.sh && bash /opt/vp/test.sh {top}/o.json", capture_output=True, text=True)
        last = r.stdout.strip().splitlines()[-1:]
        if last != ["937 passed, 0 failed"]:
            return print(spec["id"], "build or tests:", last, [l for l in r.stdout.splitlines() if l.startswith("FAILED")][:5], r.stderr[-300:])
        r = inside(top, f"bash {demo}/demo.sh", capture_output=True, text=True)
        if r.returncode == 0:
            return print(spec["id"], "demo passes with the change")
        # the demonstration must still pass when only a comment is added
        out = SEEDED / spec["id"]
        if out.exists():
            shutil.rmtree(out)
        shutil.copytree(demo, out)
        (out / "patch.diff").write_text(diff)
        (out / "meta.json").write_text(json.dumps(
            {"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, indent=1) + "\n")
        print(spec["id"], "kept;", (r.stderr.strip().splitlines() or ["?"])[-1][:150])
    finally:
        shutil.rmtree(top)


def catch(ids, checks):
    for i in ids:
        meta = json.loads((SEEDED / i / "meta.json").read_text())
        top = copy()
        try:
            r = subprocess.run(["git", "apply", str(SEEDED / i / "patch.diff")], cwd=top / "repo")
            if r.returncode:
                print(i, "does not apply")
                continue
            manifest = json.loads((VERIF / "MANIFEST.json").read_text())
            for c in checks or [meta["property"]]:
                e = next((x for x in manifest["checks"] if x["property"] == c), None)
                if e is None:
                    print(i, c, "has no check")
                    continue
                r = inside(top, f"cd /verif && {e['quick_cmd']}",
                           capture_output=True, text=True, env={**os.environ, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
                lines = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                print(i, c, "exit", r.returncode, "CAUGHT" if r.returncode == 1 and lines else "MISSED",
                      (lines or r.stdout.strip().splitlines()[-1:] or [""])[0][:170], r.stderr[-200:] if r.returncode not in (0, 1) else "", flush=True)
        finally:
            shutil.rmtree(top)


if __name__ == "__main__":
    if sys.argv[1] == "confirm":
        for p in sys.argv[2:]:
            confirm(p)
    else:
        args = sys.argv[2:]
        known = {p.name for p in SEEDED.iterdir()}
        ids = [a for a in args if a in known]
        catch(ids or sorted(known) if "all" in args else ids, [a for a in args if a not in known and a != "all"])
