"""Scratch copies of the tree under test: sources for symbolic execution and a real build."""
import hashlib
import os
import shutil
import subprocess

PY = "/opt/venv/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")


def _env():
    env = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "CFLAGS", "CXXFLAGS", "LDFLAGS")}
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PIP_NO_INDEX="1")
    return env


class PrepareError(Exception):
    pass


def copy_tree(dst, binaries):
    os.makedirs(dst)

    def ignore(d, names):
        out = []
        for n in names:
            if n == "__pycache__" or n.endswith((".pyc", ".cpp", ".c")):
                out.append(n)
            elif not binaries and n.endswith(".so"):
                out.append(n)
            elif n in ("ops.h", "ops.pxd") and os.path.basename(d) == "simulator":
                out.append(n)
        return out

    shutil.copytree(os.path.join(REPO, "dwave"), os.path.join(dst, "dwave"), ignore=ignore)
    for f in ("setup.py", "setup.cfg", "pyproject.toml", "README.rst", "LICENSE"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            shutil.copy2(p, dst)


def prepare(scratch):
    """-> (source root, real root)"""
    real, src = os.path.join(scratch, "real"), os.path.join(scratch, "src")
    copy_tree(real, True)
    r = subprocess.run(
        [PY, "dwave/gate/simulator/operation_generation.py"], cwd=real, env=_env(),
        capture_output=True, text=True,
    )
    if r.returncode:
        raise PrepareError("kernel generation failed:\n" + r.stderr[-2000:])
    copy_tree(src, False)
    for f in ("ops.h", "ops.pxd"):
        p = os.path.join(real, "dwave/gate/simulator", f)
        if os.path.exists(p):
            shutil.copy2(p, os.path.join(src, "dwave/gate/simulator", f))
    return src, real


FINGERPRINT = r"""
cd "$1" || exit 1
PY=/opt/venv/bin/python
{
    $PY -V; g++ --version
    for f in setup.py setup.cfg pyproject.toml; do [ -f $f ] && sha256sum $f; done
    find dwave -type f ! -name '*.py' ! -name '*.pyi' ! -name '*.pyc' | LC_ALL=C sort | while read -r f; do
        case $f in *.cpp|*.c) [ -f "${f%.*}.pyx" ] && continue;; esac
        sha256sum "$f"
    done
    sha256sum dwave/gate/__init__.py
} | sha256sum
"""


def start_build(real):
    """Start building the extensions of the real copy; reuse binaries built from equal sources."""
    stamp = os.path.join(REPO, "build", "vp-stamp")
    if os.path.exists(stamp):
        r = subprocess.run(["bash", "-c", FINGERPRINT, "fp", real], capture_output=True, text=True, env=_env())
        with open(stamp) as f:
            if r.returncode == 0 and r.stdout.strip() and f.read().strip() == r.stdout.strip():
                return None
    for d, _, fs in os.walk(os.path.join(real, "dwave")):
        for f in fs:
            if f.endswith(".so"):
                os.unlink(os.path.join(d, f))
    log = open(os.path.join(real, "build.log"), "w")
    return subprocess.Popen(
        [PY, "setup.py", "-q", "build_ext", "--inplace", "--force", "-j", "4"], cwd=real, env=_env(),
        stdout=log, stderr=subprocess.STDOUT,
    )


def finish_build(proc, real):
    if proc is None:
        return True
    if proc.wait() != 0:
        with open(os.path.join(real, "build.log")) as f:
            raise PrepareError("extension build failed:\n" + f.read()[-2000:])
    return True
