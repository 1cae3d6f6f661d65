#!/usr/bin/env python3
"""check.py <property> [--replay FILE]: decides one property by simulation."""
import ctypes
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
SHIM = os.path.join(VERIF, "build", "simdisk.so")


def build():
    src = os.path.join(VERIF, "dst", "shim", "simdisk.c")
    if not os.path.exists(SHIM) or os.path.getmtime(SHIM) < os.path.getmtime(src):
        os.makedirs(os.path.dirname(SHIM), exist_ok=True)
        tmp = f"{SHIM}.{os.getpid()}"
        subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", tmp, src, "-ldl"], check=True)
        os.replace(tmp, SHIM)


def main():
    if sys.argv[1:] == ["--build"]:
        build()
        return 0
    if os.environ.get("VERIF_CHILD") != "1":
        build()
        env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "NUMBA", "HDF5"))}
        env.update(VERIF_CHILD="1", LD_PRELOAD=SHIM, PYTHONHASHSEED=os.environ.get("VERIF_HASHSEED", "0"), PYTHONDONTWRITEBYTECODE="1",
                   OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
                   NUMBA_NUM_THREADS="1", PYTHONUNBUFFERED="1", PYTHONWARNINGS="ignore")
        if not os.path.exists(PY):
            print("no /opt/venv interpreter", file=sys.stderr)
            return 2
        try:
            # The same addresses in every execution (where that is allowed).
            ctypes.CDLL(None).personality(0x0040000)
        except Exception:
            pass
        os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)
    sys.path.insert(0, VERIF)
    from dst import core
    pid = sys.argv[1].upper()
    sys.path.insert(0, core.REPO)
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        return core.replay(pid, os.path.abspath(sys.argv[3]))
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    return core.check(pid, tier, seed)


if __name__ == "__main__":
    sys.exit(main())
