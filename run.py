#!/usr/bin/env python3
"""run.py PROP [--tier quick|thorough] [--replay FILE] [--sub NAME] [--jobs N]

Decides one property of /verif/properties.jsonl; see DESIGN.md."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"

if os.environ.get("VERIF_CHILD") != "1":
    env = {k: os.environ[k] for k in ("PATH", "HOME", "LANG", "TMPDIR", "VERIF_SEED", "VERIF_TIER", "VERIF_REPO_SRC")
           if k in os.environ}
    env.update(VERIF_CHILD="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
               PYTHONUNBUFFERED="1", PYTHONNOUSERSITE="1", MPLBACKEND="Agg",
               OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
               NUMBA_NUM_THREADS="1", PYTHONWARNINGS="ignore",
               MPLCONFIGDIR=os.path.join("/tmp", "verif-mpl"))
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, HERE)
import harness  # noqa: E402

if __name__ == "__main__":
    sys.exit(harness.main(sys.argv[1:]))
