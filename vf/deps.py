"""Make Hypothesis importable from the project's interpreter, offline.

`setup_cmd` calls `python -m vf.deps`; every check also calls `ensure()` itself, because a run
never sees the files another run left behind.
"""
import glob
import os
import shutil
import sys
import tempfile
import zipfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEPS = os.path.join(ROOT, ".deps")
WHEELS = "/opt/veriftools/wheels"
FALLBACK = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def _extract():
    wheels = []
    for pat in ("hypothesis-*cp312-cp312-*x86_64*.whl", "sortedcontainers-*.whl", "attrs-*.whl"):
        hits = sorted(glob.glob(os.path.join(WHEELS, pat)))
        if not hits:
            raise FileNotFoundError(pat)
        wheels.append(hits[-1])
    tmp = tempfile.mkdtemp(prefix=".deps-", dir=ROOT)
    try:
        for w in wheels:
            with zipfile.ZipFile(w) as z:
                z.extractall(tmp)
        os.rename(tmp, DEPS)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
        if not os.path.isdir(DEPS):
            raise


def ensure():
    if not os.path.isdir(os.path.join(DEPS, "hypothesis")):
        try:
            _extract()
        except Exception:
            pass
    if os.path.isdir(os.path.join(DEPS, "hypothesis")):
        if DEPS not in sys.path:
            sys.path.append(DEPS)
    elif FALLBACK not in sys.path:
        sys.path.append(FALLBACK)  # at the end: the project's own packages win
    import hypothesis

    return hypothesis.__version__


if __name__ == "__main__":
    print("hypothesis", ensure())
