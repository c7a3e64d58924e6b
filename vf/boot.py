"""Process set-up shared by every worker: paths, JAX configuration, the code under test."""
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")


def child_env(prec):
    env = dict(os.environ)
    env.update(
        JAX_PLATFORMS="cpu",
        JAX_ENABLE_X64="1" if prec == "f64" else "0",
        JAX_TRACEBACK_FILTERING="off",
        XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        MPLBACKEND="Agg",
        PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONWARNINGS="ignore",
        VF_REPO=REPO,
    )
    env["PYTHONPATH"] = ROOT
    env.pop("JAX_COMPILATION_CACHE_DIR", None)
    return env


def boot():
    """Put /repo's working tree first on the path and import JAX and the package."""
    src = os.path.join(REPO, "src")
    sys.dont_write_bytecode = True
    # never trust byte code compiled from an earlier state of the tree
    sys.pycache_prefix = os.path.join(ROOT, ".work", "nopyc-%d" % os.getpid())
    sys.path.insert(0, src)
    ver = os.path.join(src, "jaxoplanet", "jaxoplanet_version.py")
    if not os.path.exists(ver):  # generated by the build and ignored by git
        import types

        m = types.ModuleType("jaxoplanet.jaxoplanet_version")
        m.__version__ = m.version = "0.0.0"
        m.version_tuple = m.__version_tuple__ = (0, 0, 0)
        sys.modules["jaxoplanet.jaxoplanet_version"] = m
    import warnings

    warnings.filterwarnings("ignore")
    import logging

    logging.getLogger("jax").setLevel(logging.ERROR)
    import jaxoplanet

    assert os.path.realpath(jaxoplanet.__file__).startswith(os.path.realpath(src) + os.sep), (
        jaxoplanet.__file__
    )
    from . import deps

    deps.ensure()
