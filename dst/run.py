"""Command line: python -m dst.run C01 [--replay FILE]."""

import importlib
import os
import sys

# DST_REPO is for the development of the checks only
REPO = os.environ.get("DST_REPO", "/repo")


def setup_environment() -> None:
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[k] = "1"
    os.environ["JAX_PLATFORMS"] = "cpu"
    os.environ["XLA_FLAGS"] = (
        "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
    )
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ["TF_CPP_MIN_LOG_LEVEL"] = "3"
    os.environ.pop("HEALPY_DATAPATH", None)
    sys.dont_write_bytecode = True
    if sys.path[:1] != [REPO]:
        sys.path.insert(0, REPO)


if __name__ == "__main__":
    setup_environment()
    from dst import core, sched

    # locks of the library are simulated
    sched.patch_threading()

    name = sys.argv[1]
    mod = importlib.import_module(f"dst.checks.{name.lower()}")
    sys.exit(core.main(mod.CHECK, sys.argv[2:]))
