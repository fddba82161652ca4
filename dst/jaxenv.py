"""JAX under the simulator: x64 as in the test suite, shared compilation cache."""

from __future__ import annotations

import atexit
import os
import shutil
import tempfile


def setup():
    """Import JAX without starting its backend, which does not survive a fork."""
    import logging

    logging.getLogger("jax").setLevel(logging.ERROR)
    import jax

    jax.config.update("jax_enable_x64", True)
    jax.config.update("jax_disable_most_optimizations", True)
    d = tempfile.mkdtemp(prefix="dst-jax-")
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
    jax.config.update("jax_compilation_cache_dir", d)
    jax.config.update("jax_persistent_cache_min_compile_time_secs", 0)
    jax.config.update("jax_persistent_cache_min_entry_size_bytes", -1)
    return jax
