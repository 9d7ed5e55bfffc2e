"""Process set-up. Import this before anything else: it pins every knob of the JAX
runtime that could make two executions of the same seed differ."""

import os
import sys


# One XLA thread, no persistent compilation cache, and the CPU backend only.
os.environ["JAX_PLATFORMS"] = "cpu"
os.environ["XLA_FLAGS"] = "--xla_cpu_multi_thread_eigen=false"
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.pop("EQX_ON_ERROR", None)
os.environ.pop("JAX_COMPILATION_CACHE_DIR", None)
os.environ.pop("JAX_DISABLE_JIT", None)
os.environ.pop("JAX_DEBUG_NANS", None)

sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import warnings  # noqa: E402


warnings.filterwarnings("ignore")

import jax  # noqa: E402


jax.config.update("jax_enable_x64", True)
# Run each program in the thread that called it, so that an evaluator call made by a
# compiled solve happens in the simulated task which started that solve.
jax.config.update("jax_cpu_enable_async_dispatch", False)

import equinox as eqx  # noqa: E402, F401
import jax.numpy as jnp  # noqa: E402, F401
import lineax as lx  # noqa: E402, F401
import numpy as np  # noqa: E402, F401
import optimistix as optx  # noqa: E402, F401


np.seterr(all="ignore")
assert os.path.realpath(optx.__file__).startswith(os.path.realpath(REPO) + os.sep), (
    f"optimistix imported from {optx.__file__}, not from {REPO}"
)
