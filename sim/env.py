"""Process bootstrap: pins every ambient source of nondeterminism before /repo is imported.

Nothing here reads a clock or draws a random number.  The code under test is always the working
tree in /repo (or $SIM_REPO for scratch copies used while developing planted bugs).
"""
import os
import sys
import warnings

REPO = os.environ.get("SIM_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

_done = False


def bootstrap():
    """Idempotent.  Returns the torch module."""
    global _done
    if _done:
        import torch

        return torch
    sys.dont_write_bytecode = True
    os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
    os.environ["CUDA_VISIBLE_DEVICES"] = ""
    os.environ["OMP_NUM_THREADS"] = "1"
    os.environ["MKL_NUM_THREADS"] = "1"
    os.environ.setdefault("MKL_CBWR", "COMPATIBLE")
    os.environ["WANDB_MODE"] = "offline"
    os.environ["WANDB_SILENT"] = "true"
    os.environ.setdefault("MPLBACKEND", "Agg")
    os.environ["TQDM_DISABLE"] = "1"
    warnings.filterwarnings("ignore")
    import logging

    logging.disable(logging.CRITICAL)
    sys.path[:] = [p for p in sys.path if p not in ("", REPO)]
    sys.path.insert(0, REPO)
    import torch

    torch.set_num_threads(1)
    try:
        torch.set_num_interop_threads(1)
    except RuntimeError:
        pass
    torch.use_deterministic_algorithms(True, warn_only=True)
    from . import kmeans_stub

    sys.modules["fast_pytorch_kmeans"] = kmeans_stub
    import simple_einet

    f = os.path.abspath(simple_einet.__file__)
    if not f.startswith(os.path.abspath(REPO) + os.sep):
        raise SystemExit(f"harness error: simple_einet imported from {f}, not from {REPO}")
    # import everything the simulator drives once, so that lazily executed imports inside the code
    # under test never happen inside a simulated run
    import simple_einet.einet  # noqa
    import simple_einet.conv_pc  # noqa
    import simple_einet.data  # noqa
    import simple_einet.mixture  # noqa
    import sklearn.datasets  # noqa
    import simple_einet.layers.distributions.multidistribution  # noqa
    import simple_einet.layers.distributions.piecewise_linear  # noqa

    _done = True
    return torch


def import_root(name):
    """Import one of /repo's root scripts (exp_utils, models_pl); they read files relative to cwd."""
    import importlib

    bootstrap()
    if name in sys.modules:
        return sys.modules[name]
    cwd = os.getcwd()
    os.chdir(REPO)
    try:
        m = importlib.import_module(name)
    finally:
        os.chdir(cwd)
    if not os.path.abspath(m.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise SystemExit(f"harness error: {name} imported from {m.__file__}")
    return m


def versions():
    import numpy
    import torch

    return {"python": sys.version.split()[0], "torch": torch.__version__, "numpy": numpy.__version__}
