"""Process set-up shared by every simulator process: the library under test is always
/repo's current working tree, imported directly; everything runs single-threaded on the CPU."""
import logging
import os
import sys
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")
sys.dont_write_bytecode = True
warnings.filterwarnings("ignore")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import torch  # noqa: E402

torch.set_num_threads(1)
try:
    torch.set_num_interop_threads(1)
except RuntimeError:
    pass
torch.manual_seed(0)


class LibraryBroken(Exception):
    """The library under test cannot even be imported."""


def library():
    """Import the library under test (lazily, so that a broken tree is reported as such)."""
    logging.disable(logging.WARNING)
    try:
        import continual as co
    except Exception as e:  # noqa: BLE001
        raise LibraryBroken(f"import continual failed: {type(e).__name__}: {e}") from e
    path = os.path.realpath(os.path.dirname(co.__file__))
    expected = os.path.realpath(os.path.join(REPO, "continual"))
    if path != expected:
        raise RuntimeError(f"harness imported {path}, expected {expected}")
    return co
