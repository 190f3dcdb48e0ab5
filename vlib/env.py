"""Process environment: make `stheno` come from the repository under test and
`hypothesis` from the sandbox's tooling, without writing anything anywhere.

Import this module before anything else.
"""

import os
import sys
import types
import warnings

REPO = os.path.abspath(os.environ.get("VERIF_REPO", "/repo"))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

sys.dont_write_bytecode = True
for _k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_k, "1")
os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("TF_ENABLE_ONEDNN_OPTS", "0")

# The repository must win over whatever an editable install says.
sys.path.insert(0, REPO)

# Hypothesis lives in the tooling environment, which has the same Python version.
# Append (never prepend) its site-packages, so that NumPy and friends keep coming from
# the environment that stheno is installed in.
_TOOLS = "/opt/veriftools/pyvenv/lib/python%d.%d/site-packages" % sys.version_info[:2]


def _add_hypothesis():
    try:
        import hypothesis  # noqa: F401

        return
    except ImportError:
        pass
    if os.path.isdir(os.path.join(_TOOLS, "hypothesis")):
        sys.path.append(_TOOLS)


_add_hypothesis()

warnings.simplefilter("ignore")

# `stheno/_version.py` is generated by the build and ignored by git. If this copy of the
# repository does not have it, stand in for it in memory instead of writing a file.
if not os.path.exists(os.path.join(REPO, "stheno", "_version.py")):
    _m = types.ModuleType("stheno._version")
    _m.version = _m.__version__ = "0.0.0"
    sys.modules["stheno._version"] = _m


def load_stheno():
    import stheno

    got = os.path.dirname(os.path.abspath(stheno.__file__))
    want = os.path.join(REPO, "stheno")
    if os.path.realpath(got) != os.path.realpath(want):
        raise RuntimeError(f"stheno was imported from {got}, not from {want}.")
    return stheno
