"""Process set-up shared by every check: imports the code under test from /repo's
current working tree, Hypothesis from the pre-installed tool environment, and pins every
source of non-determinism that is not a generated value."""
import os
import sys
import tempfile
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# Never trust (or write) byte code in the source tree: always compile what is there now.
sys.dont_write_bytecode = True
sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "verif-no-pyc-%d" % os.getpid())

for k in ("OMP_NUM_THREADS", "MKL_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
    os.environ[k] = "1"

if REPO not in sys.path:
    sys.path.insert(0, REPO)


def _find_hypothesis():
    try:
        import hypothesis  # noqa: F401

        return
    except ImportError:
        pass
    # same CPython minor version as /opt/venv; appended, so that numpy and friends still
    # come from the environment of the code under test
    cand = "/opt/veriftools/pyvenv/lib/python%d.%d/site-packages" % sys.version_info[:2]
    if os.path.isdir(os.path.join(cand, "hypothesis")):
        sys.path.append(cand)
        import hypothesis  # noqa: F401

        return
    import glob
    import zipfile

    dst = tempfile.mkdtemp(prefix="verif-hyp-")
    tag = "cp%d%d" % sys.version_info[:2]
    wheels = "/opt/veriftools/wheels/"
    for pat in ("hypothesis-*-%s-*.whl" % tag, "sortedcontainers-*.whl", "attrs-*.whl"):
        for w in sorted(glob.glob(wheels + pat))[-1:]:
            zipfile.ZipFile(w).extractall(dst)
    sys.path.append(dst)
    import hypothesis  # noqa: F401


_find_hypothesis()
warnings.simplefilter("ignore")

import numpy as np  # noqa: E402
import torch  # noqa: E402

torch.set_num_threads(1)

import torchiva  # noqa: E402

if not os.path.realpath(torchiva.__file__).startswith(os.path.realpath(REPO) + os.sep):
    raise RuntimeError("torchiva was imported from %s, not from %s" % (torchiva.__file__, REPO))

import hypothesis.internal.conjecture.engine as _eng  # noqa: E402

# shrinking is a convenience; do not let it eat the time budget of a check
_eng.MAX_SHRINKING_SECONDS = 25
