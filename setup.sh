#!/bin/bash
# Nothing is compiled ahead of time: every check builds its own overlay of /repo's working tree.
# This only verifies that what the checks need is present and importable.
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays
exec /opt/venv/bin/python - <<'P'
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import hypothesis, numpy, scipy, astropy, h5py, numba, matplotlib
from vf import overlay
import os
root = overlay.build()
assert os.path.exists(os.path.join(root, "legwork", "__init__.py"))
overlay.remove(root)
print("hypothesis", hypothesis.__version__, "numpy", numpy.__version__, "ready")
P
