#!/usr/bin/env python3
"""setup_cmd: check that the interpreter and compiler the checks need are there (nothing is installed)."""
import os
import subprocess
import sys
PY = "/opt/venv/bin/python"
if not os.path.exists(PY):
    sys.exit("missing " + PY)
r = subprocess.run([PY, "-c", "import numpy, scipy, h5py, lmfit, Cython; print('ok')"], check=False)
sys.exit(r.returncode)
