"""setup_cmd: nothing to install; verifies that the tools are there."""
import os, shutil, subprocess, sys
from . import build, check
os.makedirs(os.path.join(check.VERIF, 'evidence'), exist_ok=True)
subprocess.run([build.PY, '-c', 'import numpy, scipy, Cython'], check=True)
subprocess.run([check.DV_PY, '-c', 'import z3'], check=True)
print('tools present')
