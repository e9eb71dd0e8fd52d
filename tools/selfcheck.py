#!/opt/venv/bin/python
"""setup_cmd: the driver's parts import and the tree builds in scratch."""
import os
import shutil
import sys
import tempfile

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build, core, gen, ref  # noqa: E402,F401

d = tempfile.mkdtemp(prefix='qverif_')
try:
    build.build(d)
finally:
    shutil.rmtree(d, ignore_errors=True)
os.makedirs(os.path.join(build.__file__.rsplit('/', 2)[0], 'evidence'),
            exist_ok=True)
print('ok')
