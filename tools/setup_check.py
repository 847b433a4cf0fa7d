"""setup_cmd: nothing to build (pure Python, vendored Hypothesis); verify that the pieces are there"""

import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.path.insert(0, VERIF + "/vendor")
import hypothesis  # noqa
import numpy  # noqa
from specs import SPECS  # noqa

for d in ["evidence", "replays"]:
    os.makedirs(os.path.join(VERIF, d), exist_ok=True)
for pid in SPECS:
    assert os.path.exists("%s/props/%s.py" % (VERIF, pid)), pid
print("setup ok: hypothesis", hypothesis.__version__, "properties:", len(SPECS))
