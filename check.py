#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough]   decide one property against /repo's working tree
   check.py --replay FILE                      re-run a recorded violation on the real code
"""
import os
import sys

sys.dont_write_bytecode = True
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
if os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv"):
    os.execv(PY, [PY, "-B"] + [os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, HERE)
import warnings

warnings.filterwarnings("ignore")
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
os.chdir(HERE)

if __name__ == "__main__":
    from vc.runner import main

    sys.exit(main(sys.argv[1:]))
