#!/opt/venv/bin/python
"""run.py <PROPERTY> [quick|thorough] [--sub NAME] [--replay FILE]"""
import os
import sys

sys.dont_write_bytecode = True
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B"] + [os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core  # noqa: E402

try:
    code = core.main(sys.argv[1:])
except SystemExit:
    raise
except BaseException:
    import traceback

    traceback.print_exc()
    code = 2
sys.stdout.flush()
sys.exit(code)
