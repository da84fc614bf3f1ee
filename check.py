#!/usr/bin/env python3
"""Run one check:  check.py <ID> [--tier quick|thorough] [--replay FILE]

The explorer itself lives in mc/: one module per property (mc/c01.py ...), a
runner that spreads the enumerated cases over worker processes, and the
book-keeping (evidence, replay files, known findings).
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"

if os.path.realpath(sys.executable) != os.path.realpath(PY) or sys.prefix != "/opt/venv":
    if os.path.exists(PY) and not os.environ.get("VMC_REEXEC"):
        os.environ["VMC_REEXEC"] = "1"
        os.execv(PY, [PY, "-B"] + sys.argv)

sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from mc import runner  # noqa: E402

if __name__ == "__main__":
    sys.exit(runner.main(sys.argv[1:], HERE))
