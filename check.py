#!/opt/venv/bin/python
"""check.py P08 [--tier quick|thorough] | replay FILE | determinism P08"""
import os
import sys

if os.environ.get("PYTHONHASHSEED") is None or os.environ.get("TZ") != "UTC":
    os.environ.setdefault("PYTHONHASHSEED", "0")
    os.environ["TZ"] = "UTC"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import runner  # noqa: E402

sys.exit(runner.main())
