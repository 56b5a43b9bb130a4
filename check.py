#!/opt/veriftools/pyvenv/bin/python
"""Usage: check.py Pnn [--tier quick|thorough] [--replay FILE]"""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0" or os.environ.get("PYTHONDONTWRITEBYTECODE") != "1":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf.core import main  # noqa: E402

sys.exit(main(sys.argv[1:]))
