"""python run.py ID [--thorough] [--replay FILE]"""
import importlib
import sys
from pathlib import Path

HERE = Path(__file__).resolve().parent
sys.path[:0] = [str(HERE / "lib"), str(HERE / "checks")]

from vlib.core import run_check  # noqa: E402

if __name__ == "__main__":
    sys.exit(run_check(importlib.import_module(sys.argv[1]), sys.argv[2:]))
