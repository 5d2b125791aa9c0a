#!/usr/bin/env python3
"""Entry of every check: check.py <property> [quick|thorough]."""
import importlib
import os
import sys

if __name__ == "__main__" and os.environ.get("PYTHONHASHSEED") != "0":
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))   # every run does the same in the same order
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fw  # noqa: E402

RULES = {}
for m in sorted(f[:-3] for f in os.listdir(os.path.dirname(os.path.abspath(__file__))) if f.startswith("rules_") and f.endswith(".py")):
    RULES.update(importlib.import_module(m).RULES)
if __name__ == "__main__":
    sys.exit(fw.main(RULES))
