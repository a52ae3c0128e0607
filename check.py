#!/usr/bin/env python
"""python check.py <property id> [--replay FILE [--trace]] [--runs N] [--digests]

Decides one property by deterministic simulation (see DESIGN.md). VERIF_SEED and VERIF_TIER select
the batch. Exit 0: held in every run. Exit 1: VIOLATION line. Anything else: error of the check.
"""
import os
import sys

if os.environ.get("PYTHONHASHSEED") is None:
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent/pycache"  # never read stale byte code of the code under test
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from dst import runner  # noqa: E402  pylint: disable=wrong-import-position

if __name__ == "__main__":
    sys.exit(runner.main(sys.argv[1:]))
