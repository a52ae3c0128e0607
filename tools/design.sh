#!/bin/bash
# DESIGN.md from its text (tools/design.in) and the table of planted bugs
cd "$(dirname "$0")/.." && python3 - <<'PY'
import subprocess
t = subprocess.run(["python3", "tools/table.py"], capture_output=True, text=True).stdout
open("DESIGN.md", "w").write(open("tools/design.in").read().replace("@TABLE@\n", t))
PY
