#!/bin/bash
# Nothing to install: precompiles the simulator itself (every check would do it on demand).
cd "$(dirname "$0")/.." && python3 - <<'P'
import sys
sys.argv = ["x"]
sys.path.insert(0, "tools")
import importlib.util
src = open("tools/run_check.py").read().replace("sys.exit(main())", "")
g = {"__file__": "tools/run_check.py"}
exec(compile(src, "run_check", "exec"), g)
bad = [l for o, l in map(g["compile_sim"], g["SIMSRC"]) if o is None]
print("\n".join(bad) or "simulator built")
sys.exit(1 if bad else 0)
P
