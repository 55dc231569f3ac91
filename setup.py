#!/usr/bin/env python3
"""Nothing is prebuilt: every check builds what it needs from /repo's current tree. This verifies that the tools are there."""
import shutil, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "vlib"))
import runner
miss = [t for t in ("cargo", "python3", "z3") if not shutil.which(t)] + [b for b in ("cbmc", "goto-cc", "goto-instrument") if not os.path.exists(os.path.join(runner.BIN, b))]
print("missing:", miss) if miss else print("tools present")
sys.exit(1 if miss else 0)
