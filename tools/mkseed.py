#!/usr/bin/env python3
"""mkseed.py ID [--kit]: completes /verif/seeded/ID (demo.sh, kit) from demo.rs."""
import os, sys, tarfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for i in sys.argv[1:]:
    d = os.path.join(V, "seeded", i)
    if os.path.exists(os.path.join(d, "demo.rs")):
        shutil.copy(os.path.join(V, "tools", "kit", "run.py"), d)
        with tarfile.open(os.path.join(d, "kit.tgz"), "w:gz") as t:
            for x in ("vlib", "kani"):
                t.add(os.path.join(V, x), x, filter=lambda m: None if "__pycache__" in m.name or m.name.endswith("/target") else m)
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/run.py" "$PWD"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
