#!/usr/bin/env python3
"""Builds the repository's database layer (as it is, async) against a small stand-in for sqlx backed by a real SQLite,
with demo.rs as the main program, in a scratch directory; exit 0 iff the demonstration's assertions hold."""
import os, sys, subprocess, tarfile, tempfile, shutil
here = os.path.dirname(os.path.abspath(__file__))
repo = sys.argv[1]
with tempfile.TemporaryDirectory() as w:
    tarfile.open(os.path.join(here, "kit.tgz")).extractall(w)
    sys.path.insert(0, os.path.join(w, "vlib"))
    crate = open(os.path.join(here, "crate")).read().strip() if os.path.exists(os.path.join(here, "crate")) else "core"
    shutil.copy(os.path.join(here, "demo.rs"), os.path.join(w, "kani", crate, "src", "main.rs"))
    import prep
    prep.scale = lambda s: s
    caps = {t: 6 for t in ("submissions", "submissions_completed", "submissions_failed", "submissions_cancelled", "submissions_metadata")}
    caps.update({"chunks": 2600, "chunks_completed": 16, "chunks_failed": 16, "map": 4})
    if os.path.exists(os.path.join(here, "caps.json")):
        import json
        caps.update(json.load(open(os.path.join(here, "caps.json"))))
    b = os.path.join(w, "b")
    d, gen = prep.materialise(crate, repo, b, caps, mode="native")
    env = dict(os.environ, VERIF_GEN=gen, VERIF_SQLGEN=os.path.join(w, "vlib", "sqlgen.py"), CARGO_TARGET_DIR=os.path.join(w, "t"), CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings",
               VERIF_SQLITE=os.path.join(w, "vlib", "sqlite_server.py"), VERIF_REPO=repo, RUST_MIN_STACK="268435456")
    env["RUSTUP_TOOLCHAIN"] = "stable"
    p = subprocess.run(["cargo", "build", "--quiet", "--bin", "replay"], cwd=d, env=env)
    if p.returncode:
        sys.exit(9)
    r = subprocess.run(["bash", "-c", "ulimit -s unlimited; exec \"$0\"", os.path.join(w, "t", "debug", "replay")], env=env, timeout=200)
    print("demo exit", r.returncode)
    sys.exit(0 if r.returncode == 0 else 1)
