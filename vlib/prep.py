"""Materialise a harness crate: templates -> build dir with paths substituted, schema and plans generated.

mode "sync": repository source, stubs and harness are sequentialised (deasync.py); this is what Kani executes.
mode "native": the repository source as it is (async), for recording and for replaying counterexamples.
Lines of the templates ending in //@sync or //@async are kept in that mode only.
"""
import os, sys, re, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "vlib"))
import sqlparse, sqlgen, deasync


def write(p, s):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if os.path.exists(p) and open(p, encoding="utf-8", errors="surrogateescape").read() == s:
        return
    open(p, "w", encoding="utf-8", errors="surrogateescape").write(s)


def read(p):
    return open(p, encoding="utf-8", errors="surrogateescape").read()


def select(s, mode):
    other = "//@async" if mode == "sync" else "//@sync"
    other2 = "#@async" if mode == "sync" else "#@sync"
    if other not in s and other2 not in s:
        return s
    return "".join(l for l in s.splitlines(True) if not l.rstrip().endswith((other, other2)))


def copy(src, dst, mode, sub=lambda s: s):
    for root, dirs, files in os.walk(src):
        dirs[:] = [d for d in dirs if d not in ("target", ".git")]
        for f in files:
            p = os.path.join(root, f)
            s = sub(select(read(p), mode))
            if mode == "sync" and f.endswith(".rs") and "vmacros" not in root:
                s = deasync.deasync(s)
            write(os.path.join(dst, os.path.relpath(p, src)), s)


def scale(s):
    """The batch size of multi-row inserts, scaled down so that a bounded run crosses a batch boundary."""
    return re.sub(r"(const \w+\s*:\s*usize\s*=\s*)1_?000\s*;", r"\g<1>2;", s)


def materialise(crate, repo, build, caps, dyn=(), mode="sync"):
    base = os.path.join(build, mode)
    gen = os.path.join(base, "gen", crate)
    schema = sqlparse.load_schema(repo)
    write(os.path.join(gen, "schema.json"), json.dumps(schema))
    write(os.path.join(gen, "schema.rs"), sqlgen.schema_rs(schema, caps))
    write(os.path.join(gen, "dynplans.rs"), sqlgen.dyn_rs(schema, dyn))
    stubs = os.path.join(base, "stubs")
    mapcap = str(caps.get("map", 1) if mode == "sync" else 16)
    copy(os.path.join(V, "kani", "stubs"), stubs, mode, lambda s: s.replace("@MAPCAP@", mapcap))
    src = os.path.join(base, "repo")
    copy(os.path.join(repo, "opsqueue", "src"), os.path.join(src, "opsqueue", "src"), mode, scale)
    dst = os.path.join(base, "crates", crate)
    copy(os.path.join(V, "kani", crate), dst, mode, lambda s: s.replace("@REPO@", src).replace("@STUBS@", stubs).replace("@GEN@", gen))
    return dst, gen
