"""mkpatch: helper for planting bugs. mkpatch(id, {file: fn(text)->text}) writes /verif/seeded/<id>/patch.diff from a scratch copy."""
import os, subprocess, tempfile
def mkpatch(id, edits):
    with tempfile.TemporaryDirectory() as w:
        subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
        for f, fn in edits.items():
            p = os.path.join(w, f); s = open(p).read(); n = fn(s)
            assert n != s, f
            open(p, "w").write(n)
        d = subprocess.run(["git", "diff"], cwd=w, capture_output=True, text=True, check=True).stdout
    os.makedirs(f"/verif/seeded/{id}", exist_ok=True)
    open(f"/verif/seeded/{id}/patch.diff", "w").write(d)
