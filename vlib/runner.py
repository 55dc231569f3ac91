"""Run Kani harnesses of one crate: codegen once, then CBMC per harness in parallel; replay counterexamples natively."""
import os, sys, json, re, subprocess, threading, time, shutil, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "vlib"))
import prep
REPO = os.environ.get("VERIF_REPO_DIR", "/repo")
KANI = sorted(glob.glob("/root/.kani/kani-*"))[-1] if glob.glob("/root/.kani/kani-*") else "/root/.kani/kani-0.68.0"
BIN = os.path.join(KANI, "bin")


class Inconclusive(Exception):
    pass


PROCS, STOP = set(), threading.Event()


def stop_all():
    """a violation is confirmed: nothing else needs deciding"""
    import signal
    STOP.set()
    for p in list(PROCS):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass


def sh(cmd, env=None, cwd=None, timeout=None, log=None):
    if STOP.is_set():
        raise Inconclusive("stopped: a violation was found")
    e = dict(os.environ)
    e.pop("RUSTUP_TOOLCHAIN", None)
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    PROCS.add(p)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        import signal
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return 124, out
    finally:
        PROCS.discard(p)
    if STOP.is_set() and p.returncode < 0:
        raise Inconclusive("stopped: a violation was found")
    return p.returncode, out


class Crate:
    def __init__(self, crate, build, caps, record=True, deadline=None):
        self.crate, self.build, self.caps = crate, build, caps
        self.deadline = deadline
        self.lock = threading.Lock()
        self.dyn = []
        self.codegen_s = 0
        self.want_record = record

    def left(self):
        return None if self.deadline is None else max(1, self.deadline - time.time())

    def env(self, mode):
        return {"VERIF_GEN": os.path.join(self.build, mode, "gen", self.crate), "VERIF_SQLGEN": os.path.join(V, "vlib", "sqlgen.py"),
                "CARGO_TARGET_DIR": os.path.join(self.build, "target-" + mode), "CARGO_NET_OFFLINE": "true", "RUSTFLAGS": os.environ.get("VF", "-Awarnings")}

    def native(self):
        with self.lock:
            if hasattr(self, "exe") and os.path.exists(self.exe):
                return self.exe
            return self.native_build()

    def native_build(self):
        d, _ = prep.materialise(self.crate, REPO, self.build, self.caps, dyn=self.dyn, mode="native")
        rc, out = sh(["cargo", "build", "--quiet", "--bin", "replay"], env=dict(self.env("native"), RUSTUP_TOOLCHAIN="stable"), cwd=d, timeout=self.left())
        if rc != 0:
            raise Inconclusive("native build failed:\n" + tail(out))
        self.exe = os.path.join(self.build, "target-native", "debug", "replay")
        return self.exe

    def record(self):
        exe = self.native()
        rc, out = sh([exe, "--record"], timeout=60)
        if rc != 0:
            raise Inconclusive("recording of built queries failed:\n" + tail(out))
        self.recorded = out
        self.dyn = []
        for l in out.splitlines():
            m = re.match(r"VERIF-SQL (\d+) (\".*\")$", l)
            if m:
                t = (int(m.group(1)), json.loads(m.group(2).replace("\\'", "'")))
                if t not in self.dyn:
                    self.dyn.append(t)
        return out

    def codegen(self, harnesses):
        t0 = time.time()
        if self.want_record:
            self.record()
        d, _ = prep.materialise(self.crate, REPO, self.build, self.caps, dyn=self.dyn, mode="sync")
        shutil.rmtree(os.path.join(self.build, "target-sync", "kani", "x86_64-unknown-linux-gnu", "debug", "build", "v" + self.crate), ignore_errors=True)
        cmd = ["cargo", "kani", "--lib", "--only-codegen", "--no-memory-safety-checks", "--no-assertion-reach-checks"]
        for h in harnesses:
            cmd += ["--harness", h]
        env = self.env("sync")
        rc, out = sh(cmd, env=env, cwd=d, timeout=self.left())
        if rc != 0:
            raise Inconclusive("codegen failed:\n" + tail(out, 60))
        self.bins = {}
        for m in glob.glob(os.path.join(self.build, "target-sync", "kani", "**", "*.kani-metadata.json"), recursive=True):
            j = json.load(open(m))
            for p in j.get("proof_harnesses", []):
                n = p["pretty_name"].split("::")[-1]
                if n in harnesses:
                    self.bins[n] = (p["goto_file"], p["mangled_name"], (p.get("attributes") or {}).get("unwind_value"))
        miss = [h for h in harnesses if h not in self.bins]
        if miss:
            raise Inconclusive(f"no code generated for {miss}: {tail(out)}")
        self.codegen_s = time.time() - t0

    def link(self, h):
        goto, mangled, unwind = self.bins[h]
        o = os.path.join(self.build, "goto", h + ".out")
        os.makedirs(os.path.dirname(o), exist_ok=True)
        for c in (["goto-cc", goto, os.path.join(KANI, "library/kani/kani_lib.c"), "-o", o],
                  ["goto-cc", o, "--function", mangled, "-o", o],
                  ["goto-instrument", "--add-library", "--no-malloc-may-fail", o, o],
                  ["goto-instrument", "--generate-function-body-options", "assert-false-assume-false", "--generate-function-body", ".*", "--drop-unused-functions", o, o],
                  ["goto-instrument", "--ensure-one-backedge-per-target", o, o]):
            rc, out = sh([os.path.join(BIN, c[0])] + c[1:], timeout=self.left())
            if rc != 0:
                raise Inconclusive(f"{c[0]} failed on {h}: {tail(out)}")
        return o, unwind

    def cbmc_cmd(self, o, unwind):
        return [os.path.join(BIN, "cbmc"), "--no-malloc-may-fail", "--no-undefined-shift-check", "--no-signed-overflow-check", "--no-bounds-check", "--no-pointer-check",
               "--nan-check", "--no-self-loops-to-assumptions", "--no-pointer-primitive-check", "--object-bits", "16", "--max-field-sensitivity-array-size", "1024", "--unwind", str(unwind or 9), "--sat-solver", "cadical",
               o]

    def cbmc(self, o, unwind, extra, timeout):
        cmd = self.cbmc_cmd(o, unwind) + ["--verbosity", "8", "--json-ui"] + extra
        t0 = time.time()
        rc, out = sh(cmd, timeout=timeout)
        if rc == 124:
            raise Inconclusive("solver time limit")
        try:
            j = json.loads(out)
        except Exception:
            raise Inconclusive(f"cbmc output unreadable (rc {rc}): {tail(out)}")
        return j, time.time() - t0

    def verify(self, h, want, timeout):
        """want: predicate on a property description -> bool. Returns dict."""
        o, unwind = self.link(h)
        j, dt = self.cbmc(o, unwind, ["--show-properties"], timeout)
        props = []
        for x in j:
            for p in x.get("properties", []):
                props.append(p)
        sel = [p["name"] for p in props if is_cover(p) or p.get("class") == "unwind" or "unwind" in p["name"] or relevant(p["description"], want)]
        ign = [p["description"] for p in props if p["name"] not in sel]
        extra = []
        for n in sel:
            extra += ["--property", n]
        j, dt = self.cbmc(o, unwind, (extra if ign else []) + ["--slice-formula"], timeout)
        res = {"harness": h, "wall_s": round(dt, 1), "unwind": unwind, "checked": 0, "failed": [], "witnesses": {}, "solver_s": 0.0, "queries": 0, "vars": 0, "clauses": 0, "goto": o}
        done = False
        for x in j:
            t = x.get("messageText", "")
            m = re.match(r"Runtime Solver: ([\d.e+-]+)s", t)
            if m:
                res["solver_s"] += float(m.group(1)); res["queries"] += 1
            m = re.match(r"(\d+) variables, (\d+) clauses", t)
            if m:
                res["vars"], res["clauses"] = max(res["vars"], int(m.group(1))), max(res["clauses"], int(m.group(2)))
            for p in x.get("result", []):
                done = True
                desc = p["description"]
                if p["property"].startswith("_") is False and "cover" in p["property"].split(".")[-2:]:
                    res["witnesses"][desc] = p["status"] == "FAILURE"
                elif is_cover_name(p["property"]):
                    res["witnesses"][desc] = p["status"] == "FAILURE"
                else:
                    res["checked"] += 1
                    if p["status"] == "FAILURE":
                        res["failed"].append((p["property"], desc))
                    elif p["status"] not in ("SUCCESS",):
                        raise Inconclusive(f"{h}: {p['property']} {p['status']}")
        if not done:
            raise Inconclusive(f"{h}: no result: {tail(json.dumps(j)[-2000:])}")
        res["solver_s"] = round(res["solver_s"], 2)
        return res

    def trace(self, h, prop, timeout):
        """the inputs of the counterexample, read from CBMC's textual trace as it is printed (it can be large)"""
        o, unwind = self.link(h)
        cmd = self.cbmc_cmd(o, unwind) + ["--verbosity", "4", "--property", prop, "--trace", "--stop-on-fail"]
        if STOP.is_set():
            raise Inconclusive("stopped: a violation was found")
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", start_new_session=True)
        PROCS.add(p)
        t = threading.Timer(timeout, p.kill)
        t.start()
        vals, want = [], 0
        try:
            for l in p.stdout:
                if l.startswith("State "):
                    m = re.search(r" function (.*) line \d+ thread", l)
                    want = 2 if m and "any_raw" in m.group(1) else 0
                elif want:
                    want -= 1
                    if not want:
                        lhs, _, v = l.strip().partition("=")
                        m = re.search(r"\(([01 ]+)\)$", v)
                        if "return_value" in lhs and lhs.startswith("goto_symex$$return_value") and m:
                            b = m.group(1).replace(" ", "")
                            n = int(b, 2)
                            vals.append([(n >> (8 * i)) & 255 for i in range((len(b) + 7) // 8)])
            rc = p.wait()
        finally:
            t.cancel()
            PROCS.discard(p)
        if rc not in (0, 10):
            raise Inconclusive(f"no counterexample trace (cbmc rc {rc})")
        return vals

    def replay(self, h, vals, path):
        with open(path, "w") as f:
            for v in vals:
                f.write(" ".join(map(str, v)) + "\n")
        self.native()
        env = {"VERIF_REPLAY": path, "VERIF_SQLITE": os.path.join(V, "vlib", "sqlite_server.py"), "VERIF_REPO": REPO, "RUST_BACKTRACE": "0"}
        return sh([self.exe, h], env=env, timeout=120)


def is_cover_name(n):
    return ".cover." in n or n.split(".")[-2:-1] == ["cover"]


def is_cover(p):
    return p.get("class") == "cover" or is_cover_name(p["name"])


TAG = re.compile(r"^\"?(P\d\d+)\b")


def relevant(desc, want):
    m = TAG.match(desc)
    return want(m.group(1)) if m else True


def tail(s, n=25):
    return "\n".join(s.strip().splitlines()[-n:])[-4000:]
