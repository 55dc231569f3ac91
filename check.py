#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only HARNESS]

Decides one property: every job (a Kani/CBMC harness over the repository's current source, or an SMT/CrossHair job)
is regenerated, decided by the solver, and any counterexample is replayed against the real code before it is reported.
Exit 0: held within the bounds. Exit 1: VIOLATION (reproduced). Exit 2: inconclusive (never reported as success).
"""
import sys, os, json, time, shutil, argparse, concurrent.futures as cf, threading, traceback
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "vlib"))
import runner, registry
from runner import Inconclusive


def known():
    out = []
    p = os.path.join(V, "known-findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        l = l.strip()
        if l.startswith("known:"):
            # known: property=<id> key=<key> <what fails>
            w = l.split(None, 3)
            out.append((w[1].split("=")[1], w[2].split("=", 1)[1], w[3]))
    return out


class Mem:
    """crude memory budget for concurrent solvers (GB)"""
    def __init__(self, n):
        self.n, self.c = n, threading.Condition()

    def take(self, k):
        with self.c:
            self.c.wait_for(lambda: self.n >= k)
            self.n -= k

    def give(self, k):
        with self.c:
            self.n += k
            self.c.notify_all()


def run_kani(prop, h, crate, deadline, mem, build):
    """one harness of a built crate -> result dict"""
    want = lambda t: t == prop
    gb = registry.GB.get(h, 4)
    mem.take(gb)
    try:
        r = crate.verify(h, want, max(1, deadline - time.time()))
    finally:
        mem.give(gb)
    r["crate"] = crate.crate
    return r


def split(r):
    """failed assertions -> those about the property, those about the model's limits"""
    model = [(p, d) for p, d in r.get("failed", []) if "VERIF-MODEL" in d or "unwinding assertion" in d]
    return r, [x for x in r.get("failed", []) if tuple(x) not in model], model


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--limit", type=float)
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    P = registry.P[a.prop]
    jobs = list(P["quick"]) if a.tier == "quick" else list(P.get("thorough") or P["quick"])
    if a.only:
        jobs = a.only.split(",")
    t0 = time.time()
    deadline = t0 + (a.limit or (840 if a.tier == "quick" else 6 * 3600))
    build = os.path.join(V, "build", f"{a.prop}-{a.tier}-{os.getpid()}")
    shutil.rmtree(build, ignore_errors=True)
    os.makedirs(build)
    mem = Mem(28)
    results, viol, notes = [], [], []
    inconclusive = []
    groups = {}
    pyjobs = []
    for j in jobs:
        if j in registry.H:
            c = registry.H[j]
            groups.setdefault((c[0], json.dumps(c[1], sort_keys=True), c[2]), []).append(j)
        else:
            pyjobs.append(j)
    crates = {}

    def reproduce(x):
        r, bad = x
        h = r["harness"]
        c = crates[h]
        tried = []
        for p, d in sorted(bad, key=lambda q: 0 if runner.TAG.match(q[1]) else 1)[:4]:
            try:
                vals = c.trace(h, p, max(60, deadline - time.time()))
                path = os.path.join(V, "evidence", f"replay-{a.prop}-{h}.txt")
                rc, out = c.replay(h, vals, path)
            except Inconclusive as e:
                tried.append(f"{d}: {e}")
                continue
            if rc not in (0, 3, 4) and "VERIF-MODEL" not in out and "/native.rs:" not in out and "panicked at" in out:
                with open(path + ".log", "w") as f:
                    f.write(f"harness {h}\nproperty {a.prop}\nassertion {d}\nreplay: VERIF_REPLAY={path} VERIF_SQLITE={V}/vlib/sqlite_server.py VERIF_REPO={runner.REPO} <native replay binary> {h}\n{out}\n")
                return ("violation", h, d, path, out)
            tried.append(f"{d}: not reproduced (rc {rc}): {runner.tail(out, 4)}")
        return ("inconclusive", h, tried)
    def build_group(k):
        i = sorted(groups).index(k)
        crate = runner.Crate(k[0], os.path.join(build, f"g{i}"), json.loads(k[1]), record=bool(k[2]), deadline=deadline)
        crate.codegen(groups[k])
        for h in groups[k]:
            crates[h] = crate
        return crate

    def group(k):
        try:
            c = build_group(k)
        except Inconclusive as e:
            return [(h, e) for h in groups[k]]
        with cf.ThreadPoolExecutor(8) as ex:
            def one(h):
                try:
                    r = run_kani(a.prop, h, c, deadline, mem, build)
                    _, bad, _ = split(r)
                    if bad:
                        with cf.ThreadPoolExecutor(1) as nb:
                            nb.submit(c.native)      # the replay binary, while the counterexample is extracted
                            r["repro"] = reproduce((r, bad))
                        if r["repro"][0] == "violation" and not any(k[0] == a.prop and k[1] == f"{h}:{r['repro'][2]}" for k in known()):
                            runner.stop_all()
                    return (h, r)
                except Inconclusive as e:
                    return (h, e)
            return list(ex.map(one, groups[k]))

    def py(j):
        try:
            return [(j, registry.J[j](a.prop, a.tier, os.path.join(build, j), deadline))]
        except Inconclusive as e:
            return [(j, e)]
        except Exception:
            return [(j, Inconclusive(traceback.format_exc()))]
    with cf.ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(group, k) for k in groups] + [ex.submit(py, j) for j in pyjobs]
        for f in cf.as_completed(fs):
            try:
                for h, r in f.result():
                    if isinstance(r, Exception):
                        inconclusive.append(f"{h}: {r}")
                    else:
                        results.append(r)
            except Exception:
                inconclusive.append(traceback.format_exc())
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    # counterexamples -> replay on the real code
    todo = []
    for r in results:
        _, bad, model = split(r)
        for v in r.get("violations", []):
            viol.append((r["harness"], v["what"], v["replay"], v.get("key", r["harness"])))
        if bad:
            todo.append((r, bad))
        elif model:
            inconclusive.append(f"{r['harness']}: outside the model: {model[:3]}")
        elif r.get("witnesses") and not all(r["witnesses"].values()) and not r.get("violations"):
            inconclusive.append(f"{r['harness']}: unreachable witnesses {[k for k, v in r['witnesses'].items() if not v]}")

    for r, bad in todo:
        res = r.get("repro") or ("inconclusive", r["harness"], ["not replayed"])
        if res[0] == "violation":
            viol.append((res[1], res[2], res[3], f"{res[1]}:{res[2]}"))
        else:
            inconclusive.append(f"{res[1]}: counterexample does not reproduce on the real code: {res[2]}")
    kn = [k for k in known() if k[0] == a.prop]
    new = []
    for h, what, path, key in viol:
        m = [k for k in kn if k[1] == key]
        if m:
            print(f"KNOWN-FINDING: property={a.prop} {m[0][2]}")
        else:
            new.append((h, what, path, key))
    wall = time.time() - t0
    ob = sum(r.get("checked", 0) for r in results)
    ev = {"property": a.prop, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": P.get("level", "other"), "wall_s": round(wall, 1), "violations": len(new),
          "assumptions": registry.ASSUME["all"] + P.get("assume", []),
          "coverage": {"explanation": "Bounded symbolic execution of the repository's functions; an SMT/SAT solver decides every assertion for all values within the bounds.",
                       "obligations": ob, "discharged": ob - sum(len(r.get("failed", [])) for r in results),
                       "jobs": [{"harness": r["harness"], "encodes": registry.H[r["harness"]][3] if r["harness"] in registry.H else r.get("encodes"), "bounds": (registry.H[r["harness"]][4] + f"; loops unrolled {r.get('unwind')} times with unwinding assertions") if r["harness"] in registry.H else r.get("bounds"),
                                 "assertions": r.get("checked"), "failed": [str(x[1]) for x in r.get("failed", [])], "queries": r.get("queries"), "solver_s": r.get("solver_s"), "wall_s": r.get("wall_s"), "variables": r.get("vars"), "clauses": r.get("clauses"), "reachability_witnesses": r.get("witnesses"), **({"samples": r["samples"]} if "samples" in r else {})} for r in results],
                       "queries": sum(r.get("queries", 0) or 0 for r in results), "solver_s": round(sum(r.get("solver_s", 0) or 0 for r in results), 2), "inconclusive": inconclusive,
                       "checker_cmd": f"python3 check.py {a.prop} --tier {a.tier}", "samples": [f"{h}: {w}" for h, w, _, _ in viol] or [r["harness"] + ": " + "; ".join((r.get("witnesses") or {}).keys()) for r in results][:6]}}
    with open(os.path.join(V, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for r in sorted(results, key=lambda r: r["harness"]):
        print(f"{r['harness']}: {r.get('checked')} assertions, {len(r.get('failed', []))} failed, {r.get('queries')} queries, solver {r.get('solver_s')} s, wall {r.get('wall_s')} s")
    if not a.keep:
        shutil.rmtree(build, ignore_errors=True)
    print(f"{a.prop} {a.tier}: {len(results)} of {len(jobs)} jobs decided in {wall:.0f} s")
    if new:
        for h, what, path, key in new:
            print(f"  {h}: {what}")
        print(f"VIOLATION property={a.prop} replay={new[0][2]}")
        return 1
    if inconclusive or len(results) < len(jobs):
        for i in inconclusive:
            print("INCONCLUSIVE", i)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
