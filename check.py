#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]    run the check of one property
check.py --replay <file>                        re-run one recorded counterexample against the real code
check.py --setup                                build the engine"""
import json
import os
import re
import shutil
import sys
import time
import concurrent.futures as cf

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import driver  # noqa: E402
from driver import VERIF, Work, job_defaults, run_job  # noqa: E402


def load_known():
    out = []
    f = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(f):
        out = json.load(open(f))["findings"]
    return [k for k in out if k.get("status") != "fixed"]


def matches(k, pid, job, v):
    if pid not in k["properties"] or k.get("harness", job["h"]) != job["h"]:
        return False
    text = v["kind"] + ": " + v["msg"] + " @ " + v["where"]
    if not re.search(k["pattern"], text):
        return False
    for a, b in k.get("params", {}).items():
        if job["p"].get(a) != b:
            return False
    if "inputs" in k:
        vals = {}
        for l in open(v["file"]):
            t = l.split()
            if len(t) == 3 and t[0] == "in":
                vals[t[1]] = int(t[2])
        for a, b in k["inputs"].items():
            if vals.get(a) != b:
                return False
    return True


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        w = Work("setup")
        w.engine()
        w.close()
        print("engine built")
        return 0
    if a and a[0] == "--replay":
        return replay(a[1])
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    only = a[a.index("--only") + 1] if "--only" in a else None
    import specs
    spec = specs.PROPS[pid]
    t0 = time.time()
    jobs = [job_defaults(j) for j in spec["jobs"] if tier in j.get("tiers", ("quick", "thorough"))]
    if only:
        jobs = [j for j in jobs if re.search(only, driver.job_name(j))]
    if tier == "thorough":
        for j in jobs:
            j["t"] = j.get("tt", j["t"] * 4)
            j["audit"] = 30
    w = Work(pid)
    w.pool.submit(w.engine)
    budget = spec.get("budget", {"quick": 420, "thorough": 840})[tier]
    results = []
    verbose = "-v" in a
    futs = {}
    # native binaries are needed by every job (witness replay): build them alongside
    for h, c, n, d in {(j["h"], j["cfg"], j["nd"], tuple(j["defs"])) for j in jobs}:
        w.pool.submit(lambda h=h, c=c, n=n, d=d: w.harness_bc(h, c, n, list(d)))
    for i, j in sorted(enumerate(jobs), key=lambda x: -x[1]["t"]):
        futs[w.pool.submit(run_job, w, i, j, None)] = j
    pending = set(futs)
    while pending:
        left = budget - (time.time() - t0)
        if left <= 0:
            break
        done, pending = cf.wait(pending, timeout=left, return_when=cf.FIRST_COMPLETED)
        for f in done:
            r = f.result()
            results.append(r)
            if verbose:
                print_job(r)
    cut = [driver.job_name(futs[f]) for f in pending]
    rc = finish(pid, tier, spec, jobs, results, cut, t0)
    if pending:
        for f in pending:
            f.cancel()
        if not os.environ.get("SX_KEEP"):
            shutil.rmtree(w.dir, ignore_errors=True)
        sys.stdout.flush()
        os.system("pkill -9 -f %s 2>/dev/null" % re.escape(w.dir))
        os._exit(rc)
    w.close()
    return rc


def print_job(r):
    x = r["res"] or {}
    print("  [%s] %s paths=%s asserts=%s/%s unk=%s steps=%s/%s/%s wit=%d q=%s t=%.1fs%s" % (
        "ERR" if r["error"] else "ok " if not (x.get("unsupported") or x.get("timeout") or r["confirmed"] or r["unreproduced"]) else "?? ", r["name"], x.get("paths"), x.get("asserts_normalised"), x.get("asserts"), x.get("asserts_unknown"),
        x.get("steps_proved"), x.get("steps_tabulated"), x.get("steps_unknown"), r["wit_ok"], x.get("solver_queries"), x.get("wall_s", 0), " TIMEOUT" if x.get("timeout") else ""))
    if r["error"]:
        print("    error: " + r["error"][:1500])
    for m in x.get("unsupported_msgs", [])[:6]:
        print("    unsupported: " + m)
    for v in r["confirmed"]:
        print("    CONFIRMED %s: %s @ %s | %s" % (v["kind"], v["msg"], v["where"], driver.first_line(v["native"])))
    for v in r["unreproduced"]:
        print("    unreproduced %s: %s @ %s (rc %s) %s" % (v["kind"], v["msg"], v["where"], v["native_rc"], driver.first_line(v["native"])))
    for b in r["wit_bad"]:
        print("    witness: " + b)
    lab = set(x.get("labels", {}))
    for l in r["job"]["labels"]:
        if l not in lab:
            print("    label not reached: " + l)
    sys.stdout.flush()


def finish(pid, tier, spec, jobs, results, cut, t0):
    known = load_known()
    viol, inconclusive = [], []
    kf = set()
    tot = dict(paths=0, instructions=0, forks=0, merges=0, asserts=0, asserts_normalised=0, solver_queries=0, solver_unsat=0, solver_sat=0, solver_unknown=0, solver_time_s=0.0, steps=0, steps_proved=0, steps_tabulated=0,
               steps_unknown=0, steps_refuted=0, linear_decided=0)
    fns, labels, samples = set(), {}, []
    wit = 0
    os.makedirs(os.path.join(VERIF, "evidence", "cex"), exist_ok=True)
    for r in sorted(results, key=lambda r: r["name"]):
        x = r["res"]
        if r["error"]:
            inconclusive.append("%s: %s" % (r["name"], r["error"][:400]))
            continue
        for k in tot:
            tot[k] += x.get(k, 0)
        fns.update(x["functions"])
        for l, n in x["labels"].items():
            labels[l] = labels.get(l, 0) + n
        wit += r["wit_ok"]
        if x["timeout"]:
            inconclusive.append("%s: time limit after %d complete paths" % (r["name"], x["paths"]))
        for m in x["unsupported_msgs"]:
            inconclusive.append("%s: %s" % (r["name"], m))
        if x["steps_refuted"]:
            inconclusive.append("%s: the solver refutes %d rewriting steps of the engine" % (r["name"], x["steps_refuted"]))
        for b in r["wit_bad"]:
            inconclusive.append("%s: witness %s" % (r["name"], b))
        for v in r["unreproduced"]:
            inconclusive.append("%s: candidate not reproduced by the real code: %s: %s @ %s" % (r["name"], v["kind"], v["msg"], v["where"]))
        if not (r["confirmed"] or r["unreproduced"]):
            for l in r["job"]["labels"]:
                if l not in x["labels"]:
                    inconclusive.append("%s: label '%s' not reached (vacuous)" % (r["name"], l))
        for v in r["confirmed"]:
            hit = [k for k in known if matches(k, pid, r["job"], v)]
            if hit:
                kf.add((hit[0]["id"], hit[0]["what"]))
                continue
            n = len(viol)
            dst = os.path.join(VERIF, "evidence", "cex", "%s-%d.txt" % (pid, n))
            body = open(v["file"]).read()
            hdr = "# property %s\n# job %s\n# %s: %s\n# at %s\n# native: %s\n#! %s\n" % (
                pid, r["name"], v["kind"], v["msg"], v["where"], driver.first_line(v["native"]), json.dumps({k: r["job"][k] for k in ("h", "cfg", "nd", "defs")}))
            open(dst, "w").write(hdr + body)
            viol.append((dst, v, r))
        if len(samples) < 4 and x["witness"]:
            try:
                samples.append({"job": r["name"], "witness": open(x["witness"][0]).read().splitlines()[:60]})
            except OSError:
                pass
    for c in cut:
        inconclusive.append("%s: not finished within the budget" % c)
    cov = {
        "states": tot["paths"],
        "transitions": tot["instructions"],
        "traces_validated_against_impl": wit,
        "samples": samples or [{"note": "no completed path"}],
        "bounds": spec["bounds"],
        "jobs": [{"job": r["name"], "paths": (r["res"] or {}).get("paths"), "instructions": (r["res"] or {}).get("instructions"), "assertions": (r["res"] or {}).get("asserts"), "wall_s": (r["res"] or {}).get("wall_s")} for r in sorted(results, key=lambda r: r["name"])],
        "assertions_checked": tot["asserts"],
        "assertions_decided_by_normal_form": tot["asserts_normalised"],
        "solver": {"queries": tot["solver_queries"], "unsat": tot["solver_unsat"], "sat": tot["solver_sat"], "unknown": tot["solver_unknown"], "time_s": round(tot["solver_time_s"], 2)},
        "rewriting_steps": {"distinct": tot["steps"], "discharged_by_solver": tot["steps_proved"], "tabulated_over_whole_pivot_range": tot["steps_tabulated"], "undecided": tot["steps_unknown"], "refuted": tot["steps_refuted"]},
        "path_merges": tot["merges"],
        "path_forks": tot["forks"],
        "branches_decided_by_linear_elimination": tot["linear_decided"],
        "labels_reached": labels,
        "functions_encoded": sorted(fns),
        "inconclusive": inconclusive[:80],
        "known_findings": sorted(k[0] for k in kf),
    }
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": spec.get("level", "model_checking"), "coverage": cov,
          "assumptions": spec.get("assumptions", []) + ["toolchain: clang 18 -O2 bitcode of the current sources; native replay with g++ 9 and AddressSanitizer"], "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for k in sorted(kf):
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, k[0], k[1]))
    for m in inconclusive[:40]:
        print("INCONCLUSIVE: " + m)
    for dst, v, r in viol:
        print("VIOLATION property=%s replay=%s" % (pid, dst))
        print("  %s: %s @ %s" % (v["kind"], v["msg"], v["where"]))
        print("  job %s; native: %s" % (r["name"], driver.first_line(v["native"])))
    print("%s %s: %d jobs, %d paths, %d assertions, %d solver queries, %d witnesses replayed, %d inconclusive, %d violations, %.1f s" % (
        pid, tier, len(results), tot["paths"], tot["asserts"], tot["solver_queries"], wit, len(inconclusive), len(viol), time.time() - t0))
    if not viol and all(r["error"] for r in results):
        return 2
    return 1 if viol else 0


def replay(f):
    meta = None
    for l in open(f):
        if l.startswith("#! "):
            meta = json.loads(l[3:])
    w = Work("replay")
    rc, out = w.replay(meta["h"], meta["cfg"], meta["nd"], meta["defs"], os.path.abspath(f))
    print(out)
    print("exit status", rc)
    w.close()
    return 1 if rc else 0


if __name__ == "__main__":
    sys.exit(main())
