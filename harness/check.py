#!/usr/bin/env python3
"""check.py <property> : decides one property for the tree in /repo (or $VERIF_REPO).
check.py --replay FILE : re-runs a recorded violation."""
import json, os, re, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core, cover, families

ROOT = core.ROOT


def load_findings():
    out = []
    p = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m:
                out.append(m.groups())
    return out


def run_job(j):
    """returns list of violations (dict(what, detail, scenario, index)), coverage dict"""
    if j["kind"] in ("sim", "py"):
        if j["kind"] == "sim":
            res = core.run_sims(j["module"], j["signals"], j["scenarios"], timeout=j.get("timeout", 240))
        else:
            res = core.run_py(j["module"], j["scenarios"], timeout=j.get("timeout", 240))
        viol = []
        for i, r in enumerate(res):
            if r["error"]:
                viol.append(dict(what="run failed", detail=r["error"], n=i, scenario=r["scenario"], trace=r["trace"], event=0))
        if j.get("post"):
            j["post"](res)
        v = core.validate(j["spec"], [r for r in res if not r["error"]])
        ok = [i for i, r in enumerate(res) if not r["error"]]
        for k, lst in v["bad"].items():
            i = ok[k]
            for ev, clause in sorted(lst):
                viol.append(dict(what=clause, detail="", n=i, scenario=res[i]["scenario"], trace=res[i]["trace"], event=ev))
        nev = sum(len(r["trace"]["ev"]) for r in res if r["trace"])
        cov = dict(states=v["states"], transitions=v["transitions"], traces=v["validated"], events=nev,
                   skipped=sum(1 for r in res if r.get("skipped")), runs=len(res))
        samples = [dict(job=j["name"], cfg=r["scenario"].get("cfg"), scenario=str(r["scenario"])[:600],
                        events=len(r["trace"]["ev"]), first_events=[str(e)[:160] for e in r["trace"]["ev"][:6]])
                   for r in res[:1] if r["trace"]]
        return viol, cov, samples
    if j["kind"] == "mc":
        r = core.tlc(j["spec"] + ".tla", cover.mc_cfg(j["consts"], j["lines"]), workers=core.NPROC, timeout=j.get("timeout", 600), heap="8g")
        violated = "is violated" in r["out"] or "were violated" in r["out"] or "violated." in r["out"]
        if (r["rc"] != -1 and r["ok"] != j["holds"]) or (violated and j["holds"]) or (not j["holds"] and not violated):
            raise core.MachineryError("model check %s: unexpected outcome (the specification itself is wrong): %s" % (j["name"], r["out"][-3000:]))
        return [], dict(states=r["distinct"], transitions=r["states"], traces=0, events=0, skipped=0, runs=0,
                        mc={j["name"]: dict(distinct_states=r["distinct"], generated=r["states"], wall_s=round(r["wall"], 1),
                                            complete=r["rc"] != -1 and j["holds"], held=j["holds"])}), []
    raise core.MachineryError("job kind " + j["kind"])


def main(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    jobs, meta = families.jobs(pid, tier, seed)
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, events_validated=0, executions=0,
               not_run=0, samples=[], model_checks={}, model_transitions_replayed={}, complete_grids={}, clauses=meta.get("clauses", ""))
    viol, other = [], {}
    for j in jobs:
        v, c, smp = run_job(j)
        cov["states"] += c["states"]
        cov["transitions"] += c["transitions"]
        cov["traces_validated_against_impl"] += c["traces"]
        cov["events_validated"] += c["events"]
        cov["executions"] += c["runs"]
        cov["not_run"] += c["skipped"]
        cov["model_checks"].update(c.get("mc", {}))
        cov["samples"] += smp
        cov["model_transitions_replayed"].update(j.get("graph", {}))
        cov["complete_grids"].update(j.get("grid", {}))
        for x in v:
            x["job"] = j
            w = x["what"]
            if w == "run failed" or w.startswith("*") or w.split(".")[0] == pid:
                viol.append(x)
            else:
                other[w] = other.get(w, 0) + 1
    findings = [f for f in load_findings() if f[0] == pid]
    known = {}
    fresh = []
    for x in viol:
        key = x["scenario"].get("key") if isinstance(x["scenario"], dict) else None
        hit = [f for f in findings if key and f[1] == key]
        if hit and x["what"] != "run failed":
            known[hit[0][1]] = hit[0]
        else:
            fresh.append(x)
    for k, f in known.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, f[2]))
    if cov["executions"] and cov["traces_validated_against_impl"] == 0 and not fresh:
        raise core.MachineryError("no trace was recorded")
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=meta.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(fresh))
    if other:
        ev["coverage"]["clauses_of_other_properties_violated"] = other
    if known:
        ev["coverage"]["known_findings"] = sorted(known)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if fresh:
        x = min(fresh, key=lambda x: (x["event"] == 0, len(x["trace"]["ev"]) if x["trace"] else 0, x["event"]))
        rp = os.path.join(ROOT, "evidence", "replay-%s.json" % pid)
        j = x["job"]
        with open(rp, "w") as f:
            json.dump(dict(property=pid, violated=x["what"], at_event=x["event"], detail=x["detail"],
                           job={k: j.get(k) for k in ("kind", "name", "module", "signals", "spec")},
                           scenario=x["scenario"], trace=x["trace"]), f)
        for y in sorted({y["what"] for y in fresh}):
            print("violated: %s (%d times)" % (y, sum(1 for z in fresh if z["what"] == y)))
        if x["detail"]:
            print(x["detail"])
        if x["trace"] and x["event"]:
            for k in range(max(0, x["event"] - 6), min(len(x["trace"]["ev"]), x["event"])):
                print("  event %d: %s" % (k + 1, json.dumps(x["trace"]["ev"][k])[:400]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("OK property=%s runs=%d events=%d states=%d wall=%.1fs" % (
        pid, cov["executions"], cov["events_validated"], cov["states"], time.time() - t0))
    return 0


def replay(path):
    d = json.load(open(path))
    j = dict(d["job"], scenarios=[d["scenario"]])
    v, c, s = run_job(j)
    for x in v:
        print(x["event"], x["what"], x["detail"])
    return 1 if v else 0


if __name__ == "__main__":
    try:
        rc = replay(sys.argv[2]) if sys.argv[1] == "--replay" else main(sys.argv[1])
    except core.MachineryError as e:
        print("MACHINERY ERROR:", e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        core.cleanup()
    sys.exit(rc)
