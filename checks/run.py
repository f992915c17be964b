#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough]: decides one property on /repo's working tree."""
import argparse, hashlib, json, os, random, re, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
import plans


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--vh", help="use this harness binary (development only)")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    w = core.Work()
    try:
        return decide(a, tier, seed, w, t0)
    finally:
        w.close()


def known():
    p = os.path.join(core.VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def decide(a, tier, seed, w, t0):
    prop = a.prop
    plan = plans.PLANS[prop]
    vh = a.vh or core.build(w, cli=plan.get("cli", False))
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], events=0, parts=[])
    fails = []
    for n, part in enumerate(plan["parts"]):
        if time.time() - t0 > (600 if tier == "quick" else 6 * 3600):
            break
        rng = random.Random("%s/%s/%d" % (prop, seed, n))
        res = part(dict(prop=prop, tier=tier, seed=seed, rng=rng, work=w, vh=vh, tag="p%d" % n))
        cov["states"] += res.get("states", 0)
        cov["transitions"] += res.get("transitions", 0)
        cov["traces_validated_against_impl"] += res.get("jobs", 0)
        cov["events"] += res.get("events", 0)
        cov["parts"].append({k: v for k, v in res.items() if k not in ("fails", "samples", "joblist")})
        cov["samples"] += res.get("samples", [])[:2]
        for f in res.get("fails", []):
            if prop in f["tags"]:
                fails.append((part, n, f, res))
    # reports the known-findings file describes are said once each; every other report is confirmed by repeating the failing job alone
    kf = [x for x in known() if x.get("kind") == "finding" and x["property"] == prop]
    said, rest = set(), []
    for part, n, f, res in fails:
        k = [x for x in kf if re.search(x["clause"], f["clause"]) and re.search(x["detail"], f["detail"])]
        if not k:
            rest.append((part, n, f, res))
        elif k[0]["id"] not in said:
            said.add(k[0]["id"])
            print("KNOWN-FINDING: property=%s %s" % (prop, k[0]["what"]))
    confirmed, seen = [], set()
    for part, n, f, res in rest:
        if len(confirmed) >= 5:
            break
        key = (n, f["job"])
        if key in seen:
            continue
        seen.add(key)
        if len(seen) > 20:
            break
        jobs = res.get("joblist")
        if not jobs or f["job"] < 1 or f["job"] > len(jobs):
            confirmed.append((f, None, res))
            continue
        j = dict(jobs[f["job"] - 1])
        r = core.validate(w, vh, res["module"], [j], "confirm", secs=60, procs=1, env=res.get("env"))
        again = [g for g in r.fails if prop in g["tags"] and not any(re.search(x["clause"], g["clause"]) and re.search(x["detail"], g["detail"]) for x in kf)]
        if again:
            confirmed.append((again[0], j, res))
        else:
            print("note: not confirmed when repeated: %s %s" % (f["clause"], f["detail"][:200]))
    rc = 0
    for f, j, res in confirmed:
        rc = 1
        h = hashlib.sha1((f["clause"] + json.dumps(j, sort_keys=True)).encode()).hexdigest()[:10]
        d = os.path.join(core.VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.json" % (prop, h))
        with open(path, "w") as o:
            json.dump(dict(property=prop, clause=f["clause"], detail=f["detail"], module=res.get("module"), job=j), o, indent=1)
        print("clause: %s\ndetail: %s" % (f["clause"], f["detail"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    cov["known_findings_seen"] = sorted(said)
    cov["failures_confirmed"] = len(confirmed)
    write_evidence(prop, tier, seed, plan, cov, time.time() - t0)
    print("%s %s: %d jobs, %d events, %d states, %.0fs" % (prop, "VIOLATED" if rc else "held", cov["traces_validated_against_impl"], cov["events"], cov["states"], time.time() - t0))
    return rc


def write_evidence(prop, tier, seed, plan, cov, wall):
    d = os.path.join(core.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    cov["samples"] = cov["samples"][:6]
    cov["technique"] = plan["technique"]
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, level=plan["level"], coverage=cov, wall_s=round(wall, 1)), f, indent=1)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except core.CheckError as e:
        print("CHECK ERROR: %s" % e)
        sys.exit(3)
    except Exception:
        traceback.print_exc()
        sys.exit(3)
