#!/usr/bin/env python3
"""check.py PROPERTY            - the check of one property (VERIF_TIER, VERIF_SEED)
   check.py --replay FILE       - runs the job of a replay file again
   check.py --list"""
import json, os, sys, threading, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
from lib import *
import kinds, plan

FINDINGS = os.path.join(VERIF, "known-findings.txt")


def known():
    """The recorded findings: lines "known: {json}"."""
    if not os.path.exists(FINDINGS):
        return []
    return [json.loads(l[6:]) for l in open(FINDINGS) if l.startswith("known:")]


def matches(entry, prop, f):
    """A recorded finding matches by the property, the kind of job and the step that fails."""
    if prop not in entry["properties"]:
        return False
    m = entry["match"]
    mm = f.detail.get("mismatch", {})
    return all((f.job.get(k[4:]) if k.startswith("job.") else mm.get(k)) == v for k, v in m.items())


def execute(ctx, jobs):
    findings, errors = [], []
    lock = threading.Lock()

    def work(job):
        n = min(job.get("slots", 1), ctx.cores)
        if n:
            with ctx.biglock:
                for _ in range(n):
                    ctx.sem.acquire()
        t = time.time()
        try:
            r = kinds.KINDS[job["kind"]](ctx, job)
            with lock:
                findings.extend(r)
        except Infra as e:
            with lock:
                errors.append("%s: %s" % ({k: v for k, v in job.items() if k != "props"}, e))
        except Exception:
            with lock:
                errors.append("%s: %s" % ({k: v for k, v in job.items() if k != "props"}, traceback.format_exc()))
        finally:
            for _ in range(n):
                ctx.sem.release()
            if os.environ.get("VERIF_TIMES"):
                sys.stdout.write("%6.1fs %s\n" % (time.time() - t, {k: v for k, v in job.items() if k != "props"}))

    # big jobs first, then in order
    ts = [threading.Thread(target=work, args=(j,)) for j in sorted(jobs, key=lambda j: -j.get("slots", 1))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return findings, errors


def main():
    if sys.argv[1:2] == ["--list"]:
        print(" ".join(sorted(plan.PLAN)))
        return 0
    t0 = time.time()
    replay = None
    if sys.argv[1:2] == ["--replay"]:
        replay = json.load(open(sys.argv[2]))
        prop, tier, seed = replay["property"], replay["tier"], replay["seed"]
        jobs = [replay["job"]]
    else:
        prop = sys.argv[1]
        tier = os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        jobs = plan.jobs(prop, tier, seed)
        for j in jobs:
            j.setdefault("props", [prop])
        if os.environ.get("VERIF_KIND"):
            jobs = [j for j in jobs if j["kind"] in os.environ["VERIF_KIND"].split(",")]
    ctx = Ctx(prop, tier, seed)
    try:
        findings, errors = execute(ctx, jobs)
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("scratch:", ctx.scratch)
        else:
            ctx.close()
    for e in errors[:3]:
        print("ERROR", e, file=sys.stderr, flush=True)
    ents = known()
    mine, other, seen = [], {}, set()
    for f in findings:
        if prop not in f.props:
            other[f.what] = other.get(f.what, 0) + 1
            continue
        e = next((e for e in ents if matches(e, prop, f)), None)
        if e:
            seen.add(e["what"])
        else:
            mine.append(f)
    for e in ents:
        if prop in e["properties"]:
            print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
    for w, n in sorted(other.items(), key=lambda x: -x[1])[:10]:
        print("note: not a matter of %s: %s (x%d)" % (prop, w, n))
    if mine:
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        mine.sort(key=lambda f: len(json.dumps(f.detail)))
        shown = set()
        for f in mine:
            if f.what in shown or len(shown) >= 5:
                continue
            shown.add(f.what)
            path = os.path.join(d, "%s-%d.json" % (prop, len(shown)))
            json.dump({"property": prop, "tier": tier, "seed": seed, "what": f.what, "job": f.job, "detail": f.detail,
                       "command": "python3 %s/check.py --replay %s" % (VERIF, path)}, open(path, "w"), indent=1)
            print("violated: %s" % f.what)
            print("VIOLATION property=%s replay=%s" % (prop, path))
    wall = time.time() - t0
    if replay is None and not os.environ.get("VERIF_KIND"):
        c = ctx.counts
        cov = {"states": c["states"], "transitions": c["transitions"], "traces_validated_against_impl": c["traces"],
               "trace_steps": c["steps"], "samples": ctx.samples or ["none"], "jobs": len(jobs)}
        cov.update({k: v for k, v in c.items() if k not in ("states", "transitions", "traces", "steps")})
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
              "assumptions": plan.ASSUMPTIONS.get(prop, []) + plan.ASSUMPTIONS["*"], "wall_s": round(wall, 1), "violations": len(mine)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d jobs, %d states, %d traces, %d steps, %d violations, %.0f s" % (
        prop, tier, len(jobs), ctx.counts["states"], ctx.counts["traces"], ctx.counts["steps"], len(mine), wall))
    if mine:
        return 1
    return 2 if errors else 0


if __name__ == "__main__":
    sys.exit(main())
