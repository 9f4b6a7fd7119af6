"""The kinds of jobs: each runs something and returns findings."""
import json, os, re, shutil
from lib import *

# --- sequential traces ------------------------------------------------------

def seq(ctx, job):
    h = ctx.harness()
    d = ctx.dir("seq")
    out = os.path.join(d, "trace.ndjson")
    cmd = [h, "seq", "-engine", job.get("engine", "mem"), "-level", job["level"], "-profile", job["profile"],
           "-seed", str(job["seed"]), "-traces", str(job["traces"]), "-steps", str(job["steps"]),
           "-views", str(job.get("views", 0)), "-out", out, "-scratch", d]
    if job.get("met"):
        cmd.append("-met")
    if job.get("restarts"):
        cmd.append("-restarts")
    p = run(cmd, job.get("timeout", 400), cwd=d)
    return finish(ctx, job, p, out, d)


def finish(ctx, job, p, out, d, **kw):
    try:
        if p.returncode:
            f = crash_finding(p, job)
            if f:
                return [f]
            raise Infra("harness: exit %s: %s" % (p.returncode, (p.stderr or "")[-2000:]))
        return check_trace(ctx, job, out, **kw)
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(d, ignore_errors=True)


# --- grid -------------------------------------------------------------------

def grid_file(ctx):
    def f():
        path = os.path.join(ctx.scratch, "grid.json")
        out, rc = ctx.tlc("RatusGen", "RatusGen.cfg", 120, env={"GRID": path})
        if rc or not os.path.exists(path):
            raise Infra("RatusGen: " + out[-2000:])
        return path
    return ctx.once("grid", f)


def grid(ctx, job):
    h, g = ctx.harness(), grid_file(ctx)
    d = ctx.dir("grid")
    out = os.path.join(d, "trace.ndjson")
    p = run([h, "grid", "-engine", job.get("engine", "mem"), "-grid", g, "-out", out, "-seed", str(job["seed"]),
             "-shard", str(job["shard"]), "-shards", str(job["shards"]), "-pairs", str(job["pairs"]),
             "-singles", str(job.get("singles", 1)), "-ops", job.get("ops", "")], job.get("timeout", 400), cwd=d)
    return finish(ctx, job, p, out, d)


# --- the grid of requests ----------------------------------------------------

def api_file(ctx):
    def f():
        path = os.path.join(ctx.scratch, "api.json")
        out, rc = ctx.tlc("ApiGen", "ApiGen.cfg", 120, env={"GRID": path})
        if rc or not os.path.exists(path):
            raise Infra("ApiGen: " + out[-2000:])
        return path
    return ctx.once("api", f)


def api(ctx, job):
    """Every request of ApiGrid, sent to the real code."""
    h, g = ctx.harness(), api_file(ctx)
    d = ctx.dir("api")
    out = os.path.join(d, "trace.ndjson")
    cmd = [h, "api", "-engine", job.get("engine", "mem"), "-level", job["level"], "-grid", g, "-out", out, "-seed", str(job["seed"]),
           "-shard", str(job["shard"]), "-shards", str(job["shards"]), "-stores", str(job.get("stores", 5)), "-share", str(job.get("share", 1)),
           "-ops", job.get("ops", "")]
    if job.get("met"):
        cmd.append("-met")
    p = run(cmd, job.get("timeout", 400), cwd=d)
    return finish(ctx, job, p, out, d)


MCAPI = """CONSTANTS
  TLe <- MLe
  TAdd <- MAdd
  TRound <- MRound
  TMilli <- MMilli
  TSecond <- MSecond
  DefaultTimeout <- MTen
  Variant = "%(variant)s"
SPECIFICATION Spec
INVARIANTS Defaults AbsoluteWins Named QueryMeansBody BatchMeansItsTasks Twins WellFormed Answered StaysWell Refused FailuresTold
CHECK_DEADLOCK FALSE
"""


def mcapi(ctx, job):
    """What RatusApi makes of every request of ApiGrid."""
    return design(ctx, job, "MCApi", MCAPI % dict(dict(variant="real"), **job))


# --- the design model -------------------------------------------------------

MC = """CONSTANTS
  TLe <- MCLe
  TAdd <- MCAdd
  TRound <- MCRound
  TMilli <- MCMilli
  TSecond <- MCSecond
  Retention <- MCRetention
  Ids = {%(ids)s}
  Topics = {%(topics)s}
  Consumers = {%(consumers)s}
  Payloads = {%(payloads)s}
  MaxTime = %(maxtime)d
  MaxClaims = %(maxclaims)d
  MaxBatch = %(maxbatch)d
  Engine <- %(engine)s
  Rich = %(rich)s
INIT Init
NEXT Next
VIEW view
INVARIANTS TypeOK Ownership Existence
PROPERTIES Claiming Committing Stale Chores Polling Counting Releasing Deleting
CHECK_DEADLOCK FALSE
"""


def quoted(l):
    return ", ".join('"%s"' % x for x in l)


def mc(ctx, job):
    """The design: invariants and action properties over all reachable states."""
    c = dict(ids=quoted(job.get("ids", "ab")), topics=quoted(job.get("topics", "xy")), consumers=quoted(job.get("consumers", "c")),
             payloads=quoted(job.get("payloads", [""])), maxtime=job.get("maxtime", 2), maxclaims=job.get("maxclaims", 2),
             maxbatch=job.get("maxbatch", 0), engine=job.get("engine", "MemMode"), rich=str(job.get("rich", False)).upper())
    return design(ctx, job, "MCRatus", MC % c)


def design(ctx, job, module, cfg, extra=()):
    out, rc = ctx.tlc(module, cfg, job.get("timeout", 800), workers=job.get("slots", 1), mem=job.get("mem", "4g"), extra=extra)
    if job.get("broken"):
        # A design that is known not to work: the specification has to say so.
        if " is violated" not in out and " was violated" not in out and "were violated" not in out:
            raise Infra("the broken design %s is not found out (rc %s): %s" % (job, rc, out[-2000:]))
        ctx.count(broken_designs=1)
        return []
    if rc:
        # The design does not depend on the code: an error here is an error of the specification.
        raise Infra("model %s does not hold (rc %s): %s" % (module, rc, out[-3000:]))
    s, t = tlc_counts(out)
    ctx.count(states=s, transitions=t)
    ctx.sample({"model": module, "job": {k: v for k, v in job.items() if k not in ("props",)}, "distinct_states": s, "transitions": t})
    return []


# --- concurrent histories ---------------------------------------------------

def lin(ctx, job):
    h = ctx.harness()
    d = ctx.dir("lin")
    out = os.path.join(d, "hist.ndjson")
    cmd = [h, "lin", "-out", out, "-scratch", d]
    for k in ("engine", "mode", "level", "seed", "shard", "shards", "bound", "runs", "count", "focus"):
        if k in job:
            cmd += ["-" + k, str(job[k])]
    cmd += ["-" + k for k in ("fine", "snap") if job.get(k)]
    p = run(cmd, job.get("timeout", 800), cwd=d)
    m = re.search(r"RUNS (\d+)", p.stdout or "")
    if m:
        ctx.count(schedules=int(m.group(1)))
    return finish(ctx, job, p, out, d, module="RatusLin", cfg="RatusLin.cfg")


# --- subscriptions ----------------------------------------------------------

def sub(ctx, job):
    b = ctx.subtest()
    d = ctx.dir("sub")
    out = os.path.join(d, "trace.ndjson")
    e = dict(os.environ, SUB_OUT=out, SUB_SEED=str(job["seed"]), SUB_TRACES=str(job["traces"]), GODEBUG="asynctimerchan=0")
    p = run([b, "-test.run", "^TestZZSub$", "-test.timeout", "0"], job.get("timeout", 600), cwd=d, env=e)
    return finish(ctx, job, p, out, d, module="SubscribeTrace", cfg="SubscribeTrace.cfg")


MCSUB = """CONSTANTS
  N = %(n)d
  MaxPolls = %(polls)d
  MaxTime = %(maxtime)d
  End = %(end)d
SPECIFICATION Spec
INVARIANTS Bounded Once OnceF NotLost OneCommit Silent
PROPERTIES NoPollAfterEnd StaysReturned CommitsAsConfigured Returns
CHECK_DEADLOCK FALSE
"""


def mcsub(ctx, job):
    return design(ctx, job, "MCSubscribe", MCSUB % job)


# --- snapshots ---------------------------------------------------------------

def snapshot(ctx, job):
    """Scenarios of an engine with a snapshot path under strace, with and without faults."""
    import random, snap
    h = ctx.harness()
    r = random.Random(job["seed"])
    d = ctx.dir("snap")
    shm = os.path.join("/dev/shm", os.path.basename(ctx.scratch) + "-" + os.path.basename(d))
    out, found, runs, n, crashes, hit = os.path.join(d, "trace.ndjson"), [], [], 0, 0, 0
    try:
        with open(out, "w") as f:
            def once(seed, env, inject, where):
                nonlocal n, crashes, hit
                n += 1
                w = os.path.join(d, "run%d" % n)
                os.makedirs(w)
                data = os.path.join(w, "data")
                if where:
                    os.makedirs(shm, exist_ok=True)
                    data = os.path.join(shm, "data%d" % n)
                x = snap.record(ctx, h, w, seed, job.get("steps", 40), env, data, inject)
                faulty = [e for e in x["fs"].events if e["t"] == "fault" and "call" in e]
                if inject and not faulty and x["died"]:
                    shutil.rmtree(w, ignore_errors=True)
                    return x  # the fault hit something else
                hit += len(faulty)
                if x["died"] or x["begin"] is None:
                    c = crash_finding(x["p"], job)
                    if c:
                        found.append(c)
                        return x
                    raise Infra("snap: exit %s: %s" % (x["p"].returncode, x["p"].stderr[-2000:]))
                l, c = snap.trace(ctx, h, w, x, seed)
                crashes += c
                l[0]["run"] = {"seed": seed, "env": env, "inject": inject or "", "shm": where}
                for e in l:
                    f.write(json.dumps(e, separators=(",", ":")) + "\n")
                shutil.rmtree(w, ignore_errors=True)
                if where:
                    shutil.rmtree(shm, ignore_errors=True)
                return x
            for k in range(job["count"]):
                seed = job["seed"] * 1000 + k
                shmable = os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) and k % 2 == 1
                x = once(seed, False, None, shmable)
                for inj in snap.faults(list(x["fs"].points), r, job.get("faults", 10)):
                    once(seed, False, inj, False)
                once(seed + 500, True, None, False)
        ctx.count(crash_points=crashes, faults=hit)
        return found + check_trace(ctx, job, out, module="SnapshotTrace", cfg="SnapshotTrace.cfg")
    finally:
        shutil.rmtree(shm, ignore_errors=True)
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(d, ignore_errors=True)


MCSNAP = """CONSTANTS
  Chunks = %(chunks)d
  Intv = %(intv)d
  MaxTime = %(maxtime)d
  MaxOps = %(ops)d
  MaxSaves = %(saves)d
  MaxOpens = %(opens)d
  Variant = "%(variant)s"
INIT Init
NEXT Next
INVARIANT Quiet
CHECK_DEADLOCK FALSE
"""


def mcsnap(ctx, job):
    return design(ctx, job, "MCSnapshot", MCSNAP % dict(dict(variant="real"), **job))


# --- the server program -------------------------------------------------------

def e2e(ctx, job):
    """Runs of the real server: what is seen from outside, and the histories of its calls."""
    h, srv = ctx.harness(), ctx.server()
    d = ctx.dir("e2e")
    hist, events = os.path.join(d, "hist.ndjson"), os.path.join(d, "events.ndjson")
    data = d
    if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK):  # spares the waits for the disk
        data = os.path.join("/dev/shm", os.path.basename(ctx.scratch) + "-" + os.path.basename(d))
        os.makedirs(data)
    try:
        p = run([h, "e2e", "-server", srv, "-mode", job["mode"], "-seed", str(job["seed"]), "-count", str(job["count"]),
                 "-long", job.get("long", "1s"), "-out", hist, "-events", events, "-scratch", data], job.get("timeout", 600), cwd=d)
        if p.returncode:
            f = crash_finding(p, job)
            if f:
                return [f]
            raise Infra("harness: exit %s: %s" % (p.returncode, (p.stderr or "")[-2000:]))
        return (check_trace(ctx, job, events, module="ServerTrace", cfg="ServerTrace.cfg")
                + check_trace(ctx, job, hist, module="RatusLin", cfg="RatusLin.cfg"))
    finally:
        if data != d:
            shutil.rmtree(data, ignore_errors=True)
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(d, ignore_errors=True)


MCSERVER = """CONSTANTS
  Variant = "%(variant)s"
  N = %(n)d
  MaxFails = %(fails)d
SPECIFICATION Spec
INVARIANTS Quiet Kept
PROPERTIES Stops GoesOn Answers
CHECK_DEADLOCK FALSE
"""


def mcserver(ctx, job):
    return design(ctx, job, "MCServer", MCSERVER % dict(dict(variant="real"), **job))


MCMONGO = """CONSTANTS
  TLe <- MLe
  TAdd <- MAdd
  TRound <- MRound
  TMilli <- MMilli
  TSecond <- MSecond
  Procs = {%(procs)s}
  Ids = {%(ids)s}
  Topics = {%(topics)s}
  PerProc = %(per)d
  Impls = {"atomic", "optimistic"}
  Kinds = {%(ops)s}
  Variant = "%(variant)s"
SPECIFICATION Spec
INVARIANTS Quiet OneNonceEach ActiveHasNonce
PROPERTIES Returns
CHECK_DEADLOCK FALSE
"""


def mcmongo(ctx, job):
    """The commands of MongoDB of several instances, in any order, do what RatusCore allows."""
    c = dict(variant=job.get("variant", "real"), procs=", ".join(str(i + 1) for i in range(job.get("procs", 2))),
             ids=quoted(job.get("ids", "ab")), topics=quoted(job.get("topics", "x")), per=job.get("per", 1),
             ops=quoted(job["ops"]))
    return design(ctx, job, "MCMongo", MCMONGO % c)


LIVE = """CONSTANTS
  TLe <- LLe
  TAdd <- LAdd
  TRound <- LRound
  TMilli <- LMilli
  TSecond <- LSecond
  Ids = {%(ids)s}
  Topics = {%(topics)s}
  Consumers = {%(consumers)s}
  Ret <- LRet
  Low = 3
  MaxAgain = %(again)d
  Variant = "%(variant)s"
SPECIFICATION Spec
PROPERTIES StaysStored AtLeastOnce StaysDone
CHECK_DEADLOCK FALSE
"""


def live(ctx, job):
    """Every task is handed out, and again, until it is done: liveness."""
    c = dict(variant=job.get("variant", "real"), ids=quoted(job.get("ids", "ab")), topics=quoted(job.get("topics", "x")),
             consumers=quoted(job.get("consumers", "c")), again=job.get("again", 1))
    return design(ctx, job, "RatusLive", LIVE % c)


# --- configurations -----------------------------------------------------------

def conf_file(ctx):
    def f():
        path = os.path.join(ctx.scratch, "conf.json")
        out, rc = ctx.tlc("ConfigGen", "ConfigGen.cfg", 120, env={"GRID": path})
        if rc or not os.path.exists(path):
            raise Infra("ConfigGen: " + out[-2000:])
        return path
    return ctx.once("conf", f)


def conf(ctx, job):
    """Instances of the real program with the configurations of ConfigGen."""
    h, srv, g = ctx.harness(), ctx.server(), conf_file(ctx)
    d = ctx.dir("conf")
    out = os.path.join(d, "trace.ndjson")
    data = d
    if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK):
        data = os.path.join("/dev/shm", os.path.basename(ctx.scratch) + "-" + os.path.basename(d))
        os.makedirs(data)
    try:
        p = run([h, "conf", "-server", srv, "-grid", g, "-part", job["part"], "-seed", str(job["seed"]), "-shard", str(job["shard"]),
                 "-shards", str(job["shards"]), "-share", str(job.get("share", 1)), "-out", out, "-scratch", data],
                job.get("timeout", 800), cwd=d)
        return finish(ctx, job, p, out, d, module="ConfigTrace", cfg="ConfigTrace.cfg")
    finally:
        if data != d:
            shutil.rmtree(data, ignore_errors=True)


def nonce(ctx, job):
    """Many claims of several instances of the real program."""
    h, srv = ctx.harness(), ctx.server()
    d = ctx.dir("nonce")
    out = os.path.join(d, "trace.ndjson")
    p = run([h, "nonce", "-server", srv, "-seed", str(job["seed"]), "-claims", str(job["claims"]), "-out", out, "-scratch", d],
            job.get("timeout", 600), cwd=d)
    return finish(ctx, job, p, out, d, module="NonceTrace", cfg="NonceTrace.cfg")


MCCONF = """CONSTANTS
  Steps = %(steps)d
  Variant = "%(variant)s"
SPECIFICATION Spec
INVARIANTS Given1 Twins Mistakes Apart Sane Retention
PROPERTIES OnlyThat
CHECK_DEADLOCK FALSE
"""


def mcconf(ctx, job):
    """What Config makes of configurations."""
    return design(ctx, job, "MCConfig", MCCONF % dict(dict(variant="real"), **job))


KINDS = {"nonce": nonce, "conf": conf, "mcconf": mcconf, "snap": snapshot, "mcsnap": mcsnap, "lin": lin, "sub": sub, "mcsub": mcsub, "seq": seq, "grid": grid, "mc": mc,
         "e2e": e2e, "mcserver": mcserver, "live": live,
         "mcmongo": mcmongo, "api": api, "mcapi": mcapi}
