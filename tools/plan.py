"""Which jobs decide which property."""

CORE = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C10", "C11"]

# The profile of random histories that exercises a property most.
PROFILE = {"C01": "claim", "C02": "commit", "C03": "commit", "C04": "chore", "C05": "claim", "C06": "chore",
           "C07": "write", "C08": "write", "C10": "read", "C11": "claim", "C14": "mix", "C15": "mix", "C19": "mix", "C18": "chore"}


def seqs(seed, n, **kw):
    return [dict(kind="seq", seed=seed * 100 + i, **kw) for i in range(n)]


def grids(seed, shards, pairs, **kw):
    return [dict(kind="grid", seed=seed, shard=i, shards=shards, pairs=pairs, **kw) for i in range(shards)]


# The operations whose concurrent histories matter to a property most.
FOCUS = {"C01": "Poll,InsertPromise,UpsertPromise", "C02": "Commit", "C03": "Commit", "C04": "Chore", "C05": "Poll",
         "C06": "Chore,DeleteTask", "C07": "InsertTask,UpsertTask,InsertTasks,UpsertTasks",
         "C08": "DeleteTask,DeleteTasks,DeleteTopic,DeleteTopics",
         "C10": "GetTask,GetTopic,GetPromise,ListTasks,ListPromises,ListTopics", "C11": "DeletePromise,DeletePromises"}


def lins(seed, shards, n=None, **kw):
    return [dict(kind="lin", seed=seed, shard=i, shards=shards, **kw) for i in range(n or shards)]


# Deployments of MongoDB.
KINDS = ["none:auto", "none:atomic", "none:fallback", "none:nopoll", "none:mixed", "id:auto", "id:fallback", "id:nopoll",
         "topic:auto", "topic:fallback", "topic:nopoll"]


def kinds(l=KINDS):
    return ["mongo:" + k for k in l]


def huge(tier, seed, levels, engine="mem", met=False, restarts=True):
    """Stores of more than a thousand tasks."""
    l = []
    for n, lv in enumerate(levels):
        l += seqs(seed + 60 + n, 1 if tier == "quick" else 4, engine=engine, level=lv, profile="huge",
                  traces=4 if tier == "quick" else 25, steps=1, met=met)
    if restarts:
        l += seqs(seed + 70, 1 if tier == "quick" else 2, level=levels[0], profile="huge", traces=3 if tier == "quick" else 25,
                  steps=1, restarts=True)
    return l


def core_mongo(prop, tier, seed):
    p = PROFILE[prop]
    if tier == "quick":
        return (grids(seed, 16, 400, engine="mongo", singles=0.5)[:2]
                + seqs(seed + 5, 1, engine="mongo", level="engine", profile=p, traces=50, steps=80, views=4)
                + seqs(seed + 6, 1, engine="mongo", level="http", profile="mix", traces=40, steps=80, views=8)
                + lins(seed, 16, 1, engine="mongo:none:mixed", mode="aba", bound=1, count=50, focus=FOCUS[prop]))
    l = grids(seed, 8, 10000, engine="mongo")
    for n, k in enumerate(kinds()):
        l += seqs(seed + 5 + n, 1, engine=k, level="engine", profile=p, traces=300, steps=100, views=4)
        l += lins(seed, 8, 2, engine=k, mode="aba", bound=2, count=300, focus=FOCUS[prop])
        l += lins(seed, 8, 1, engine=k, mode="pairs", bound=2, focus=FOCUS[prop])
    return l


# Commands of MongoDB; those of one document, and all of them.
TASKOPS = ["Poll", "Commit", "InsertPromise", "UpsertPromise", "DeletePromise", "Chore"]
ALLOPS = TASKOPS + ["DeleteTask", "InsertTask", "UpsertTask"]
MONGO_VARIANTS = ["blindcommit", "blindpoll", "blindclaim", "late", "keep", "giveup", "absent", "wholesale"]


def commands(tier):
    l = [dict(kind="mcmongo", slots=2, ids="ab", ops=TASKOPS)]
    if tier == "quick":
        return l
    return (l + [dict(kind="mcmongo", slots=4, ids="ab", topics="xy", ops=ALLOPS),
                 dict(kind="mcmongo", slots=8, ids="a", per=2, ops=ALLOPS, timeout=3000, mem="12g"),
                 dict(kind="mcmongo", slots=8, ids="a", procs=3, ops=ALLOPS, timeout=3000, mem="12g")]
            + broken(MONGO_VARIANTS, kind="mcmongo", slots=2, ids="ab", ops=TASKOPS))


def mongo(prop, tier, seed):
    """C16: every deployment."""
    l = [dict(kind="mc", slots=4, maxtime=2, engine="MongoMode")] + commands(tier)
    if tier == "quick":
        for n, k in enumerate(kinds()):
            l += [dict(kind="grid", engine=k, seed=seed, shard=n, shards=11, pairs=300)]
            l += seqs(seed + n, 1, engine=k, level=("engine", "http", "client")[n % 3], profile=list(dict.fromkeys(PROFILE.values()))[n % 6],
                      traces=40, steps=80, views=8, restarts=n % 2 == 0)
        for n, k in enumerate(kinds(["none:auto", "none:fallback", "none:mixed", "id:auto", "topic:auto", "topic:fallback", "topic:nopoll"])):
            l += [dict(kind="lin", engine=k, mode="aba", seed=seed, shard=n, shards=7, bound=1, count=60),
                  dict(kind="lin", engine=k, mode="pairs", seed=seed, shard=n, shards=40, bound=2),
                  dict(kind="lin", engine=k, mode="random", seed=seed, shard=n, count=15, runs=80)]
            l += [dict(kind="lin", engine=k, mode="fault", seed=seed, shard=n, count=150, runs=40)]
        for n, k in enumerate(kinds(["none:auto", "none:fallback", "id:auto", "topic:fallback"])):
            l += huge(tier, seed + n, (("engine", "http", "client")[n % 3],), engine=k, restarts=False)
        l += lins(seed, 1, engine="mongo:none:mixed", mode="stress", count=60)
        return l
    for n, k in enumerate(kinds()):
        l += grids(seed + n, 4, 3000, engine=k)
        for lv in ("engine", "http", "client"):
            l += seqs(seed + n, 2, engine=k, level=lv, profile="mix", traces=200, steps=100, views=8)
        l += seqs(seed + 50 + n, 1, engine=k, level="engine", profile="chore", traces=200, steps=100, restarts=True)
        l += lins(seed, 8, engine=k, mode="aba", bound=2, count=1000)
        l += lins(seed, 4, engine=k, mode="pairs", bound=3, runs=1000)
        l += huge(tier, seed + n, ("engine", "client"), engine=k, restarts=False)
        l += lins(seed, 2, engine=k, mode="random", count=100, runs=200)
        l += lins(seed, 2, engine=k, mode="fault", count=3000, runs=40)
        l += lins(seed, 1, engine=k, mode="stress", count=500)
        l += lins(seed, 1, engine=k, mode="big", count=100, runs=30)
    return l


def core(prop, tier, seed):
    return (core_mem(prop, tier, seed) + core_mongo(prop, tier, seed)
            + huge(tier, seed, ("engine", "http")) + huge(tier, seed, ("engine",), engine="mongo", restarts=False)
            # long histories
            + seqs(seed + 80, 1, level="engine", profile=PROFILE[prop], traces=4 if tier == "quick" else 40, steps=800)
            + (nonces(tier, seed) if prop in ("C01", "C02") else []))


def nonces(tier, seed):
    """Many claims of several instances at once and after each other."""
    if tier == "quick":
        return [dict(kind="nonce", seed=seed, claims=6000)]
    return [dict(kind="nonce", seed=seed + i, claims=40000) for i in range(4)]


def focused(prop, tier, seed):
    """The requests that matter most to a property."""
    if FOCUS[prop] == "Chore":
        return []
    return [dict(kind="api", seed=seed, shard=i, shards=2, level=lv, stores=2 if tier == "quick" else 5, ops=FOCUS[prop])
            for lv in ("http", "client") for i in range(2)]


def core_mem(prop, tier, seed):
    p = PROFILE[prop]
    if tier == "quick":
        return ([dict(kind="mc", slots=4, maxtime=2)]
                + grids(seed, 8, 1500)
                + lins(seed, 8, 2, mode="pairs", bound=2, focus=FOCUS[prop])
                + lins(seed, 1, mode="random", count=30, runs=100, focus=FOCUS[prop])
                + lins(seed, 1, mode="big", count=40, runs=30, bound=1, focus=FOCUS[prop])
                + lins(seed, 12, 1, mode="aba", bound=1, count=50, focus=FOCUS[prop])
                + seqs(seed, 3, level="engine", profile=p, traces=60, steps=80, views=4)
                + seqs(seed + 1, 2, level="engine", profile="mix", traces=60, steps=80, views=4)
                + seqs(seed + 2, 1, level="http", profile=p, traces=60, steps=80, views=8)
                + seqs(seed + 3, 1, level="client", profile=p, traces=40, steps=80)
                + seqs(seed + 4, 1, level="engine", profile=p, traces=40, steps=80, restarts=True)
                + focused(prop, tier, seed))
    return (focused(prop, tier, seed) + [dict(kind="mc", slots=8, maxtime=3), dict(kind="mc", slots=8, maxtime=2, rich=True, timeout=3000),
             dict(kind="mc", slots=8, maxtime=2, engine="MongoMode"),
             dict(kind="mc", slots=8, maxtime=2, maxbatch=2, maxclaims=1)]
            + grids(seed, 8, 40000)
            + lins(seed, 8, mode="pairs", bound=3, runs=5000, focus=FOCUS[prop])
            + lins(seed, 8, mode="random", count=200, runs=300, focus=FOCUS[prop])
            + lins(seed, 4, mode="big", count=300, runs=100, bound=2, focus=FOCUS[prop])
            + lins(seed, 8, mode="aba", bound=2, count=1000, focus=FOCUS[prop])
            + seqs(seed, 8, level="engine", profile=p, traces=600, steps=100, views=4)
            + seqs(seed + 1, 8, level="engine", profile="mix", traces=400, steps=100, views=4)
            + seqs(seed + 2, 4, level="http", profile=p, traces=300, steps=100, views=8)
            + seqs(seed + 3, 4, level="client", profile=p, traces=150, steps=100)
            + seqs(seed + 4, 4, level="engine", profile=p, traces=150, steps=100, restarts=True))


API_VARIANTS = ["relative", "kept", "path", "partial", "wide"]


def requests(tier, seed, met=False):
    """The grid of requests."""
    def g(shards, n=None, **kw):
        return [dict(kind="api", seed=seed, shard=i, shards=shards, met=met, **kw) for i in range(n or shards)]
    if tier == "quick":
        return (g(8, level="http", stores=2 if met else 5) + g(2, level="client", stores=2 if met else 5)
                + g(2, level="http", engine="mongo", stores=1, share=0.1) + g(1, level="client", engine="mongo", stores=1, share=0.1))
    l = []
    for s in range(4):
        l += [dict(j, seed=seed + s) for j in g(8, level="http") + g(2, level="client")]
    for k in kinds(["none:auto", "none:fallback", "id:auto", "topic:auto"]):
        l += g(8, level="http", engine=k, stores=2) + g(2, level="client", engine=k, stores=2)
    return l


def api(prop, tier, seed):
    k = 1 if tier == "quick" else 8
    met = prop == "C19"
    tr = 20 if met else 60
    l = [dict(kind="mcapi", slots=2)] + requests(tier, seed, met)
    if tier != "quick":
        l += broken(API_VARIANTS, kind="mcapi", slots=2)
    for n, p in enumerate(["mix", "write", "claim", "commit", "read"]):
        l += seqs(seed + n, (2 if met else 1) * k, level="http", profile=p, traces=tr, steps=80, met=met)
        l += seqs(seed + n, (2 if met else 1) * k, level="client", profile=p, traces=tr * 2 // 3, steps=80, met=met)
    l += huge(tier, seed, ("http", "client"), met=met, restarts=False) + huge(tier, seed + 5, ("http",), engine="mongo", met=met, restarts=False)
    l += seqs(seed + 9, k, engine="mongo", level="http", profile="mix", traces=tr, steps=80, met=met)
    l += seqs(seed + 9, k, engine="mongo", level="client", profile="mix", traces=tr * 2 // 3, steps=80, met=met)
    return l


def concurrent(prop, tier, seed):
    if tier == "quick":
        return (commands(tier)
                + lins(seed, 8, mode="pairs", bound=2)
                + lins(seed, 4, mode="random", count=60, runs=150)
                + lins(seed, 2, mode="random", count=60, runs=150, fine=True)
                + lins(seed, 1, mode="random", count=40, runs=150, level="http")
                + lins(seed, 2, mode="pairs", bound=2, snap=True)
                + lins(seed, 1, mode="random", count=40, runs=150, snap=True)
                + lins(seed, 4, mode="big", count=60, runs=40, bound=1)
                + lins(seed, 1, mode="stress", count=1500)
                + lins(seed, 1, mode="stress", count=500, level="http")
                + lins(seed, 1, mode="stress", count=100, level="client")
                + lins(seed, 8, 2, mode="aba", bound=1, count=100)
                + lins(seed, 16, 2, engine="mongo:none:mixed", mode="aba", bound=1, count=50)
                + lins(seed, 20, 1, engine="mongo:none:auto", mode="pairs", bound=2)
                + lins(seed, 1, engine="mongo:none:fallback", mode="random", count=30, runs=100))
    return (commands(tier)
            + lins(seed, 8, mode="pairs", bound=4, runs=20000)
            + lins(seed, 8, mode="pairs", bound=3, runs=5000, fine=True)
            + lins(seed, 8, mode="pairs", bound=3, runs=5000, level="http")
            + lins(seed, 8, mode="random", count=400, runs=1000, bound=3)
            + lins(seed + 1, 8, mode="random", count=400, runs=300, fine=True)
            + lins(seed, 4, mode="pairs", bound=3, snap=True)
            + lins(seed, 4, mode="random", count=200, runs=500, snap=True)
            + lins(seed, 8, mode="big", count=300, runs=100, bound=2)
            + lins(seed, 8, mode="stress", count=20000)
            + lins(seed, 4, mode="stress", count=5000, level="http")
            + lins(seed, 4, mode="stress", count=1000, level="client")
            + lins(seed, 8, mode="aba", bound=3, count=2000)
            + lins(seed, 8, engine="mongo:none:mixed", mode="aba", bound=2, count=500)
            + lins(seed, 8, engine="mongo:none:auto", mode="pairs", bound=3)
            + lins(seed, 4, engine="mongo:topic:auto", mode="random", count=200, runs=200))


def subscribe(prop, tier, seed):
    if tier == "quick":
        return [dict(kind="mcsub", slots=4, n=2, polls=2, maxtime=3, end=2)] + [
            dict(kind="sub", seed=seed * 100 + i, traces=400) for i in range(8)]
    return [dict(kind="mcsub", slots=8, n=2, polls=3, maxtime=5, end=3, timeout=3000, mem="8g")] + [
        dict(kind="sub", seed=seed * 100 + i, traces=3000) for i in range(24)]


def snapshots(prop, tier, seed):
    if tier == "quick":
        return ([dict(kind="mcsnap", slots=2, chunks=2, intv=1, maxtime=2, ops=2, saves=2, opens=2)]
                + [dict(kind="snap", seed=seed * 100 + i, count=3, faults=12) for i in range(8)]
                + lins(seed, 2, mode="pairs", bound=2, snap=True)
                + lins(seed, 1, mode="random", count=40, runs=150, snap=True)
                + [dict(kind="e2e", mode="loop", seed=seed * 100 + 50 + i, count=3) for i in range(2)]
                + seqs(seed, 2, level="engine", profile="mix", traces=40, steps=80, restarts=True))
    return ([dict(kind="mcsnap", slots=8, chunks=2, intv=2, maxtime=3, ops=2, saves=3, opens=3, timeout=3000, mem="16g")]
            + broken(SNAPSHOT_VARIANTS, kind="mcsnap", slots=2, chunks=2, intv=1, maxtime=2, ops=2, saves=2, opens=2)
            + [dict(kind="snap", seed=seed * 100 + i, count=10, faults=60, timeout=3000) for i in range(24)]
            + lins(seed, 8, mode="pairs", bound=3, snap=True)
            + lins(seed, 8, mode="random", count=200, runs=500, snap=True)
            + [dict(kind="e2e", mode="loop", seed=seed * 100 + 50 + i, count=40, timeout=3000) for i in range(4)]
            + seqs(seed, 8, level="engine", profile="mix", traces=200, steps=100, restarts=True))


SNAPSHOT_VARIANTS = ["direct", "nosync", "early", "torn", "silent", "eager"]
SERVER_VARIANTS = ["nowait", "eager", "late", "giveup", "quit", "mute", "drop"]
LIVE_VARIANTS = ["forgetful", "hasty", "lossy", "picky"]


def broken(l, **kw):
    return [dict(variant=v, broken=True, **kw) for v in l]


def restarts(prop, tier, seed):
    """C13."""
    if tier == "quick":
        l = [dict(kind="mcserver", slots=2, n=2, fails=2)]
        l += [dict(kind="e2e", mode="stop", seed=seed * 100 + i, count=60) for i in range(6)]
        l += [dict(kind="e2e", mode="early", seed=seed, count=40),
              dict(kind="e2e", mode="patient", seed=seed, count=1, long="65s", slots=0)]
        for n, lv in enumerate(("engine", "engine", "http", "client")):
            l += seqs(seed + n, 1, level=lv, profile=("mix", "write", "claim", "commit")[n], traces=60, steps=80, restarts=True)
        return l
    l = [dict(kind="mcserver", slots=8, n=3, fails=3)] + broken(SERVER_VARIANTS, kind="mcserver", n=2, fails=2)
    l += [dict(kind="e2e", mode="stop", seed=seed * 100 + i, count=1000, timeout=3000) for i in range(16)]
    l += [dict(kind="e2e", mode="early", seed=seed * 100 + i, count=2000, timeout=3000) for i in range(8)]
    l += [dict(kind="e2e", mode="patient", seed=seed, count=2, long="320s", slots=0, timeout=3000)]
    for n, p in enumerate(list(dict.fromkeys(PROFILE.values()))):
        for lv in ("engine", "http", "client"):
            l += seqs(seed + n, 2, level=lv, profile=p, traces=200, steps=100, restarts=True)
    return l


def circulation(prop, tier, seed):
    """C18."""
    if tier == "quick":
        l = [dict(kind="live", slots=2), dict(kind="mcserver", slots=2, n=1, fails=2)]
        l += [dict(kind="e2e", mode="loop", seed=seed * 100 + i, count=5) for i in range(4)]
        l += [dict(kind="e2e", mode="halves", seed=seed * 100, count=6)]
        l += [dict(kind="e2e", mode="drain", seed=seed * 100 + i, count=8) for i in range(4)]
        for n, lv in enumerate(("engine", "http", "client")):
            for p in ("chore", "claim"):
                l += seqs(seed + n, 1, level=lv, profile=p, traces=50, steps=80)
        l += grids(seed, 8, 1500)[:4]
        l += seqs(seed + 3, 1, engine="mongo", level="engine", profile="chore", traces=50, steps=80)
        return l
    l = [dict(kind="live", slots=8, topics="xy"), dict(kind="live", slots=8, consumers="cd", timeout=3000, mem="12g"),
         dict(kind="live", slots=8, ids="abc", timeout=3000, mem="12g"), dict(kind="live", slots=4, again=3),
         dict(kind="mcserver", slots=8, n=3, fails=3)]
    l += broken(LIVE_VARIANTS, kind="live") + broken(SERVER_VARIANTS, kind="mcserver", n=2, fails=2)
    l += [dict(kind="e2e", mode="loop", seed=seed * 100 + i, count=60, timeout=3000) for i in range(8)]
    l += [dict(kind="e2e", mode="halves", seed=seed * 100 + i, count=60, timeout=3000) for i in range(4)]
    l += [dict(kind="e2e", mode="drain", seed=seed * 100 + i, count=80, timeout=3000) for i in range(12)]
    for n, lv in enumerate(("engine", "http", "client")):
        for p in ("chore", "claim", "mix"):
            l += seqs(seed + n, 2, level=lv, profile=p, traces=300, steps=100)
    l += grids(seed, 8, 20000)
    for k in kinds():
        l += seqs(seed + 3, 1, engine=k, level="engine", profile="chore", traces=200, steps=100)
    return l


def configurations(prop, tier, seed):
    """C20."""
    def c(part, shards, **kw):
        return [dict(kind="conf", part=part, seed=seed, shard=i, shards=shards, **kw) for i in range(shards)]
    if tier == "quick":
        return ([dict(kind="mcconf", steps=1)] + c("special", 4, slots=0) + c("refusing", 1) + c("mem", 12) + c("mempairs", 6, share=0.15) + c("mongo", 2)
                + c("mongopairs", 3))
    return ([dict(kind="mcconf", steps=2, slots=8, timeout=3000)] + broken(["envwins", "sticky"], kind="mcconf", steps=1) + c("special", 4) + c("refusing", 1)
            + c("mem", 12) + c("mempairs", 24, timeout=3000) + c("mongo", 4) + c("mongopairs", 8)
            + [dict(j, seed=seed + 1) for j in c("mem", 12) + c("mongo", 4) + c("mongopairs", 8)])


PLAN = {p: core for p in CORE}
PLAN.update(C14=api, C15=api, C19=api, C17=subscribe, C09=concurrent, C16=mongo, C12=snapshots, C13=restarts, C18=circulation, C20=configurations)


def jobs(prop, tier, seed):
    return PLAN[prop](prop, tier, seed)

ASSUMPTIONS = {"*": [
    "TLC 1.8.0 evaluates the specification faithfully",
    "the code reads the clock through time.Now, time.Since and time.Until only, which the harness replaces by a virtual clock",
]}

NOT_APPLICABLE = {}

LIN = "concurrent histories of the real code under a cooperative scheduler accepted or rejected by a linearization search in TLA+ (RatusLin)"
SEQ = "recorded steps of the real engine, HTTP API and Go client (exhaustive grid of single steps, seeded random histories) checked against the TLA+ specification RatusCore by TLC"
MC = "TLA+ design model checked exhaustively with TLC"

NOTES = {
    "*": (MC + " (Ratus.tla over RatusCore); " + SEQ + "; " + LIN,
          "The design model is exhaustive within small constants. The code is bound to it by checking every recorded call (answer, whole store, views); what is not exercised is not decided."),
    "C09": (LIN + "; every schedule of pairs of requests within a preemption bound, seeded random ones beyond",
            "Schedules are exhaustive for pairs of requests within the preemption bound, sampled otherwise. The preemption points are the lock, transaction and database-command boundaries of the code."),
    "C12": (MC + " (MCSnapshot over Snapshot.tla); crashes and I/O errors injected at every file operation of the real save by a system-call shim, the resulting trace checked by TLC (SnapshotTrace)",
            "Every file operation of a save is a crash point and a fault point; the page cache is modelled (unsynced data may be lost). Contents and histories are sampled."),
    "C13": (MC + " (MCServer over Server.tla, with liveness); the real server process is stopped at seeded moments with requests in progress and its observations checked by TLC (ServerTrace, RatusTrace, RatusLin)",
            "Safety and liveness of the design are exhaustive within small constants; the moments of real stops are sampled."),
    "C16": (MC + " (Ratus.tla in MongoMode); the real engine and driver against an emulated MongoDB, " + SEQ + "; " + LIN,
            "MongoDB is emulated (no server is available here): its command semantics are an assumption. Deployment modes are all covered; histories and schedules are sampled beyond the bounds."),
    "C17": (MC + " (MCSubscribe over Subscribe.tla); seeded executions of the real client under a simulated clock checked by TLC (SubscribeTrace)",
            "Exhaustive on the design within small constants; executions of the code are sampled over answers, handlers, times and cancellations."),
    "C18": (MC + " with liveness under fairness (RatusLive, MCServer); " + SEQ + "; the real server process with failing background jobs and crashing consumers observed end to end and checked by TLC (ServerTrace, RatusLin)",
            "Liveness is proved on the design within small constants; on the code it is checked as bounded response (a run within so many intervals, a drained store)."),
}
NOTES["C20"] = (MC + " (MCConfig over Config.tla); configurations enumerated from the specification (each option by flag, by variable and by both, pairs of options), run by the real program, its observations checked by TLC (ConfigTrace)",
                "Every option is covered with each of its settings; configurations differ from two usual ones in at most two options. The address of MongoDB is always given, and the pauses of jobs are bounded generously.")
for p in ("C14", "C15", "C19"):
    NOTES[p] = ("TLA+ specification of normalization, statuses and counters (RatusApi, RatusTrace); raw and client requests of seeded histories through the real router, middleware, controller and Go client checked against it by TLC",
                "Every recorded request is checked on answer, store, counters and views; the combinations of present, absent, valid and invalid fields are sampled.")
