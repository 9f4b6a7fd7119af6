"""Building the harness, running jobs and TLC, collecting what they say."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
MOD = "github.com/hyperonym/ratus"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Infra(Exception):
    """The check itself could not be carried out."""


def go_env(version="1.23.12"):
    e = dict(os.environ)
    root = "/opt/veriftools/go" + version
    if not os.path.isdir(root):
        raise Infra("no Go toolchain at " + root)
    e.update(PATH=root + "/bin:/usr/local/bin:/usr/bin:/bin", GOROOT=root, GOPATH="/root/go",
             GOMODCACHE="/root/go/pkg/mod", GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"),
             GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", CGO_ENABLED="0")
    return e


def run(cmd, timeout, cwd=None, env=None, stdin=None):
    try:
        return subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, stdin=stdin,
                              stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    except subprocess.TimeoutExpired as x:
        def s(b):
            return (b or b"").decode(errors="replace") if not isinstance(b, str) else b
        return subprocess.CompletedProcess(cmd, 124, s(x.stdout), s(x.stderr))


class Ctx:
    """One run of a check: scratch directory, built programs, CPU slots."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.scratch = tempfile.mkdtemp(prefix="ratus-verif-")
        self.cores = max(2, min(8, os.cpu_count() or 2))
        self.sem = threading.Semaphore(self.cores)
        self.biglock = threading.Lock()
        self.build_locks = {}
        self.built = {}
        self.lock = threading.Lock()
        self.counts = {"states": 0, "transitions": 0, "traces": 0, "steps": 0}
        self.samples, self.notes = [], []
        self.n = 0

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def dir(self, name):
        with self.lock:
            self.n += 1
            d = os.path.join(self.scratch, "%03d-%s" % (self.n, re.sub(r"[^A-Za-z0-9_.-]", "_", name)))
        os.makedirs(d)
        return d

    def count(self, **kw):
        with self.lock:
            for k, v in kw.items():
                self.counts[k] = self.counts.get(k, 0) + v

    def sample(self, s):
        with self.lock:
            if len(self.samples) < 12:
                self.samples.append(s)

    def once(self, key, f):
        with self.lock:
            l = self.build_locks.setdefault(key, threading.Lock())
        with l:
            if key not in self.built:
                try:
                    self.built[key] = (f(), None)
                except Infra as e:
                    self.built[key] = (None, e)
            v, e = self.built[key]
            if e:
                raise e
            return v

    # --- programs -----------------------------------------------------------

    def overlay(self):
        """The overlay that puts the harness into the tree and the clock under its control."""
        def f():
            env = go_env()
            d = self.dir("overlay")
            rw = os.path.join(d, "rewrite")
            p = run(["go", "build", "-o", rw, "."], 300, cwd=VERIF + "/harness/rewrite", env=env)
            if p.returncode:
                raise Infra("cannot build the rewriter:\n" + p.stderr)
            ov = os.path.join(d, "overlay.json")
            os.makedirs(os.path.join(d, "src"))
            add = ",".join("internal/zzverif/%s=%s/harness/%s" % (n, VERIF, n) for n in ("vtime", "vsync", "h", "fakemongo")
                           if os.path.isdir(VERIF + "/harness/" + n))
            p = run([rw, "-out", os.path.join(d, "src"), "-repo", REPO, "-clock", MOD + "/internal/zzverif/vtime",
                     "-add", add, "-overlay", ov], 120, cwd=REPO, env=env)
            if p.returncode:
                raise Infra("cannot rewrite the sources:\n" + p.stdout + p.stderr)
            return ov
        return self.once("overlay", f)

    def modfile(self):
        """A go.mod that replaces go-memdb by a copy with scheduling points."""
        def f():
            env = go_env()
            p = run(["go", "list", "-m", "-f", "{{.Dir}}", "github.com/hashicorp/go-memdb"], 120, cwd=REPO, env=env)
            src = p.stdout.strip()
            if p.returncode or not os.path.isdir(src):
                raise Infra("cannot find go-memdb: " + p.stderr)
            d = os.path.join(self.scratch, "go-memdb")
            os.makedirs(d)
            for n in os.listdir(src):
                if n == "go.mod" or n.endswith(".go") and not n.endswith("_test.go"):
                    t = open(os.path.join(src, n), encoding="utf-8").read()
                    open(os.path.join(d, n), "w", encoding="utf-8").write(instrument(n, t))
            mod = os.path.join(self.scratch, "verif.mod")
            shutil.copy(REPO + "/go.sum", os.path.join(self.scratch, "verif.sum"))
            open(mod, "w").write(open(REPO + "/go.mod").read() + "\nreplace github.com/hashicorp/go-memdb => " + d + "\n")
            return mod
        return self.once("modfile", f)

    def harness(self):
        def f():
            out = os.path.join(self.scratch, "h")
            p = run(["go", "build", "-overlay", self.overlay(), "-modfile", self.modfile(), "-o", out, "./internal/zzverif/h"],
                    800, cwd=REPO, env=go_env())
            if p.returncode:
                raise Infra("cannot build the harness:\n" + p.stdout + p.stderr)
            return out
        return self.once("h", f)

    def server(self):
        """The server program itself, on the clock it shares with the harness."""
        def f():
            out = os.path.join(self.scratch, "server")
            p = run(["go", "build", "-overlay", self.overlay(), "-modfile", self.modfile(), "-o", out, "./cmd/ratus"],
                    800, cwd=REPO, env=go_env())
            if p.returncode:
                raise Infra("cannot build the server:\n" + p.stdout + p.stderr)
            return out
        return self.once("server", f)

    def subtest(self):
        """The driver of subscriptions; synctest needs Go 1.25."""
        def f():
            env = go_env("1.25.14")
            ov = os.path.join(self.scratch, "sub-overlay.json")
            json.dump({"Replace": {REPO + "/zz_sub_test.go": VERIF + "/harness/sub/zz_sub_test.go"}}, open(ov, "w"))
            out = os.path.join(self.scratch, "subtest")
            p = run(["go", "test", "-c", "-vet=off", "-overlay", ov, "-o", out, "."], 800, cwd=REPO, env=env)
            if p.returncode:
                raise Infra("cannot build the subscription driver:\n" + p.stdout + p.stderr)
            return out
        return self.once("sub", f)

    # --- TLC ----------------------------------------------------------------

    def tlc(self, module, cfg, timeout, workers=1, env=None, mem="3g", extra=(), spec=None, props=()):
        """Runs TLC; returns its output and exit code."""
        d = self.dir("tlc-" + module)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        if "\n" in cfg:
            path = os.path.join(d, module + ".cfg")
            open(path, "w").write(cfg)
            cfg = path
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=4",
               "-Xss64m", "-Xmx" + mem, *props, "-cp", JARS, "tlc2.TLC", "-metadir", d, "-workers", str(workers),
               "-noGenerateSpecTE", *extra, "-config", cfg, module + ".tla"]
        p = run(cmd, timeout, cwd=spec or VERIF + "/spec", env=e)
        shutil.rmtree(d, ignore_errors=True)
        return p.stdout + p.stderr, p.returncode


POINTS = {
    "memdb.go": [
        ("func (db *MemDB) Txn(write bool) *Txn {\n", """
	if write {
		point("lock", &db.writer)
	} else {
		point("read", db)
	}
"""),
        ("func (db *MemDB) Snapshot() *MemDB {\n", '\tpoint("read", db)\n'),
    ],
    "txn.go": [
        ("	// Commit each sub-transaction scoped to (table, index)\n", '\tpoint("publish", txn.db)\n'),
        ("	txn.db.writer.Unlock()\n", '\tpoint("unlock", &txn.db.writer)\n'),
    ] + [("func (txn *Txn) %s(" % n, '\tpoint("op", txn.db)\n') for n in ("Insert", "Delete", "getIndexValue", "getIndexIterator")],
}


def instrument(name, text):
    """Adds scheduling points to a source file of go-memdb."""
    for anchor, code in POINTS.get(name, []):
        if anchor not in text:
            raise Infra("go-memdb has changed: no %r" % anchor)
        if anchor.endswith("("):
            i = text.index("{\n", text.index(anchor)) + 2
            text = text[:i] + code + text[i:]
        else:
            text = text.replace(anchor, anchor + code)
    if name == "memdb.go":
        text += """
// VerifHook is told about what a transaction is about to do. It may block.
var VerifHook func(kind string, key interface{})

func point(kind string, key interface{}) {
	if h := VerifHook; h != nil {
		h(kind, key)
	}
}
"""
    return text


def tlc_counts(out):
    m = re.findall(r"([\d,]+) states generated.*?, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    a, b = m[-1]
    return int(b.replace(",", "")), int(a.replace(",", ""))


def unquote(line):
    """TLC prints strings quoted."""
    line = line.strip()
    if line.startswith('"') and line.endswith('"'):
        try:
            return json.loads(line)
        except ValueError:
            return line[1:-1].replace('\\"', '"')
    return line


def parse_check(out, want):
    """Mismatches of a trace check; raises if the check was not carried through."""
    bad, done = [], None
    for line in out.splitlines():
        s = unquote(line)
        if s.startswith("MISMATCH "):
            try:
                bad.append(json.loads(s[9:]))
            except ValueError:
                raise Infra("cannot read " + s)
        elif s.startswith("CHECKED "):
            m = re.match(r"CHECKED (\d+) OF (\d+)", s)
            done = (int(m.group(1)), int(m.group(2)))
    if done is None or done[0] != done[1] or done[1] != want:
        raise Infra("trace check did not finish: %s of %d\n%s" % (done, want, out[-3000:]))
    return bad


class Finding:
    def __init__(self, props, what, job, detail):
        self.props, self.what, self.job, self.detail = set(props), what, job, detail


def read_lines(path):
    with open(path, encoding="utf-8") as f:
        return f.readlines()


def crash_finding(p, job):
    """The harness died: is it the code under test that took it down?"""
    err = p.stderr or ""
    if p.returncode == 3 and "sut:" in err:
        return Finding(job["props"], "the code under test failed outside of a recorded call: " + err.strip()[-400:], job, {"stderr": err[-4000:]})
    if p.returncode == 2 and ("panic:" in err or "fatal error:" in err):
        frames = [l for l in err.splitlines() if MOD in l and "zzverif" not in l and "main." not in l]
        if frames or "fatal error: all goroutines are asleep" in err:
            return Finding(job["props"], "the code under test crashed: " + err.strip().splitlines()[0][:300], job, {"stderr": err[-6000:]})
    return None


def check_trace(ctx, job, path, module="RatusTrace", cfg="RatusTrace.cfg", timeout=800, env=None):
    """Checks a recorded trace against the specification."""
    n = sum(1 for _ in open(path, "rb"))
    if n == 0:
        return []
    e = {"TRACE": path}
    e.update(env or {})
    mem = "%dm" % min(6000, 1200 + os.path.getsize(path) // 20000)
    out, rc = ctx.tlc(module, cfg, timeout, env=e, mem=mem)
    bad = parse_check(out, n)
    resets, steps = 0, 0
    lines = None
    s, t = tlc_counts(out)
    first = None
    with open(path, encoding="utf-8") as f:
        for line in f:
            if '"t":"hist"' in line:
                resets += 1
                steps += line.count('"t0":')
                if resets == 7 or first is None:
                    first = line
            elif line.startswith('{"cfg"') or '"t":"reset"' in line:
                resets += 1
            else:
                steps += 1
                if steps == 7:
                    first = line
    ctx.count(traces=resets, steps=steps)
    if first:
        ctx.sample({"job": {k: v for k, v in job.items() if k != "props"}, "step": json.loads(first)})
    res = []
    if bad:
        lines = read_lines(path)
    for b in bad[:60]:
        ln = b["line"]
        start = ln - 1
        while start > 0 and '"t":"reset"' not in lines[start] and '"t":"hist"' not in lines[start]:
            start -= 1
        prefix = [json.loads(x) for x in lines[start:ln]]
        what = "%s: %s (expected %s, got %s)" % (b["op"], ", ".join(map(str, b["what"]))[:200], b["expcode"], b["gotcode"])
        res.append(Finding(b["props"], what, job, {"mismatch": b, "trace": prefix[-80:]}))
    return res
