"""Snapshots under strace: from system calls to traces for SnapshotTrace.tla."""
import base64, json, os, re, shutil
from lib import *

CALLS = ("open,openat,openat2,creat,write,pwrite64,writev,pwritev,pwritev2,fsync,fdatasync,sync,syncfs,sync_file_range,close,rename,renameat,"
         "renameat2,unlink,unlinkat,link,linkat,symlink,symlinkat,ftruncate,truncate,lseek,copy_file_range,sendfile,splice,dup,dup2,dup3,fcntl,"
         "fallocate,mmap,read,pread64")
LINE = re.compile(r"^(\d+) +(.*)$")
CALL = re.compile(r"^(\w+)\((.*)\) += (-?\d+|\?|0x[0-9a-f]+)(?:<[^>]*>)?(.*)$", re.S)


def unhex(s):
    return bytes.fromhex(s.replace("\\x", ""))


def arguments(s):
    """Splits the arguments of a call; strings become bytes, file descriptors numbers with their path."""
    args, depth, cur, q = [], 0, "", False
    for c in s:
        if c == '"':
            q = not q
        if not q:
            if c in "[{<(":
                depth += 1
            elif c in "]}>)":
                depth -= 1
            elif c == "," and depth == 0:
                args.append(cur.strip())
                cur = ""
                continue
        cur += c
    if cur.strip():
        args.append(cur.strip())
    return args


def calls(path):
    """The completed system calls of all threads, in the order of their completion."""
    started = {}
    with open(path, encoding="latin1") as f:
        for line in f:
            m = LINE.match(line.rstrip("\n"))
            if not m:
                continue
            pid, t = m.groups()
            if t.endswith("<unfinished ...>"):
                started[pid] = t[:-len("<unfinished ...>")]
                continue
            r = re.match(r"<\.\.\. \w+ resumed>(.*)$", t)
            if r:
                t = started.pop(pid, "") + r.group(1)
            c = CALL.match(t)
            if c:
                yield pid, c.group(1), arguments(c.group(2)), int(c.group(3), 0) if c.group(3) != "?" else None, c.group(4)


class FS:
    """Follows file descriptors and contents of the files in a directory."""

    def __init__(self, data, marker):
        self.data, self.marker = data, marker
        self.names, self.content, self.fds, self.n = {}, {}, {}, 0
        self.events, self.contents, self.cids = [], [b""], {b"": 0}
        self.dirs, self.seen = [], set()
        self.ordinal, self.points = {}, []

    def cid(self, b):
        if b not in self.cids:
            self.cids[b] = len(self.contents)
            self.contents.append(b)
        return self.cids[b]

    def emit(self, **e):
        self.events.append(e)

    def snap(self):
        """Note the directory as a crash right now would leave it."""
        d = {n: self.content[i] for n, i in self.names.items() if "/" not in n}
        key = tuple(sorted(d.items()))
        if key not in self.seen:
            self.seen.add(key)
            self.dirs.append(d)
            self.emit(t="dir", n=len(self.dirs) - 1)

    def path(self, at, s):
        p = unhex(s.strip('"')).decode("utf-8", "surrogateescape")
        if not p.startswith("/"):
            m = re.search(r"<(.*)>", at)
            base = unhex(m.group(1)).decode("utf-8", "surrogateescape") if m else ""
            p = os.path.join(base, p)
        return os.path.normpath(p)

    def local(self, p):
        if p.startswith(self.data + "/"):
            return p[len(self.data) + 1:]
        return p if p in self.names else None

    def put(self, i, b):
        self.content[i] = b
        self.emit(t="write", i=i, c=self.cid(b))
        self.snap()

    def call(self, pid, name, a, ret, rest):
        k = (pid, name)
        self.ordinal[k] = self.ordinal.get(k, 0) + 1
        injected = "(INJECTED)" in rest
        mine = self.apply(name, a, ret, rest)
        if mine:
            self.points.append((name, self.ordinal[k]))
            if ret is not None and ret < 0 and injected:
                self.emit(t="fault", call=name)
        return mine

    def fd(self, s):
        return int(re.match(r"-?\d+", s).group(0))

    def apply(self, name, a, ret, rest):
        ok = ret is not None and ret >= 0
        if name in ("open", "openat", "openat2", "creat"):
            if name in ("open", "creat"):
                p, flags = self.path("", a[0]), a[1] if name == "open" else "O_WRONLY|O_CREAT|O_TRUNC"
            else:
                p, flags = self.path(a[0], a[1]), a[2]
            if p == self.data and ok:
                self.fds[ret] = {"dir": True}
                return True
            n = self.local(p)
            if n is None and "O_CREAT" in flags and p != self.marker and not p.startswith(("/dev/", "/proc/")):
                n = p  # it may be moved into the directory later on
            if n is None:
                if ok:
                    self.fds.pop(ret, None)
                return False
            if ok:
                if n not in self.names:
                    if "O_CREAT" not in flags:
                        raise Infra("snap: opened unknown file " + n)
                    self.n += 1
                    self.names[n] = self.n
                    self.content[self.n] = b""
                    self.emit(t="create", f=n, i=self.n)
                    self.snap()
                elif "O_TRUNC" in flags and self.content[self.names[n]]:
                    self.put(self.names[n], b"")
                self.fds[ret] = {"i": self.names[n], "off": 0, "append": "O_APPEND" in flags, "sync": "O_SYNC" in flags or "O_DSYNC" in flags}
            return True
        if name in ("rename", "renameat", "renameat2", "link", "linkat"):
            at = name not in ("rename", "link")
            p, q = (self.path(a[0], a[1]), self.path(a[2], a[3])) if at else (self.path("", a[0]), self.path("", a[1]))
            x, y = self.local(p), self.local(q)
            if x is None and y is None:
                return False
            if ok:
                if x is None:
                    raise Infra("snap: an unknown file was moved into the directory: %s %s" % (p, q))
                if y is None:
                    y = q
                self.names[y] = self.names[x]
                if name.startswith("rename"):
                    if x != y:
                        del self.names[x]
                    self.emit(t="rename", f=x, to=y)
                else:
                    self.emit(t="link", f=x, to=y)
                self.snap()
            return True
        if name in ("unlink", "unlinkat"):
            n = self.local(self.path(a[0], a[1]) if name == "unlinkat" else self.path("", a[0]))
            if n is None:
                return False
            if ok and n in self.names:
                del self.names[n]
                self.emit(t="unlink", f=n)
                self.snap()
            return True
        if name in ("symlink", "symlinkat"):
            return False
        if name == "truncate":
            n = self.local(self.path("", a[0]))
            if n is None:
                return False
            if ok:
                i, size = self.names[n], int(a[1])
                self.put(i, self.content[i][:size].ljust(size, b"\0"))
            return True
        if name in ("sync", "syncfs"):
            if ok:
                for i in set(self.names.values()):
                    self.emit(t="sync", i=i)
                self.emit(t="syncdir")
            return False
        if name == "mmap":
            if ok and "MAP_SHARED" in a[3] and "PROT_WRITE" in a[2] and self.fds.get(self.fd(a[4])):
                raise Infra("snap: a file was mapped for writing")
            return False
        if name == "copy_file_range":
            if self.fds.get(self.fd(a[2])) or self.fds.get(self.fd(a[0])):
                raise Infra("snap: copy_file_range is not supported")
            return False
        if name in ("sendfile", "splice"):
            if self.fds.get(self.fd(a[0])) or self.fds.get(self.fd(a[2 if name == "splice" else 1])):
                raise Infra("snap: %s is not supported" % name)
            return False
        # calls on a descriptor
        if not a or not re.match(r"-?\d+", a[0]):
            return False
        fd = self.fd(a[0])
        f = self.fds.get(fd)
        if f is None:
            return False
        if name == "close":
            if ok:
                del self.fds[fd]
            return True
        if name in ("dup", "dup2", "dup3") or name == "fcntl" and "F_DUPFD" in a[1]:
            if ok:
                self.fds[ret] = f
            return False
        if f.get("dir"):
            if name in ("fsync", "fdatasync") and ok:
                self.emit(t="syncdir")
            return True
        i = f["i"]
        if name in ("fsync", "fdatasync"):
            if ok:
                self.emit(t="sync", i=i)
            return True
        if name == "lseek":
            if ok:
                f["off"] = ret
            return False
        if name == "ftruncate":
            if ok:
                size = int(a[1])
                self.put(i, self.content[i][:size].ljust(size, b"\0"))
            return True
        if name in ("read", "pread64"):
            if name == "read" and ok:
                f["off"] += ret
            return True
        if name == "fallocate":
            return True
        if name in ("write", "pwrite64", "writev", "pwritev", "pwritev2"):
            if ok and ret > 0:
                if name in ("write", "pwrite64"):
                    b = unhex(a[1].strip('"').rstrip("."))
                else:
                    b = b"".join(unhex(x) for x in re.findall(r'iov_base="((?:\\x[0-9a-f]{2})*)"', a[1]))
                if len(b) < ret:
                    raise Infra("snap: strace cut a write")
                b = b[:ret]
                old = self.content[i]
                if name in ("write", "writev"):
                    off = len(old) if f["append"] else f["off"]
                    f["off"] = off + ret
                else:
                    off = int(a[3])
                self.put(i, old[:off].ljust(off, b"\0") + b + old[off + ret:])
                if f["sync"]:
                    self.emit(t="sync", i=i)
            return True
        return False


def record(ctx, h, d, seed, steps, env, data, inject=None):
    """Runs one scenario; returns its events and what is needed to decode them."""
    st = os.path.join(d, "strace")
    cmd = ["strace", "-f", "-y", "-xx", "-s", "1000000", "-e", "signal=none", "-e", "trace=" + CALLS, "-o", st]
    if inject:
        cmd += ["-e", "inject=" + inject]
    cmd += [h, "snap", "-seed", str(seed), "-steps", str(steps), "-dir", d, "-data", data] + (["-env"] if env else [])
    p = run(cmd, 120, cwd=d)
    marker = os.path.join(d, "marker")
    fs = FS(os.path.normpath(data), marker)
    images = []
    begin, died = None, p.returncode != 0
    for pid, name, a, ret, rest in calls(st):
        if name == "pwrite64" and ret is not None and ret > 0:
            m = re.search(r"<([^>]*)>", a[0])
            if m and unhex(m.group(1)).decode("utf-8", "surrogateescape") == marker:
                e = json.loads(unhex(a[1].strip('"')))
                if e["t"] == "image":
                    images.append(e["s"])
                elif e["t"] == "begin":
                    begin = e
                    fs.points = []
                else:
                    fs.events.append(e)
                continue
        fs.call(pid, name, a, ret, rest)
    return dict(p=p, fs=fs, begin=begin, images=images, died=died)


def decode(ctx, h, d, r):
    """What the engine makes of every content and every directory a crash may leave."""
    fs, b = r["fs"], r["begin"]
    cases = [{b["main"]: c} for c in fs.contents] + fs.dirs
    src, out = os.path.join(d, "cases.json"), os.path.join(d, "decoded.json")
    with open(src, "w") as f:
        for c in cases:
            f.write(json.dumps({"files": {n: base64.b64encode(x).decode() for n, x in c.items()}, "main": b["main"], "interval": b["intvns"],
                                "retention": b["retention"], "unix": b["unix"]}) + "\n")
    p = run([h, "snap", "-load", src, "-out", out, "-dir", d], 300, cwd=d)
    if p.returncode:
        raise Infra("snap -load: " + p.stderr[-2000:])
    l = [json.loads(x) for x in open(out)]
    if len(l) != len(cases):
        raise Infra("snap -load: %d of %d" % (len(l), len(cases)))
    num = {}
    for n, s in enumerate(r["images"]):
        num.setdefault(s, n + 1)

    def image(x):
        if not x["ok"]:
            return -1
        return num.setdefault(x["image"], 1000 + len(num))
    dec = [image(x) for x in l[:len(fs.contents)]]
    return dec, l[len(fs.contents):], num


def trace(ctx, h, d, r, seed):
    """The lines of the trace."""
    dec, dirs, num = decode(ctx, h, d, r)
    b = r["begin"]
    l = [{"t": "reset", "main": b["main"], "intv": b["intv"], "now": b["now"], "dec": dec, "empty": num.get("[]", 1), "seed": seed}]
    ev = r["fs"].events
    for n, e in enumerate(ev):
        if e["t"] == "dir":
            x = dirs[e["n"]]
            if x["ok"] and x["cont"]:
                l.append({"t": "continue", "ok": False, "note": x["cont"]})
            continue
        l.append(e)
        if e["t"] == "chore0":
            # The changes of the background jobs are announced after the fact.
            for f in ev[n + 1:]:
                if f["t"] in ("chore1", "kill", "open0", "close0"):
                    if f["t"] == "chore1":
                        l.append({"t": "op", "img": f["img"]})
                    break
    for e in l:
        if "call" in e:
            e["note"] = e.pop("call")
    return l, len(dirs)


def faults(points, r, n):
    """A selection of faults at the file operations of a scenario."""
    errs = {"write": ["ENOSPC", "EIO"], "pwrite64": ["ENOSPC"], "writev": ["ENOSPC"], "fsync": ["EIO"], "fdatasync": ["EIO"], "close": ["EIO"],
            "openat": ["EMFILE", "EACCES"], "open": ["EMFILE"], "creat": ["EMFILE"], "rename": ["EIO"], "renameat": ["EACCES", "EIO"],
            "renameat2": ["EIO"], "unlink": ["EIO"], "unlinkat": ["EIO"], "ftruncate": ["EIO"], "read": ["EIO"], "pread64": ["EIO"]}
    l = {}
    for name, k in points:
        for e in errs.get(name, []):
            for when in ("%d", "%d..%d"):
                l.setdefault(name, []).append("%s:error=%s:when=%s" % (name, e, when % ((k,) if when == "%d" else (k, k + 1))))
    out = []
    # round robin over the kinds of operations
    for v in l.values():
        r.shuffle(v)
    while len(out) < n and any(l.values()):
        for name in sorted(l):
            if l[name]:
                out.append(l[name].pop())
    return out[:n]
