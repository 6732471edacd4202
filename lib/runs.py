"""Histories of real runs of the tool on one dump file: runs are stopped, killed
and made to fail at chosen operations; what a user sees of them is recorded."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import threading
import time

import obs as O
from harness import ENV, HANG, Error
from scen import Request, ending, kind

TIMEOUT = 60
_lock = threading.Lock()
COMMANDS = {
    "objects": ["objects"], "objects-size": ["objects", "--sort-by", "size"], "objects-html": ["objects", "--output", "html"],
    "summary": ["summary"], "summary-all": ["summary", "--all-props"], "summary-html": ["summary", "--output", "html", "--all-props"],
    "threads": ["threads"], "threads-locals": ["threads", "--local-vars"], "threads-html": ["threads", "--output", "html", "--local-vars"],
    "objects-color": ["objects"], "summary-color": ["summary"], "threads-color": ["threads", "--local-vars"],
}
# asked for something there is not, so there is no report
BAD_COMMANDS = {"bad-output": ["objects", "--output", "xml"], "bad-output2": ["threads", "--output", "PLAIN"], "bad-sort": ["objects", "--sort-by", "name"],
                "bad-flag": ["summary", "--all"], "bad-bool": ["threads", "--local-vars=perhaps"]}
# the same report is due as of the command after the dash: progress is shown, or the path of the dump is relative
LIKE = {"%s-%s" % (how, c): c for c in ("objects", "summary-all", "threads-locals", "threads-html") for how in ("live", "rel")}
PLACES = ("absent", "dir", "blocked")  # in place of a dump: nothing, a directory; the index cannot be there
PROGRESS = re.compile(rb"[A-Za-z ]*: [0-9.]+% \[[^\]]*\]|\x1b\[2K|\r")


def argv(ctx, path, cmd):
    live = cmd.startswith("live-")
    if cmd.startswith("rel-"):
        path = os.path.basename(path)
    cmd = cmd.removeprefix("live-").removeprefix("rel-")
    a = COMMANDS.get(cmd) or BAD_COMMANDS[cmd]
    return [ctx.cli, a[0], "--hprof", path] + ([] if live else ["--non-interactive"]) + ([] if cmd.endswith("color") else ["--no-color"]) + a[1:]


def compile_tracer(ctx):
    with _lock:
        if getattr(ctx, "tracer", None):
            return
        src = os.path.join(os.path.dirname(os.path.abspath(__file__)), "tracer.c")
        p = subprocess.run(["gcc", "-O1", "-o", os.path.join(ctx.tmp, "tracer"), src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise Error("tracer: " + p.stdout.decode())
        ctx.tracer = os.path.join(ctx.tmp, "tracer")


def threads_of(pid):
    """what the threads of a run that hangs wait for"""
    res = []
    try:
        kids = open("/proc/%d/task/%d/children" % (pid, pid)).read().split()
        for p in [str(pid)] + kids:
            for t in os.listdir("/proc/%s/task" % p):
                res.append((t, open("/proc/%s/task/%s/stat" % (p, t)).read().split()[2], open("/proc/%s/task/%s/syscall" % (p, t)).read().split()[:2]))
    except OSError as e:
        res.append(str(e))
    return res


class Run:
    """one run of the tool under the tracer"""

    def __init__(self, ctx, arena, n, cmd, plan="none", traced=True, full=False):
        self.n, self.arena, self.cmd = n, arena, cmd
        self.log = os.path.join(arena.meta, "log%d" % n)
        self.outf = open(os.path.join(arena.meta, "out%d" % n), "w+b")
        self.errf = open(os.path.join(arena.meta, "err%d" % n), "w+b")
        args = argv(ctx, arena.dump, cmd)
        env = dict(ENV, TMPDIR=arena.tmp, TRACED_DUMP=arena.dump)
        cwd = arena.dir if cmd.startswith("rel-") else arena.cwd
        self.notify = None
        if traced:
            r, w = os.pipe()
            os.set_inheritable(w, True)
            self.notify = os.fdopen(r, "rb", buffering=0)
            args = [ctx.tracer, self.log, arena.dir, str(w), plan] + args
            self.p = subprocess.Popen(args, stdin=subprocess.PIPE, stdout=self.outf, stderr=self.errf, cwd=cwd, env=env, pass_fds=[w])
            os.close(w)
        else:
            self.p = subprocess.Popen(args, stdin=subprocess.DEVNULL, stdout=open("/dev/full", "wb") if full else self.outf, stderr=self.errf, cwd=cwd, env=env)
        self.hang = False
        self.stopped = 0
        self.timer = threading.Timer(TIMEOUT, self.timeout)
        self.timer.start()

    def timeout(self):
        self.hang = True
        self.where = repr((self.p.poll(), self.stopped, self.ops()[-3:], threads_of(self.p.pid)))
        self.p.kill()

    def wait_stop(self):
        """waits until the run stops at an operation (its number) or ends (0)"""
        line = b""
        while not line.endswith(b"\n"):
            c = self.notify.read(1)
            if not c:
                self.stopped = 0
                return 0
            line += c
        self.stopped = int(line.split()[1])
        return self.stopped

    def tell(self, what):
        try:
            self.p.stdin.write(what.encode() + b"\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            pass

    def ops(self):
        """[(operation, path)] of the run so far"""
        try:
            return [tuple(x.split(" ", 2)[1:]) for x in open(self.log, errors="replace").read().split("\n") if x and not x.startswith("0 ")]
        except FileNotFoundError:
            return []

    def op(self, n):
        o = self.ops()
        if not 0 < n <= len(o):
            return None
        return "stdout" if o[n - 1][1] == "(stdout)" else o[n - 1][0]

    def finish(self):
        self.p.wait()
        self.timer.cancel()
        if self.notify:
            self.notify.close()
            try:
                self.p.stdin.close()
            except BrokenPipeError:
                pass
        self.outf.seek(0)
        self.errf.seek(0)
        self.out, self.err = self.outf.read(), self.errf.read()
        self.outf.close()
        self.errf.close()
        self.rc = HANG if self.hang else self.p.returncode
        if self.rc < 0:
            self.rc = 128 - self.rc


def digest(out):
    return hashlib.sha256(out).hexdigest()[:16]


class Arena:
    """a directory with a dump, other files, and what a run could touch"""

    def __init__(self, base):
        self.meta = base + "/meta"
        self.dir = base + "/here"
        self.tmp, self.cwd = base + "/tmp", base + "/cwd"
        for d in (self.meta, self.dir, self.tmp, self.cwd, self.dir + "/other.db", self.dir + "/tmp1"):
            os.makedirs(d)
        self.dump = self.dir + "/a dump.hprof"
        self.index = self.dump + ".db"
        for f in ("other.hprof", "other.db/source.txt", "other.db/meta.bin", "a dump.hprof.txt", "tmp1/x", "small-records.bin", "source.txt"):
            with open(self.dir + "/" + f, "w") as o:
                o.write("not yours\n")
        self.clock = 1_600_000_000_000_000_000
        self.times = {}  # (length, time) -> digest of the dump that had them, last one last; None: of none any more

    def spoil(self):
        """the dump is being changed in place while it is read"""
        st = os.stat(self.dump)
        self.times[st.st_size, st.st_mtime_ns] = None

    def place(self, data, how, rnd):
        """puts another dump in place; back: the time it had before, too, same: the time of the one
        before it, which has another length"""
        if data == "blocked":
            data, how, blocked = how, "write", True
        else:
            blocked = False
        how, _, when = how.partition("-")
        last = os.stat(self.dump).st_mtime_ns if when == "same" and os.path.isfile(self.dump) else None
        if os.path.isdir(self.dump) and not os.path.islink(self.dump):
            os.rmdir(self.dump)
        elif os.path.lexists(self.dump) and (blocked or data in PLACES or how != "link" and os.path.islink(self.dump)):
            os.unlink(self.dump)
        if os.path.isfile(self.index):
            os.unlink(self.index)
        if data == "absent":
            return
        if data == "dir":
            os.mkdir(self.dump)
            return
        if blocked:
            shutil.rmtree(self.index, ignore_errors=True)
            with open(self.index, "w") as f:
                f.write("not a directory\n")
        if how == "link":
            # a symbolic link; if there is one, it stays and what it points to changes, or it points elsewhere
            os.makedirs(self.dir + "/store", exist_ok=True)
            real = os.path.join(self.dir, os.readlink(self.dump)) if os.path.islink(self.dump) else self.dir + "/store/real.hprof"
            x = rnd.random()
            if x < .4:
                with open(self.meta + "/new", "wb") as f:
                    f.write(data)
                os.rename(self.meta + "/new", real)
            elif x < .8 or not os.path.islink(self.dump):
                with open(real, "wb") as f:
                    f.write(data)
            else:
                real = self.dir + "/store/real%d.hprof" % rnd.randrange(3)
                with open(real, "wb") as f:
                    f.write(data)
                os.unlink(self.dump)
            if not os.path.islink(self.dump):
                if os.path.lexists(self.dump):
                    os.unlink(self.dump)
                os.symlink("store/" + os.path.basename(real), self.dump)
        elif how == "rename":
            with open(self.meta + "/new", "wb") as f:
                f.write(data)
            os.rename(self.meta + "/new", self.dump)
        else:
            with open(self.dump, "wb") as f:
                f.write(data)
        # a time of its own, later or earlier than the ones before
        self.clock += rnd.choice([1, 1000, 10 ** 9, 3600 * 10 ** 9])
        t = self.clock if rnd.random() < .7 else 1_500_000_000_000_000_000 + self.clock % 10 ** 15
        d = digest(data)
        if when == "back":
            last = next((at for (n, at), x in reversed(self.times.items()) if x == d), None)
        if last is not None and self.times.get((len(data), last), d) == d:
            t = last
        while self.times.get((len(data), t), d) != d:
            t += 1
        self.times.pop((len(data), t), None)
        self.times[len(data), t] = d
        os.utime(self.dump, ns=(t, t))

    def outside(self):
        """everything but the index"""
        res = []
        for root in (self.dir, self.tmp, self.cwd):
            for d, ds, fs in os.walk(root):
                if d == self.dir:
                    ds[:] = [x for x in ds if d + "/" + x != self.index]
                for f in fs + ds:
                    p = d + "/" + f
                    st = os.lstat(p)
                    res.append((p, st.st_mode, st.st_size if f in fs else 0, st.st_mtime_ns if f in fs else 0, digest(open(p, "rb").read()) if f in fs and os.path.isfile(p) else os.readlink(p) if os.path.islink(p) else ""))
        return sorted(res)

    def names(self):
        """files and directories in the index"""
        res = []
        for d, ds, fs in os.walk(self.index):
            res += [(d + "/" + x)[len(self.index) + 1:] for x in ds + fs]
        return sorted(res)


@kind
class History(Request):
    """stimuli:
       ["dump", v, how]             the dump is replaced
       ["run", cmd, plan]           a run alone, with things that happen to it
       ["begin", r, cmd, [n...]]    a run begins and goes on to its first stop
       ["step", r]                  it goes on to its next stop
       ["kill", r], ["fault", r, action], ["end", r]
       ["together", [cmd...]]       runs at the same time, as they come
    """
    module = "TraceRuns"

    def __init__(self, versions, events, desc="", seed=0):
        self.versions, self.events, self.desc, self.seed = versions, events, desc, seed

    def observe(self, ctx):
        import random
        self.ctx = ctx
        rnd = random.Random("history %s" % self.seed)
        compile_tracer(ctx)
        base = ctx.dir()
        a = Arena(base)
        before, live, obs = None, {}, []
        refs = self.refs(ctx)[0]
        if any(r["v"][0] == "v" and not r["out"] and r["cmd"] not in BAD_COMMANDS for r in refs):
            return [dict(kind="dump", v=self.events[0][1]), dict(kind="a lone first run on a well-formed dump gives no report")]
        number = [0]

        def begin(cmd, plan, traced=True, full=False):
            number[0] += 1
            r = Run(ctx, a, number[0], cmd, plan, traced, full)
            obs.append(dict(kind="begin", r=r.n, cmd=cmd))
            return r

        def fault(r, n):
            op = r.op(n)
            if op:
                obs.append(dict(kind="fault", r=r.n, op=op))

        def end(r):
            r.finish()
            same = a.outside() == before
            if r.rc == 128 + 9 and not r.hang:
                obs.append(dict(kind="killed", r=r.n, names=a.names(), untouched=same))
                return
            e = ending(r.rc, r.out, r.err)
            err = PROGRESS.sub(b"", r.err)
            obs.append(dict(kind="ended", r=r.n, exit=r.rc, crashed=e["crashed"], hang=r.hang, report=e["report"],
                            reason=bool(r.out.strip() or err.strip()), out=digest(r.out), names=a.names(), untouched=same,
                            text=(r.out + err)[:300].decode("utf-8", "replace") if r.rc else ""))
        try:
            for ev in self.events:
                what = ev[0]
                if what == "dump":
                    if live and not ev[2].startswith("rename") and os.path.isfile(a.dump):
                        a.spoil()
                    if ev[1] == "blocked":
                        a.place("blocked", self.versions["v1"], rnd)
                    else:
                        a.place(ev[1] if ev[1] in PLACES else self.versions[ev[1]], ev[2], rnd)
                    before = a.outside()
                    obs.append(dict(kind="dump", v=ev[1]))
                elif what == "run":
                    r = begin(ev[1], ev[2], ev[2] != "none")
                    r.p.wait()
                    m = re.search(r"(\d+)=(?:err|lost)|full=(\d+)", ev[2])
                    if m:
                        if m.group(1):
                            fault(r, int(m.group(1)))
                        elif len(r.ops()) >= int(m.group(2)):
                            obs.append(dict(kind="fault", r=r.n, op="write"))
                    end(r)
                elif what == "begin":
                    r = begin(ev[2], ",".join("%d=stop" % n for n in ev[3]) or "none")
                    live[ev[1]] = r
                    r.wait_stop()
                elif what == "step":
                    r = live[ev[1]]
                    if r.stopped:
                        r.tell("go")
                        r.wait_stop()
                elif what in ("kill", "fault", "end"):
                    r = live.pop(ev[1])
                    if r.stopped:
                        n = r.stopped
                        if what == "fault":
                            fault(r, n)
                        r.tell({"kill": "kill", "end": "go"}.get(what) or ev[2])
                        while r.wait_stop():
                            r.tell("go")
                    end(r)
                elif what == "full":
                    r = begin(ev[1], "none", False, True)
                    obs.append(dict(kind="fault", r=r.n, op="stdout"))
                    end(r)
                elif what == "together":
                    rs = [begin(c, "none", False) for c in ev[1]]
                    for r in rs:
                        r.p.wait()
                    for r in rs:
                        end(r)
                else:
                    raise Error("event " + what)
        finally:
            for r in live.values():
                r.p.kill()
                r.timer.cancel()
            shutil.rmtree(base, ignore_errors=True)
        return obs

    # the reports of lone first runs
    def refs(self, ctx):
        cmds = {o[1] for o in self.events if o[0] in ("run", "full")} | {o[2] for o in self.events if o[0] == "begin"} | {c for o in self.events if o[0] == "together" for c in o[1]}
        res = []
        for v, data in self.versions.items():
            for c in sorted(cmds):
                r = reference(ctx, data, c)
                res.append(dict(v=v, cmd=c, out=r["out"]))
        return res, reference_names(ctx, self.versions)

    def line(self, obs):
        refs, names = self.refs(self.ctx)
        return json.dumps(dict(obs=obs, refs=refs, complete=names), separators=(",", ":"))

    def save(self):
        return dict(kind="History", events=self.events, desc=self.desc, seed=self.seed, versions=sorted(self.versions),
                    files={"dump-%s.hprof" % v: d for v, d in self.versions.items()})

    @classmethod
    def load(cls, path, j):
        return cls({v: open(os.path.join(path, "dump-%s.hprof" % v), "rb").read() for v in j["versions"]}, j["events"], j["desc"], j["seed"])

    def about(self):
        return dict(desc=self.desc, events=self.events)


_refs = {}


def reference(ctx, data, cmd):
    """a lone first run on a copy of the dump in an empty directory"""
    cmd = LIKE.get(cmd, cmd)
    if cmd in BAD_COMMANDS:
        return dict(rc=1, out="", names=[])
    key = (digest(data), cmd)
    if key not in _refs:
        d = ctx.dir()
        p = os.path.join(d, "x.hprof")
        with open(p, "wb") as f:
            f.write(data)
        rc, out, err = O.run(argv(ctx, p, cmd)[0], argv(ctx, p, cmd)[1:], timeout=TIMEOUT, cwd=d)
        names = sorted((a + "/" + x)[len(p) + 4:] for a, ds, fs in os.walk(p + ".db") for x in ds + fs)
        with _lock:
            _refs[key] = dict(rc=rc, out=digest(out) if rc == 0 else "", names=names, size=len(out))
        shutil.rmtree(d, ignore_errors=True)
    return _refs[key]


def reference_names(ctx, versions):
    for v, data in versions.items():
        r = reference(ctx, data, "objects")
        if r["rc"] == 0:
            return r["names"]
    return []
