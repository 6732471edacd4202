"""Interactive runs whose operations take long, and what they write to the
terminal: the check of C23."""
import json
import os
import random
import shutil
import struct

import mutate
import runs
from harness import printed
from hprof import *
from runs import COMMANDS, Arena, Run, digest, reference
from scen import Request, conform, ending, kind
from worlds import *

UNIT = 8192  # of a dump; two reads


def padded(rnd, length):
    """a dump of this length that has a report for every command"""
    j = full_world(rnd)
    data = j.encode()
    if length < len(data) + 40:
        return data
    # names nobody uses, in front
    idn = data[22]
    pad = length - len(data)
    res = b""
    serial = 1 << 29
    while pad:
        n = min(pad, rnd.choice([400, 3000, 9000]))
        if pad - n < 9 + idn:
            n = pad
        res += b"\x01" + bytes(4) + u4(n - 9) + u4(serial) * (idn // 4) + b"x" * (n - 9 - idn)
        serial += 8
        pad -= n
    return data[:31] + res + data[31:]


@kind
class Live(Request):
    """a run while the dump may change: plan is done at operations (kind of operation, number), the
    dump has opened bytes when it is opened, and is what data is when it is read"""
    module = "TraceProgress"

    def __init__(self, data, opened, cmd, plan, live=True, desc=""):
        self.data, self.opened, self.cmd, self.plan, self.live, self.desc = data, opened, cmd, plan, live, desc

    def observe(self, ctx):
        runs.compile_tracer(ctx)
        base = ctx.dir()
        a = Arena(base)
        with open(a.dump, "wb") as f:
            f.write(self.opened)
        plan = {(op, n): act for op, n, act in self.plan}
        first = plan.get(("read", 1), "go")
        if self.opened != self.data:
            plan["read", 1] = "stop"
        r = Run(ctx, a, 1, ("live-" if self.live else "") + self.cmd, ",".join("%s:%d=%s" % (op, n, act) for (op, n), act in plan.items()) or "none")
        try:
            if self.opened != self.data and r.wait_stop():
                with open(a.dump, "r+b") as f:
                    f.truncate(0)
                    f.write(self.data)
                r.tell(first)
        finally:
            if r.p.poll() is None and r.hang:
                r.p.kill()
        r.finish()
        lines = [x.split(" ", 2) for x in open(r.log, errors="replace").read().split("\n") if x]
        events = []
        for n, op, rest in lines:
            if op == "stderr":
                events.append(dict(to="err", bytes=list(bytes.fromhex(rest))))
            elif op == "got" and rest.split(" ", 1)[1] == a.dump:
                if events and events[-1]["to"] == "got" and len(events) > 4000:
                    events[-1]["n"] += int(rest.split(" ")[0])
                else:
                    events.append(dict(to="got", n=int(rest.split(" ")[0])))
            elif rest == "(stdout)" and op == "write" and (not events or events[-1]["to"] != "out"):
                events.append(dict(to="out", bytes=[]))
        e = ending(r.rc, r.out, r.err)
        ref = reference(ctx, self.data, self.cmd)
        faulty = any("err" in p[2] or "half" in p[2] for p in self.plan)
        right = r.rc == 0 and digest(r.out) == ref["out"] if ref["rc"] == 0 and not (faulty and r.rc) else r.rc != 0 and not e["report"]
        shutil.rmtree(base, ignore_errors=True)
        sizes = [len(self.data), len(self.opened)]
        return [dict(kind="stderr", live=self.live, least=min(sizes), most=max(sizes), item=self.item(), events=events, hang=r.hang, crashed=e["crashed"], right=right, note=getattr(r, "where", "") or ("" if not e["crashed"] else "%d %r" % (r.rc, r.err[-500:])))]

    def item(self):
        """the length of the longest record or sub-record"""
        try:
            if self.data == self.opened:
                return max(n for _, _, n, _ in mutate.layout(self.data)[1])
        except (IndexError, struct.error, KeyError, ValueError):
            pass
        return max(len(self.data), len(self.opened))

    def save(self):
        return dict(kind="Live", cmd=self.cmd, plan=self.plan, live=self.live, desc=self.desc, files={"dump.hprof": self.data, "opened.hprof": self.opened})

    @classmethod
    def load(cls, path, j):
        rd = lambda n: open(os.path.join(path, n), "rb").read()
        return cls(rd("dump.hprof"), rd("opened.hprof"), j["cmd"], [tuple(p) for p in j["plan"]], j["live"], j["desc"])

    def about(self):
        return dict(desc=self.desc, cmd=self.cmd, plan=self.plan, length=len(self.data), opened=len(self.opened))


def c23(ctx):
    out = ctx.model("MC_Progress", "MC_Progress.cfg")
    if not ctx.quick:
        ctx.model("MC_Progress", "MC_ProgressBig.cfg")
    for v in ("All", "Double", "Nothing", "Unclamped"):
        ctx.refuted("MC_Progress", "MC_Progress%s.cfg" % v, "Invariant (ProgressInv|NeverCrashes) is violated")
    ticks = [json.loads(t) for t in sorted(set(printed(out, "TICKS")))]
    ctx.notes["ticks_from_model"] = len(ticks)
    rnd = ctx.rnd("ticks")
    cmds = ["objects", "objects-size", "summary-all", "threads-locals"]
    sleep = lambda n: "sleep%d" % (1030 * n - 300 * (n > 0))
    res = []
    for n, t in enumerate(rnd.sample(ticks, min(len(ticks), 60 if ctx.quick else 400))):
        whole = padded(rnd, 4 * UNIT)
        part = lambda k: whole if k == 4 else whole[:k * UNIT]
        plan = []
        for p, k in enumerate(t["ticks"]):
            if k > 1 or p == 0 and k:  # one is drawn anyway
                plan.append(("read", 2 * p + 1, sleep(k)))
        res.append(Live(part(t["end"]), part(t["size"]), rnd.choice(cmds), plan, desc="ticks of the model %d" % n))
    slow = lambda: sleep(rnd.choice([1, 2]))
    for k in range(60 if ctx.quick else 1200):
        data = padded(rnd, rnd.choice([0, 9000, 30000, 70000]))
        opened = data
        x = rnd.random()
        if x < .2:
            data = opened = data[:rnd.randrange(len(data))]
        elif x < .4:
            data, _ = mutate.mutant(rnd, data)
            opened = data
        elif x < .5:
            opened = data[:rnd.randrange(len(data))]
        elif x < .55:
            opened = data + bytes(rnd.choice([1, 5000]))
        if k % 3 == 0:  # the report itself takes long
            res.append(Live(data, opened, rnd.choice(list(COMMANDS)), [(rnd.choice(["read", "index-write", "index-rename"]), rnd.randrange(1, 5), sleep(rnd.choice([0, 1]))), ("out", 1, sleep(2))],
                            desc="slow report %d" % k))
        plan = [(rnd.choice(["read", "read", "read", "index-write", "index-close", "index-rename", "out", "stat"]), rnd.choice([1, 2, 3, 4, 6, 9]), slow()) for _ in range(rnd.randrange(4))]
        if rnd.random() < .2:
            plan.append((rnd.choice(["read", "index-write", "index-rename", "index-open", "index-mkdir"]), rnd.randrange(1, 8), rnd.choice(["err5", "err28", "half"])))
        res.append(Live(data, opened, rnd.choice(list(COMMANDS)), plan, live=rnd.random() < .8, desc="slow run %d" % k))
    for k in range(12 if ctx.quick else 150):  # long enough to tell whether it keeps up
        data = padded(rnd, rnd.choice([200000, 300000, 500000]))
        reads = len(data) // (2 * UNIT // 4)
        res.append(Live(data, data, rnd.choice(cmds), [("read", max(1, int(reads * x)), sleep(rnd.choice([1, 2]))) for x in rnd.sample([.02, .2, .4, .6, .7, .8, .9, .97], rnd.choice([2, 3]))], desc="slow reads of a long dump %d" % k))
    conform(ctx, res, workers=40)
