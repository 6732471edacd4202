"""The checks of what a user sees of runs that are killed, meet faults, overlap,
reuse an index or find another dump: C16 to C20."""
import json

import mutate
import runs
from harness import printed
from hprof import *
from runs import COMMANDS, History
from scen import Scenario, conform
from worlds import *

PLAIN = ["objects", "summary-all", "threads-locals"]
EIO, ENOSPC, EACCES, ENOENT, EMFILE, EDQUOT = 5, 28, 13, 2, 24, 122


def whole(ctx, *what):
    """a dump every sub-command has a report on"""
    rnd = ctx.rnd("dump", *what)
    j = full_world(rnd)
    return j.encode()


def other_of_same_size(data, rnd):
    """another dump of the same length: another timestamp, other sizes of classes"""
    d = bytearray(data)
    idn = d[22]
    d[23:31] = (int.from_bytes(d[23:31], "big") + rnd.choice([60000, 3600000, 1])).to_bytes(8, "big")
    for k, off, n in mutate.layout(data)[0]:
        if k == "super":  # the instance size of the class
            p = off + 6 * idn
            d[p:p + 4] = u4(int.from_bytes(d[p:p + 4], "big") + 8)
    return bytes(d)


def versions(ctx, *what):
    rnd = ctx.rnd("versions", *what)
    a = whole(ctx, *what)
    return dict(v1=a, v2=other_of_same_size(a, rnd) if rnd.random() < .6 else whole(ctx, "other", *what), cut=a[:rnd.randrange(40, len(a) - 9)])


def operations(ctx, vs, cmd, before=()):
    """the operations of a run of the command after the events"""
    class Look(History):
        def observe(self, c):
            return super().observe(c)
    h = History(vs, [["dump", "v1", "write"]] + list(before) + [["run", cmd, "0=go"]], "operations")
    keep = {}
    orig = runs.Run.finish

    def finish(r):
        keep[r.n] = r.ops()
        orig(r)
    runs.Run.finish = finish
    try:
        h.observe(ctx)
    finally:
        runs.Run.finish = orig
    return keep[max(keep)]


def mapped(ctx, h, vs, rnd, points, action=None):
    """a history of the model with commands, and stops at operations"""
    names = {1: "v1", 2: "v2", 3: "cut"}
    res = []
    ways = rnd.choice([["write", "rename", "rename-back", "write-same"], ["write-back", "rename"], ["link", "link-back"]])
    for what, x in h:
        if what == "dump":
            res.append(["dump", names[x], rnd.choice(ways)])
        elif what == "begin":
            stops = sorted(rnd.sample(range(1, points + 1), 2))
            res.append(["begin", x, rnd.choice(list(COMMANDS)), stops])
        elif what == "fault":
            res.append(["fault", x, action or "err%d" % rnd.choice([EIO, ENOSPC])])
        else:
            res.append([what, x])
    return res


def model_histories(ctx, wanted):
    out = ctx.model("MC_Runs", "MC_Runs.cfg" if ctx.quick else "MC_RunsBig.cfg")
    hs = [json.loads(t) for t in sorted(set(printed(out, "HIST")))]
    hs = [h for h in hs if wanted(h)]
    ctx.notes["histories_from_model"] = len(hs)
    return hs


def overlapping(h):
    live = 0
    for what, _ in h:
        if what == "begin":
            live += 1
            if live > 1:
                return True
        elif what in ("end", "kill", "fault"):
            live -= 1
    return False


def go(ctx, hists, group=1500):
    if not ctx.quick:
        ctx.rnd("shuffle").shuffle(hists)
    for a in range(0, len(hists), group):
        conform(ctx, hists[a:a + group])
        if ctx.violations:
            return
        if a + group < len(hists) and ctx.late():
            ctx.notes["histories_left_out_for_time"] = len(hists) - a - group
            return


def from_model(ctx, wanted, quick, rounds):
    hs = model_histories(ctx, wanted)
    rnd = ctx.rnd("model")
    res = []
    for k in range(1 if ctx.quick else rounds):
        some = rnd.sample(hs, min(len(hs), quick)) if ctx.quick else hs
        for n, h in enumerate(some):
            vs = versions(ctx, "model", (n + k) % (6 if ctx.quick else 40))
            res.append(History(vs, mapped(ctx, h, vs, rnd, rnd.choice([20, 100, 100, 140])), "history of the model %d.%d" % (k, n), seed=n))
    return res


def publish_model(ctx, *mistakes):
    """the protocol refines what the user sees, and these mistakes in it are found"""
    for m in mistakes:
        ctx.refuted("MC_Publish", "MC_Publish%s.cfg" % m, "Invariant (NamedIsComplete|PlacedIsComplete|NeverWrong|NoLitter) is violated")
    ctx.model("MC_Publish", "MC_Publish.cfg" if ctx.quick else "MC_PublishBig.cfg", heap="12g")


def c16(ctx):
    publish_model(ctx, "Early", "Keep")
    res = []
    rnd = ctx.rnd("kills")
    for w in range(1 if ctx.quick else 6):
        vs = versions(ctx, "kill", w)
        for cmd in PLAIN if not ctx.quick else [PLAIN[ctx.seed % 3]]:
            ops = operations(ctx, vs, cmd)
            for n, (op, _) in enumerate(ops, 1):
                for how in ["kill"] + (["halfkill"] if op in ("write", "read") else []):
                    later = rnd.sample(PLAIN, 2)
                    res.append(History(vs, [["dump", "v1", "write"], ["run", cmd, "%d=%s" % (n, how)]] + [["run", c, "none"] for c in later], "%s at operation %d of the first run" % (how, n)))
        # the run that replaces an index of another dump
        before = [["run", "objects", "none"], ["dump", "v2", "rename"]]
        ops = operations(ctx, vs, "objects", before)
        for n in range(1, len(ops) + 1):
            later = rnd.choice(PLAIN)
            res.append(History(vs, [["dump", "v1", "write"]] + before + [["run", "objects", "%d=kill" % n], ["run", later, "none"]], "killed at operation %d of the run after the dump has changed" % n))
            res.append(History(vs, [["dump", "v1", "write"]] + before + [["run", "objects", "%d=kill" % n], ["dump", "v1", rnd.choice(["write-back", "rename-back"])], ["run", later, "none"]], "killed at operation %d, then the first dump again" % n))
        for _ in range(60 if ctx.quick else 600):
            ks = [["run", rnd.choice(list(COMMANDS)), "%d=%s" % (rnd.randrange(1, len(ops) + 1), rnd.choice(["kill", "halfkill"]))] for _ in range(rnd.choice([2, 2, 3]))]
            res.append(History(vs, [["dump", "v1", "write"]] + ks + [["run", rnd.choice(PLAIN), "none"]], "killed several times"))
    res += from_model(ctx, lambda h: any(e[0] == "kill" for e in h), 150, 3)
    go(ctx, res)


def c17(ctx):
    publish_model(ctx, "Inplace")
    res = []
    rnd = ctx.rnd("overlaps")
    for w in range(1 if ctx.quick else 3):
        vs = versions(ctx, "overlap", w)
        starts = [[], [["run", "objects", "none"]], [["run", "objects", "none"], ["dump", "v2", "rename"]], [["run", "objects", "40=kill"]]]
        for start in starts:
            cmd = rnd.choice(PLAIN)
            ops = operations(ctx, vs, cmd, start)
            pts = range(1, len(ops) + 1)
            if ctx.quick and start:
                pts = rnd.sample(pts, min(len(pts), 20))
            for n in pts:  # one run stops there, another one goes all the way
                ev = [["begin", 1, cmd, [n]], ["begin", 2, rnd.choice(PLAIN), []], ["end", 2], ["end", 1], ["run", rnd.choice(PLAIN), "none"]]
                res.append(History(vs, [["dump", "v1", "write"]] + start + ev, "a whole run while another one is at operation %d" % n))
            for _ in range(120 if ctx.quick else 4000):
                a, b, c, d = [rnd.randrange(1, len(ops) + 1) for _ in range(4)]
                three = rnd.random() < .3
                ev = [["begin", 1, rnd.choice(PLAIN), sorted({a, c})], ["begin", 2, rnd.choice(PLAIN), sorted({b, d})]]
                ev += [["begin", 3, rnd.choice(PLAIN), [rnd.randrange(1, len(ops) + 1)]]] if three else []
                live = [1, 2, 3] if three else [1, 2]
                turns = [rnd.choice(live) for _ in range(rnd.randrange(4))]
                ev += [["step", r] for r in turns]
                rnd.shuffle(live)
                ev += [["end", r] for r in live] + [["run", rnd.choice(PLAIN), "none"]]
                res.append(History(vs, [["dump", "v1", "write"]] + start + ev, "interleaved runs"))
    for k in range(20 if ctx.quick else 600):
        vs = versions(ctx, "together", k % 10)
        n = rnd.choice([2, 3, 4, 8])
        pre = rnd.choice([[], [["run", "objects", "none"]], [["run", "objects", "none"], ["dump", "v2", "rename"]]])
        res.append(History(vs, [["dump", "v1", "write"]] + pre + [["together", [rnd.choice(list(COMMANDS)) for _ in range(n)]], ["run", rnd.choice(PLAIN), "none"]], "%d runs at once" % n))
    res += from_model(ctx, overlapping, 150, 3)
    go(ctx, res)


def c18(ctx):
    publish_model(ctx, "Unaware")
    res = []
    rnd = ctx.rnd("faults")
    for w in range(1 if ctx.quick else 4):
        vs = versions(ctx, "fault", w)
        for cmd in [PLAIN[(ctx.seed + w) % 3], "threads-html"] if ctx.quick else list(COMMANDS)[:9]:
            for start in [[], [["run", "objects", "none"]]]:
                if ctx.quick and not start and cmd == "threads-html":
                    continue
                ops = operations(ctx, vs, cmd, start)
                reads = sum(op == "read" for op, _ in ops)
                for n, (op, _) in enumerate(ops, 1):
                    if ctx.quick and op == "read" and rnd.random() > 80 / reads:
                        continue
                    hows = ["err%d" % rnd.choice([EIO, EACCES, EMFILE] if op == "open" else [EIO, ENOSPC] if op in ("write", "close", "rename", "mkdir") else [EIO])]
                    hows += ["lost%d" % rnd.choice([EIO, ENOSPC, EDQUOT])] if op == "close" else []
                    hows += ["half"] if op in ("read", "write") and rnd.random() < (.3 if ctx.quick else 1) else []
                    for how in hows:
                        res.append(History(vs, [["dump", "v1", "write"]] + start + [["run", cmd, "%d=%s" % (n, how)], ["run", rnd.choice(PLAIN), "none"]], "%s at operation %d (%s)" % (how, n, op)))
                    if not start and op in ("write", "open", "mkdir") and n % (3 if ctx.quick else 1) == 0:
                        res.append(History(vs, [["dump", "v1", "write"], ["run", cmd, "full=%d" % n], ["run", rnd.choice(PLAIN), "none"]], "no space from operation %d on" % n))
        before = [["run", "objects", "none"], ["dump", "v2", "rename"]]
        ops = operations(ctx, vs, "objects", before)
        for n, (op, _) in enumerate(ops, 1):
            if op in ("rename", "unlink", "close", "open", "mkdir", "sync", "truncate", "link") or not ctx.quick:
                res.append(History(vs, [["dump", "v1", "write"]] + before + [["run", "objects", "%d=%s%d" % (n, "lost" if op == "close" and rnd.random() < .8 else "err", rnd.choice([EIO, EACCES]))], ["run", rnd.choice(PLAIN), "none"], ["run", rnd.choice(PLAIN), "none"]], "operation %d (%s) fails after the dump has changed" % (n, op)))
    res += from_model(ctx, lambda h: any(e[0] == "fault" for e in h), 120, 3)
    go(ctx, res)


def c19(ctx):
    publish_model(ctx, "Nosource", "Late")
    res = []
    rnd = ctx.rnd("orders")
    cmds = list(COMMANDS)
    for k in range(60 if ctx.quick else 1500):
        vs = versions(ctx, "order", k % (8 if ctx.quick else 60))
        ways = rnd.choice([["write", "rename"], ["write", "rename-same", "write-same"], ["rename-back", "write", "write-back"], ["link"], ["write", "rename", "link", "link", "link-back"]])
        ev = [["dump", rnd.choice(["v1", "v1", "cut"]), rnd.choice(ways)]]
        last = ev[0][1]
        for _ in range(rnd.randrange(3, 9)):
            if rnd.random() < .35:
                last = rnd.choice([v for v in vs if v != last])
                ev.append(["dump", last, rnd.choice(ways)])
            else:
                ev.append(["run", rnd.choice(cmds), "none"])
        ev.append(["run", rnd.choice(cmds), "none"])
        res.append(History(vs, ev, "runs and changes %d" % k, seed=k))
    for k in range(4 if ctx.quick else 60):  # every command on an index made by another one
        vs = versions(ctx, "all", k)
        some = rnd.sample(cmds, len(cmds))
        res.append(History(vs, [["dump", "v1", "write"]] + [["run", c, "none"] for c in some] + [["dump", "v2", "write"]] + [["run", c, "none"] for c in some[::-1]], "every command"))
    # the dump changes under a run
    for w in range(1 if ctx.quick else 6):
        vs = versions(ctx, "under", w)
        for start in [[], [["run", "objects", "none"]]]:
            ops = operations(ctx, vs, "objects", start)
            for n in range(1, len(ops) + 1):
                if ctx.quick and start and n % 4:
                    continue
                how = rnd.choice(["rename", "rename", "write"])
                ev = [["dump", "v1", "rename"]] + start + [["begin", 1, rnd.choice(PLAIN), [n]], ["dump", rnd.choice(["v2", "v2", "cut"]), how], [rnd.choice(["end", "end", "end", "kill"]), 1]]
                ev += [["run", rnd.choice(PLAIN), "none"]] if rnd.random() < .8 else []
                ev += [["dump", "v1", "rename-back"], ["run", rnd.choice(PLAIN), "none"]] if rnd.random() < .5 else []
                res.append(History(vs, ev, "dump changed at operation %d of a run" % n))
    res += from_model(ctx, lambda h: any(e[0] == "dump" for e in h[1:]) and not any(e[0] in ("kill", "fault") for e in h), 200, 3)
    go(ctx, res)


def c20(ctx):
    publish_model(ctx, "Dirty")
    res = []
    rnd = ctx.rnd("all")
    good, bad, like = list(COMMANDS), list(runs.BAD_COMMANDS), list(runs.LIKE)
    for k in range(90 if ctx.quick else 2500):
        vs = versions(ctx, "any", k % (8 if ctx.quick else 80))
        r2 = ctx.rnd("bad", k)
        vs["bad"], what = mutate.mutant(r2, vs["v1"])
        vs["bare"] = tiny_world(r2).encode()
        vs["empty"] = b""
        pool = list(vs) + ["bad", "bad", "absent", "dir", "blocked"]
        ev, last = [], None
        for _ in range(rnd.randrange(1, 5)):
            last = rnd.choice([v for v in pool if v != last])
            ev.append(["dump", last, rnd.choice(["write", "rename", "link"])])
            for _ in range(rnd.randrange(1, 4)):
                x = rnd.random()
                cmd = rnd.choice(good) if x < .6 else rnd.choice(bad) if x < .75 else rnd.choice([c for c in like if not c.startswith("live") or k % 8 == 0])
                ev.append(["full" if rnd.random() < .12 and cmd in COMMANDS else "run", cmd, "none"])
        res.append(History(vs, ev, "runs on what there may be %d (%s)" % (k, what), seed=k))
    # faults and truncated dumps leave nothing either
    vs = versions(ctx, "left", 0)
    ops = operations(ctx, vs, "objects")
    for n, (op, _) in enumerate(ops, 1):
        if op in ("write", "mkdir", "rename", "close"):
            res.append(History(vs, [["dump", "v1", "write"], ["run", "objects", "%d=err%d" % (n, ENOSPC)], ["run", "threads", "none"]], "operation %d (%s) fails" % (n, op)))
    for cut in sorted(rnd.sample(range(len(vs["v1"]) - 9), 60 if ctx.quick else 800)):
        res.append(History(dict(vs, cut=vs["v1"][:cut]), [["dump", "cut", "write"], ["run", rnd.choice(PLAIN), "none"], ["run", rnd.choice(PLAIN), "none"]], "cut at %d" % cut))
    # reports too long to be written at once, to an output that does not take all of them
    for k in range(1 if ctx.quick else 12):
        r2 = ctx.rnd("long", k)
        vs = dict(v1=long_world(r2).encode())
        res.append(History(vs, [["dump", "v1", "write"]] + [["full", c, "none"] for c in good] + [["run", rnd.choice(good), "none"]], "long reports, no space for output", seed=k))
        for c in good:
            first = [["run", "objects", "none"]]
            ops = operations(ctx, vs, c, first)
            outs = [n for n, (op, path) in enumerate(ops, 1) if path == "(stdout)"]
            for n in outs if not ctx.quick else {outs[0], rnd.choice(outs)}:
                res.append(History(vs, [["dump", "v1", "write"]] + first + [["run", c, "%d=%s" % (n, rnd.choice(["err28", "err5", "half"]))]], "long report, fault at write %d" % n, seed=n))
    res += from_model(ctx, lambda h: True, 60, 1)
    go(ctx, res)
    if ctx.violations:
        return

    # exit 0 means the complete report, also if the dump lacks what the report is about
    def make(i):
        r = ctx.rnd("lacking", i)
        j = full_world(r) if i % 4 else locals_world(r)
        data = j.encode()
        what = "nothing is missing"
        if i % 10:
            data, what = mutate.lacking(r, data)
        return Scenario(data, [["whole", {}]], "reports on dump %d, %s" % (i, what))
    conform(ctx, ctx.parallel(make, range(240 if ctx.quick else 4000)))
