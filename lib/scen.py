"""Scenarios of the Conform module: a dump and a plan of observations."""
import base64
import json
import os
import shutil

import obs as O
from harness import CPUS, HANG, Error, text_of


class Scenario:
    """data: the dump; plan: list of [kind, options]; everything is plain data, so it can be saved and run again"""

    def __init__(self, data, plan, desc=""):
        self.data, self.plan, self.desc = data, plan, desc

    def observe(self, ctx):
        """runs the real program according to the plan: list of observations"""
        d = ctx.dir()
        path = os.path.join(d, "d.hprof")
        with open(path, "wb") as f:
            f.write(self.data)
        cache, out = {}, []

        def cli(*args, fresh=False):
            if fresh:
                shutil.rmtree(path + ".db", ignore_errors=True)
            if fresh or args not in cache:
                cache[args] = O.run(ctx.cli, [args[0], "--hprof", path, "--non-interactive", *args[1:]])
            return cache[args]

        for kind, opt in self.plan:
            out.extend(OBSERVE[kind](ctx, self, cli, path, opt))
        shutil.rmtree(d, ignore_errors=True)
        return out

    module = "Conform"

    def save(self):
        return dict(kind="Scenario", plan=self.plan, desc=self.desc, files={"d.hprof": self.data})

    @classmethod
    def load(cls, path, j):
        return cls(open(os.path.join(path, "d.hprof"), "rb").read(), j["plan"], j.get("desc", ""))

    def about(self):
        return dict(desc=self.desc, dump_bytes=len(self.data), dump_head=self.data[:48].hex())

    def line(self, obs):
        return json.dumps(dict(file=list(self.data), more=[], obs=obs), separators=(",", ":"))


def objrows(ctx, s, cli, path, opt):
    rc, o, _ = cli("objects", "--no-color")
    return [dict(kind=opt.get("as", "objrows"), exit=rc, **O.parse_objects(o))]


def objorder(ctx, s, cli, path, opt):
    res = []
    for sort in ("count", "size"):
        args = ("objects", "--no-color", "--sort-by", sort)
        outs = set()
        for k in range(opt.get("runs", 3)):
            rc, o, _ = cli(*args, fresh=True) if k < 2 else O.run(ctx.cli, ["objects", "--hprof", path, "--non-interactive", *args[1:]])
            outs.add((rc, o))
        if sort == "count":
            outs.add(cli("objects", "--no-color")[:2])
        res.append(dict(kind="objorder", exit=rc, sort=sort, distinct=len(outs), **O.parse_objects(o)))
    return res


def summary(cli, *args):
    rc, o, _ = cli("summary", "--no-color", *args)
    return rc, O.parse_summary(o)


def sumheap(ctx, s, cli, path, opt):
    rc, secs = summary(cli)
    return [dict(kind="sumheap", exit=rc, heap=O.section(secs, "Heap"))]


def sumagrees(ctx, s, cli, path, opt):
    rc, secs = summary(cli)
    rc2, o, _ = cli("objects", "--no-color")
    return [dict(kind="sumagrees", exit=rc or rc2, heap=O.section(secs, "Heap"), totals=O.parse_objects(o)["totals"])]


def sumprops(ctx, s, cli, path, opt):
    rc, a = summary(cli, "--all-props")
    rc2, b = summary(cli)
    sec = lambda secs: dict(env=O.section(secs, "Environment"), props=O.section(secs, "Properties"))
    return [dict(kind="sumprops", exit=rc, **sec(a)), dict(kind="sumenv", exit=rc2, **sec(b))]


def sumuptime(ctx, s, cli, path, opt):
    rc, secs = summary(cli)
    return [dict(kind="sumuptime", exit=rc, system=O.section(secs, "System"))]


def threads(kind):
    def f(ctx, s, cli, path, opt):
        rc, o, _ = cli("threads", "--no-color")
        return [dict(kind=kind, exit=rc, lines=O.parse_threads(o))]
    return f


def locals_(ctx, s, cli, path, opt):
    rc, o, _ = cli("threads", "--no-color")
    rc2, o2, _ = cli("threads", "--no-color", "--local-vars")
    return [dict(kind="locals", exit=rc or rc2, **{"with": O.parse_threads(o2), "without": O.parse_threads(o)})]


def proptexts(ctx, s, cli, path, opt):
    rc, a = summary(cli, "--all-props")
    return [dict(kind="proptexts", exit=rc, props=O.section(a, "Properties"))]


def modes(ctx, s, cli, path, opt):
    res = []
    strip = lambda b: O.ANSI.sub(b"", b)
    if "objects" in opt["of"]:
        for args in ([], ["--sort-by", "size"]):
            p, c, h = (cli("objects", *args, *x) for x in (["--no-color"], [], ["--output", "html"]))
            res.append(dict(kind="samerows", exit=p[0] or c[0] or h[0], plain=O.parse_objects(p[1]), color=O.parse_objects(strip(c[1])), html=O.html_objects(h[1])))
    if "summary" in opt["of"]:
        for args in ([], ["--all-props"]):
            p, c, h = (cli("summary", *args, *x) for x in (["--no-color"], [], ["--output", "html"]))
            sec = lambda b: [dict(name=n, lines=[O.bl(x) for x in ls]) for n, ls in O.parse_summary(b)]
            res.append(dict(kind="samesections", exit=p[0] or c[0] or h[0], plain=sec(p[1]), color=sec(strip(c[1])), html=O.html_summary(h[1])))
    if "threads" in opt["of"]:
        for args in ([], ["--local-vars"]):
            p, c, h = (cli("threads", *args, *x) for x in (["--no-color"], [], ["--output", "html"]))
            res.append(dict(kind="samelines", exit=p[0] or c[0] or h[0], plain=O.parse_threads(p[1]), color=O.parse_threads(strip(c[1])), html=O.html_threads(h[1])))
    return res


def driver(ctx, s, cli, path, opt):
    """lookups through the driver, for each way of delivering the input"""
    res = []
    for chunk in opt.get("chunks", [0]):
        q = {k: v for k, v in opt.items() if k != "chunks"}
        r = ctx.ask(dict(op="index", file=path, chunk=chunk, **q))
        if "ok" not in r:
            res.append(dict(kind="panic", crash=r))
            continue
        crash = r["err"].startswith("PANIC:")
        res.append(dict(kind="panic" if crash else "verdict", ok=r["ok"], err=r["err"]))
        res.extend(r["obs"])
    return res


REPORT = (b"\nTotal Size: ", b"\n- Environment", b"\n- Heap", b", prio=")


def ending(rc, out, err):
    """how a run ended: exit status, did it crash or hang, did it print a report, did it say anything"""
    crashed = rc < 0 or rc == HANG or (rc not in (0, 1) and (b"goroutine " in err or b"panic:" in err or b"fatal error:" in err))
    return dict(exit=rc, crashed=crashed, report=any(m in b"\n" + out for m in REPORT), reason=bool(out.strip() or err.strip()))


def verdict(ctx, s, cli, path, opt):
    """is the dump accepted, and how does the program end"""
    res = driver(ctx, s, cli, path, dict(chunks=opt.get("chunks", [0])))
    for sub in opt.get("subs", ["objects"]):
        rc, o, e = O.run(ctx.cli, [sub, "--hprof", path, "--non-interactive", "--no-color"], timeout=20)
        if rc == 0 and sub == "objects":
            res.append(dict(kind="objany", exit=rc, **O.parse_objects(o)))
        res.append(dict(kind="cli", **ending(rc, o, e)))
    return res


def prefixes(ctx, s, cli, path, opt):
    r = ctx.ask(dict(op="prefixes", file=path, chunk=opt.get("chunk", 0)), timeout=300)
    if "accepted" not in r or r["panics"]:
        return [dict(kind="panic", crash=r)]
    return [dict(kind="prefixes", accepted=r["accepted"])]


def cuts(ctx, s, cli, path, opt):
    """the whole command line tool on truncated dumps, twice each: exit, is a report printed"""
    res = []
    for n in opt["at"]:
        d = ctx.dir()
        p = os.path.join(d, "c.hprof")
        with open(p, "wb") as f:
            f.write(s.data[:n])
        ends = []
        for sub in opt["subs"]:
            rc, o, e = O.run(ctx.cli, [sub, "--hprof", p, "--non-interactive", "--no-color"], timeout=20)
            ends.append(ending(rc, o, e))
        res.append(dict(kind="cut", n=n, ends=ends))
        shutil.rmtree(d, ignore_errors=True)
    return res


def whole(ctx, s, cli, path, opt):
    """every report, if there is one"""
    res = []
    rc, o, e = cli("objects", "--no-color")
    res.append(dict(kind="whole", of="objects", end=ending(rc, o, e), exit=rc, **O.parse_objects(o)))
    rc, o, e = cli("summary", "--no-color", "--all-props")
    sec = O.parse_summary(o)
    res.append(dict(kind="whole", of="summary", end=ending(rc, o, e), exit=rc, env=O.section(sec, "Environment"), heap=O.section(sec, "Heap"), system=O.section(sec, "System"), props=O.section(sec, "Properties")))
    rc, o, e = cli("threads", "--no-color", "--local-vars")
    rc2, o2, _ = cli("threads", "--no-color")
    ls = O.parse_threads(o)
    res.append(dict(kind="whole", of="threads", end=ending(rc or rc2, o if rc else b"" if rc2 else o, e + o2 if rc2 else e), exit=rc or rc2, lines=O.parse_threads(o2), without=O.parse_threads(o2), **{"with": ls}))
    return res


OBSERVE = dict(whole=whole, objrows=objrows, objorder=objorder, sumheap=sumheap, sumagrees=sumagrees, sumprops=sumprops, sumuptime=sumuptime,
               heads=threads("heads"), stacks=threads("stacks"), names=threads("names"), locals=locals_, proptexts=proptexts,
               modes=modes, driver=driver, verdict=verdict, prefixes=prefixes, cuts=cuts)


def load(path):
    """a saved scenario"""
    j = json.load(open(os.path.join(path, "scenario.json")))
    return KINDS[j.get("kind", "Scenario")].load(path, j)


KINDS = {"Scenario": Scenario}


class Request:
    """a scenario without a dump: requests to the driver, the answers' observations in a row"""
    module = None  # of the specification that decides

    def __init__(self, reqs, desc=""):
        self.reqs, self.desc = reqs, desc

    def observe(self, ctx):
        out = []
        for q in self.reqs:
            r = ctx.ask(q)
            out.extend(self.observed(q, r) if "died" not in r and "hang" not in r else [dict(kind="panic", crash=r)])
        return out

    def observed(self, q, r):
        return r["obs"]

    def line(self, obs):
        return json.dumps(dict(obs=obs), separators=(",", ":"))

    def save(self):
        return dict(kind=type(self).__name__, reqs=self.reqs, desc=self.desc)

    @classmethod
    def load(cls, path, j):
        return cls(j["reqs"], j.get("desc", ""))

    def about(self):
        return dict(desc=self.desc)


def kind(cls):
    KINDS[cls.__name__] = cls
    return cls


def conform(ctx, scens, limit=3, workers=CPUS):
    """runs scenarios on the real program and validates the traces; reports violations"""
    module = scens[0].module
    seen = ctx.parallel(lambda s: s.observe(ctx), scens, workers)
    bad = ctx.validate(module, [s.line(o) for s, o in zip(scens, seen)])
    ctx.notes.setdefault("observations", {})
    for o in seen:
        for x in o:
            ctx.notes["observations"][x["kind"]] = ctx.notes["observations"].get(x["kind"], 0) + 1
    for s, o in list(zip(scens, seen))[:2]:
        ctx.sample(dict(s.about(), first_observation=text_of(o[0]) if o and len(json.dumps(o[0])) < 3000 else o[0]["kind"] if o else None))
    rejected = {}
    for i, k, v in bad:
        if v[0] == "known":
            if v[1] not in ctx.known:
                ctx.known.append(v[1])
        else:
            rejected.setdefault(i, []).append((k, v))
    found, once = 0, []
    for i in sorted(rejected)[:20]:
        s, (k, v) = scens[i], rejected[i][0]
        # run it again: does it fail again, and on its own?
        if not repeats(ctx, module, s, workers):
            if any(o.get("hang") for o in seen[i]):
                # the machine was busy, or the tracer was in the way: a hang that comes back is a violation
                ctx.notes.setdefault("hangs_that_did_not_come_back", []).append("%s: %s" % (s.desc, seen[i][k].get("note", "")))
                continue
            once.append("%s: %s rejected once (%s), but not in 12 more runs: %s" % (s.desc, seen[i][k]["kind"], v[1], text_of(seen[i][k])))
            continue
        ctx.violation("%s: the specification rejects %s (%s)" % (s.desc, seen[i][k]["kind"], v[1]),
                      dict(s.save(), observed=text_of(seen[i][k]), expected=text_of(v)))
        found += 1
        if found == limit:
            break
    if once and not found:
        raise Error(once[0])
    if len(rejected) > found:
        print("%d more scenarios rejected" % (len(rejected) - found))


def repeats(ctx, module, s, workers):
    traces = ctx.traces
    try:
        for n in (1, 11):
            again = ctx.parallel(lambda _: s.observe(ctx), range(n), workers)
            if any(b[2][0] == "reject" for b in ctx.validate(module, [s.line(o) for o in again])):
                return True
    finally:
        ctx.traces = traces
    return False
