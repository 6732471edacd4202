"""C24: memory while indexing.  Dumps that exist nowhere, made of runs of
objects while the real parser reads them."""
import json
import os
import shutil
import struct
import subprocess
import sys
import tempfile

from harness import printed
from hprof import *
from large import Bulk, place
from scen import Scenario, conform, kind

MB = 1 << 20
BATCH, MODEL_BATCH = 1000000, 3
W = {4: 1, 8: 1, 5: 2, 9: 2, 6: 4, 10: 4, 7: 8, 11: 8}


def payload(p, idn):
    return p["N"] * (1, idn, W[p["Type"]])[p["Kind"]]


@kind
class Plan(Scenario):
    """a stream of parts, read by the parser of the real code"""
    module = "TraceScale"

    def __init__(self, plan, desc=""):
        self.q, self.desc, self.data, self.plan = plan, desc, b"", []

    def observe(self, ctx):
        r = ctx.ask(dict(op="plan", plan=self.q), timeout=400)
        if "notes" not in r:
            return [dict(kind="crash", crash=r)]
        objects = [sum(p["Count"] for p in self.q["Parts"] if p.get("Lit") is None and p["Kind"] == k) for k in range(3)]
        ctx.notes["objects"] = ctx.notes.get("objects", 0) + sum(objects)
        ctx.notes["MB_read"] = ctx.notes.get("MB_read", 0) + r["mb"]
        ctx.notes["notes_taken"] = ctx.notes.get("notes_taken", 0) + len(r["notes"])
        for n in r["notes"]:
            n["heap"] = max(n["heap"], 0)
        ctx.notes["most_KiB_held"] = max(ctx.notes.get("most_KiB_held", 0), max(n["heap"] for n in r["notes"]))
        return [dict(r, kind="scale", objects=objects)]

    def save(self):
        return dict(kind="Plan", plan=self.q, desc=self.desc)

    @classmethod
    def load(cls, path, j):
        return cls(j["plan"], j.get("desc", ""))

    def about(self):
        return dict(desc=self.desc, parts=[p for p in self.q["Parts"] if p.get("Lit") is None][:6])

    def line(self, obs):
        return json.dumps(dict(obs=obs), separators=(",", ":"))


PEAK = """
import os, sys
pid = os.posix_spawn(sys.argv[1], sys.argv[1:], os.environ, file_actions=[(os.POSIX_SPAWN_OPEN, 1, "/dev/null", os.O_WRONLY, 0), (os.POSIX_SPAWN_OPEN, 2, "/dev/null", os.O_WRONLY, 0)])
_, st, ru = os.wait4(pid, 0)
print(os.waitstatus_to_exitcode(st), ru.ru_maxrss)
"""


@kind
class Peak(Scenario):
    """a run of the whole program on a large file, and the most memory it ever had"""
    module = "TraceScale"

    def __init__(self, bulk, idn, desc=""):
        self.bulk, self.idn, self.desc, self.data, self.plan = bulk, idn, desc, b"", []

    def observe(self, ctx):
        d = tempfile.mkdtemp(prefix="neojhat-large-", dir=place())
        try:
            path = os.path.join(d, "d.hprof")
            with open(path, "wb") as f:
                f.write(head(self.idn) + segment())
                for b in self.bulk:
                    b.write(f, self.idn)
                f.write(b"\x2c" + bytes(8))
            p = subprocess.run([sys.executable, "-I", "-S", "-c", PEAK, ctx.cli, "threads", "--hprof", path, "--non-interactive"], stdout=subprocess.PIPE, timeout=400)
            exit, rss = map(int, p.stdout.split())
            ix = [path + ".db/" + n for n in ("instance-dump.idx.bin", "obj-array-dump.idx.bin", "prim-array-dump.idx.bin")]
            objects = [sum(b.count for b in self.bulk if b.key[0] == k) for k in ("inst", "oarr", "parr")]
            ctx.notes["KiB_of_a_run"] = max(ctx.notes.get("KiB_of_a_run", 0), rss)
            return [dict(kind="peak", exit=exit, rss=rss, kept=0, program=65536, objects=objects,
                         written=[os.path.getsize(i) // 16 if os.path.exists(i) else -1 for i in ix])]
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def save(self):
        return dict(kind="Peak", bulk=[b.save() for b in self.bulk], idn=self.idn, desc=self.desc)

    @classmethod
    def load(cls, path, j):
        return cls([Bulk.load(b) for b in j["bulk"]], j["idn"], j.get("desc", ""))

    def about(self):
        return dict(desc=self.desc)

    line = Plan.line


def head(idn):
    return b"JAVA PROFILE 1.0.2\0" + struct.pack(">IQ", idn, 0)


def segment():
    return b"\x1c" + bytes(8)


def run(rnd, kind, count, n, idn, ids):
    """a run of objects, ids after those of the kind so far"""
    step = rnd.choice([1, 8, 16])
    first = ids.get(kind, 1)
    ids[kind] = first + step * count
    ty = rnd.choice(list(W))
    return dict(Kind=kind, Of=rnd.randrange(1, 9).to_bytes(idn, "big").hex(), Type=ty, First=first, Step=step, Count=count, N=n)


def kept(rnd, count, idn, inside):
    """records that are kept, numbered"""
    if not inside:
        tag, body, at = rnd.choice([(1, bytes(idn) + b"n" * rnd.choice([5, 40]), idn - 4),      # name
                                    (2, bytes(4 + idn + 4 + idn), 4 + idn - 4),                # class
                                    (4, bytes(4 * idn + 8), idn - 4)])                         # frame
        lit, at = bytes([tag]) + struct.pack(">II", 0, len(body)) + body, 9 + at
    else:
        lit, at = rnd.choice([(b"\x01" + bytes(2 * idn), 1 + idn - 4), (b"\x05" + bytes(idn), 1 + idn - 4),
                              (b"\x20" + bytes(7 * idn + 8 + 6), 1 + idn - 4)])
    return dict(Lit=lit.hex(), Times=count, At=at)


def parts(rnd, runs, idn):
    """parts of a plan of the model: a batch of the model stands for a real one"""
    res, ids, inside = [dict(Lit=head(idn).hex())], {}, False
    for r in runs:
        if r["kind"] == 3:
            res.append(kept(rnd, r["count"] * 20000, idn, inside))
            continue
        if not inside:
            res.append(dict(Lit=segment().hex()))
            inside = True
        if r["size"]:
            total = rnd.choice([12, 40, 100, 600, 3000]) * MB
            p = run(rnd, r["kind"], r["count"], 0, idn, ids)
            p["N"] = min(total // (1, idn, W[p["Type"]])[r["kind"]], 0xffffffff)
        else:
            q, rest = divmod(r["count"], MODEL_BATCH)
            p = run(rnd, r["kind"], q * BATCH + rest, rnd.choice([0, 1, 2, 5]), idn, ids)
        res.append(p)
        if rnd.random() < 0.3:
            res.append(dict(Lit=segment().hex()))
    return res + [dict(Lit=(b"\x2c" + bytes(8)).hex())]


def plan(ps, idn):
    size = sum(payload(p, idn) * p["Count"] for p in ps if "Kind" in p)
    return dict(IdSize=idn, Every=100000, Bytes=max(MB, size // 80), Parts=ps)


def special(rnd, what, idn):
    ids, seg, end = {}, dict(Lit=segment().hex()), dict(Lit=(b"\x2c" + bytes(8)).hex())
    ps = [dict(Lit=head(idn).hex()), seg]
    if what < 3:  # very many of a kind
        ps.append(run(rnd, what, 12 * BATCH + rnd.randrange(BATCH), rnd.choice([0, 1, 3]), idn, ids))
    elif what < 6:  # a huge one, and one of some megabytes before and after it
        for n in (20 * MB, 0xffffffff - rnd.randrange(9), 70 * MB):
            ps.append(run(rnd, what - 3, 1, n, idn, ids))
    elif what == 6:  # interleaved
        for _ in range(240):
            ps.append(run(rnd, rnd.randrange(3), rnd.choice([1, 500, 20000, 60000]), rnd.choice([0, 1, 8]), idn, ids))
    else:  # many of some kilobytes
        for k in rnd.sample(range(3), 3):
            ps.append(run(rnd, k, rnd.choice([3000, 20000]), rnd.choice([1000, 4095, 4096, 5000, 70000]), idn, ids))
    return ps + [end]


def c24(ctx):
    out = ctx.model("MC_Scale", "MC_Scale.cfg" if ctx.quick else "MC_ScaleBig.cfg")
    plans = sorted(set(printed(out, "PLAN")))
    ctx.notes["plans_from_model"] = len(plans)
    if not ctx.quick:
        for cfg in ("MC_ScaleHolds.cfg", "MC_ScaleLate.cfg"):
            ctx.refuted("MC_Scale", cfg, "Invariant (Bounded|Flat) is violated")
    scens = []
    for w in list(range(8)) * (1 if ctx.quick else 6):
        rnd = ctx.rnd("special", len(scens))
        idn = rnd.choice([4, 8])
        scens.append(Plan(plan(special(rnd, w, idn), idn), "special plan %d" % w))
    chosen = ctx.rnd("plans").sample(plans, min(len(plans), 40 if ctx.quick else 600))
    for n, t in enumerate(chosen):
        rnd = ctx.rnd("plan", n)
        idn = rnd.choice([4, 8])
        scens.append(Plan(plan(parts(rnd, json.loads(t), idn), idn), "plan of the model %s" % t))
    for n in range(0, len(scens), 48):
        if ctx.late():
            break
        conform(ctx, scens[n:n + 48])
    peaks = []
    for n in range(1 if ctx.quick else 4):
        rnd = ctx.rnd("peak", n)
        idn = rnd.choice([4, 8])
        of = (7).to_bytes(idn, "big")
        bs = [Bulk(("inst", of), 1, 8, rnd.choice([1500000, 2500000]), 4), Bulk(("oarr", of), 2, 8, 1200000, 1), Bulk(("parr", BYTE), 3, 8, 1200000, 2),
              Bulk(("parr", LONG), 1 << 30, 8, 1, 250 * MB), Bulk(("inst", of), 1 << 30, 8, 2, 700 * MB)]
        peaks.append(Peak(bs, idn, "run on a large file %d" % n))
    conform(ctx, peaks, workers=2)
