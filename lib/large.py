"""Dumps too large to be looked at byte by byte: many objects, and huge ones,
in front of the objects of a small dump."""
import json
import os
import shutil
import struct
import tempfile

import mutate
from hprof import *
from scen import OBSERVE, Scenario, conform, kind
from worlds import *
import obs as O

FLOOR = 1 << 27  # the ids of the small dump are above


def place():
    """where large files are fast to read"""
    return "/dev/shm" if os.access("/dev/shm", os.W_OK) else None


class Bulk:
    """count objects of a kind, ids first, first + step...; each has n elements (arrays) or bytes"""

    def __init__(self, key, first, step, count, n):
        self.key, self.first, self.step, self.count, self.n = key, first, step, count, n

    def save(self):
        k, of = self.key
        return [k, of.hex() if isinstance(of, bytes) else of, self.first, self.step, self.count, self.n]

    @classmethod
    def load(cls, v):
        return cls((v[0], bytes.fromhex(v[1]) if isinstance(v[1], str) else v[1]), *v[2:])

    def spec(self):
        k, of = self.key
        b8 = lambda v: list(v.to_bytes(8, "big"))
        return dict(key=[k, list(of) if isinstance(of, bytes) else of], first=b8(self.first), step=b8(self.step), count=b8(self.count), n=b8(self.n))

    def payload(self, idn):
        k, of = self.key
        return self.n * (1 if k == "inst" else idn if k == "oarr" else WIDTH[of])

    def head(self, idn, id):
        k, of = self.key
        i = id.to_bytes(idn, "big")
        if k == "inst":
            return b"\x21" + i + u4(0) + of + u4(self.n)
        if k == "oarr":
            return b"\x22" + i + u4(0) + u4(self.n) + of
        return b"\x23" + i + u4(0) + u4(self.n) + bytes([of])

    def write(self, f, idn):
        size = self.payload(idn)
        if self.count == 1 or size > 4096:
            for k in range(self.count):
                f.write(self.head(idn, self.first + k * self.step))
                stamp = struct.pack(">I", k)[:size]
                f.write(stamp)
                f.seek(size - len(stamp), 1)
            return
        one = self.head(idn, 0) + bytes(size)
        w, h, done = len(one), len(one) - size, 0
        while done < self.count:
            n = min(self.count - done, 200000)
            buf = bytearray(one * n)
            ids = struct.pack(">%dQ" % n, *range(self.first + done * self.step, self.first + (done + n) * self.step, self.step))
            for b in range(idn):
                buf[1 + b::w] = ids[8 - idn + b::8]
            nos = struct.pack(">%dI" % n, *range(done, done + n))
            for b in range(min(size, 4)):
                buf[h + b::w] = nos[b::4]
            f.write(buf)
            done += n


@kind
class Large(Scenario):
    """a dump with more objects in front of the first segment's"""

    def __init__(self, data, bulk, plan, desc=""):
        super().__init__(data, plan, desc)
        self.bulk = bulk

    def observe(self, ctx):
        d = tempfile.mkdtemp(prefix="neojhat-large-", dir=place())
        try:
            path = os.path.join(d, "d.hprof")
            self.write(path)
            cache, out = {}, []

            def cli(*args, fresh=False):
                if fresh or args not in cache:
                    cache[args] = O.run(ctx.cli, [args[0], "--hprof", path, "--non-interactive", *args[1:]], timeout=300)
                return cache[args]
            for kind, opt in self.plan:
                out.extend((OBSERVE.get(kind) or LARGE[kind])(ctx, self, cli, path, opt))
            return out
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def write(self, path):
        at = mutate.segment(self.data)
        idn = self.data[22]
        with open(path, "wb") as f:
            f.write(self.data[:at])
            for b in self.bulk:
                b.write(f, idn)
            f.write(self.data[at:])
            f.truncate()

    def save(self):
        return dict(super().save(), kind="Large", bulk=[b.save() for b in self.bulk])

    @classmethod
    def load(cls, path, j):
        return cls(open(os.path.join(path, "d.hprof"), "rb").read(), [Bulk.load(b) for b in j["bulk"]], j["plan"], j.get("desc", ""))

    def line(self, obs):
        return json.dumps(dict(file=list(self.data), more=[b.spec() for b in self.bulk], obs=obs), separators=(",", ":"))


def getmore(ctx, s, cli, path, opt):
    """some of the many, by number; -1 and less: ids between them"""
    idn, want, which = s.data[22], [], []
    for m, b in enumerate(s.bulk):
        for i in opt["at"][m]:
            id = b.first + i * b.step if i >= 0 else b.first + (-i) * b.step - 1
            want.append(list(id.to_bytes(idn, "big")))
            which.append((m + 1, max(i, -1)))
    r = ctx.ask(dict(op="index", file=path, chunk=0, gets=want + opt.get("gets", [])), timeout=600)
    if "ok" not in r:
        return [dict(kind="panic", crash=r)]
    res = [dict(kind="panic" if r["err"].startswith("PANIC:") else "verdict", ok=r["ok"], err=r["err"])]
    for k, o in enumerate(r["obs"]):
        res.append(dict(o, kind="getmore", m=which[k][0], i=which[k][1]) if k < len(which) and o["kind"] == "get" else o)
    return res


LARGE = dict(getmore=getmore)


def world(rnd):
    """a full world with ids that leave room, and classes for the many"""
    j = full_world(rnd)
    j.floor = FLOOR
    obj = j.byname["java/lang/Object"]
    cs = dict(inst=j.cls("many/Things", obj, [("a", INT)], size=rnd.choice([0, 4, 24, 4096, 0x7fffffff])), oarr=j.cls("[Lmany/Things;", obj, []))
    return j, cs


def bulk(rnd, j, cs, kind, count, n, step=16, at=0):
    e = Enc(j.idn)
    first = dict(inst=10, oarr=12, parr=14)[kind] + 16 * at
    return Bulk((kind, e.id(cs[kind].id) if kind != "parr" else n[0]), first, step, count, n if kind != "parr" else n[1])


MILLION = 1000000


def large(rnd, style, plan, desc):
    """style: far (places above 4 GiB), many (more than some batches), heavy (sums above 32 bits)"""
    j, cs = world(rnd)
    b = lambda *a, **k: bulk(rnd, j, cs, *a, **k)
    if style == "far":
        over = 2 ** 32 + rnd.randrange(9 * MILLION)
        t = rnd.choice([LONG, INT, DOUBLE, FLOAT, SHORT, CHAR])
        # the runs after them begin with ids of their own
        bs = [b("parr", 1, (t, over // WIDTH[t])), b("oarr", 1, over // j.idn), b("parr", 1, (BYTE, 2 ** 32 - 1 - rnd.randrange(9)), at=1)]
        if rnd.random() < 0.5:
            bs[:2] = bs[1::-1]
        bs += rnd.sample([b("inst", rnd.choice([1, 7, 5000]), rnd.choice([0, 4, 9])), b("oarr", rnd.choice([1, 3]), 2, at=1), b("parr", 5, (rnd.choice(PRIMS), 3), at=2)], 3)
    elif style == "heavy":
        bs = [b("inst", rnd.choice([3, 70000]), 0), b("inst", 2, 2000 * MILLION, at=80000), b("oarr", 3, 2000 * MILLION // j.idn), b("parr", 2, (rnd.choice([CHAR, INT, LONG]), 250 * MILLION)), b("parr", 1, (BYTE, 2 ** 31 + 5), at=5)]
        rnd.shuffle(bs)
        last = {}
        for x in bs:  # keep the ids in order
            x.first = max(x.first, last.get(x.key[0], 0))
            last[x.key[0]] = x.first + 16 * x.count
    else:
        edge = rnd.choice([-1, 0, 1, 2, 3])
        bs = [b("inst", rnd.choice([1, 2]) * MILLION + edge, rnd.choice([0, 4])), b("oarr", rnd.choice([MILLION + edge, 300]), 1), b("parr", rnd.choice([MILLION + 1, MILLION + 2, 5]), (rnd.choice([BYTE, SHORT]), 2))]
        rnd.shuffle(bs)
    data = j.encode()
    at = []
    for x in bs:
        c = x.count
        edges = [0, 1, c - 1, c // 2, MILLION - 1, MILLION, MILLION + 1, MILLION + 2, 2 * MILLION + 1, rnd.randrange(c)]
        at.append(sorted({i for i in edges if 0 <= i < c} | {-1 - rnd.randrange(c)}) if x.n < 1000 else [])
    want = [list(Enc(j.idn).id(o.id)) for o in rnd.sample(j.objs, min(len(j.objs), 60))]
    return Large(data, bs, [[k, dict(o, at=at, gets=want) if k == "getmore" else o] for k, o in plan], "%s, large world (%s)" % (desc, style))


def some(ctx, plan, desc, quick, thorough):
    """scenarios on large dumps, checked one after the other two at a time"""
    rnd = ctx.rnd("large")
    styles = quick if ctx.quick else thorough
    conform(ctx, [large(ctx.rnd("large", n), s, plan, desc) for n, s in enumerate(styles)], workers=2 if ctx.quick else 3)
