"""The checks of the properties that are decided by the Conform module: a dump
is made, the real program is run on it, TLC validates what was observed."""
import json

import large
import mutate
from harness import printed
from hprof import *
from scen import Request, Scenario, conform, kind
from worlds import *


def ids(j, *vals):
    e = Enc(j.idn)
    return [list(e.id(v)) for v in vals]


def missing(j, rnd, n=4):
    top = (1 << (8 * j.idn)) - 1
    near = [v + d for v in rnd.sample(sorted(j.used), min(n, len(j.used))) for d in (-1, 1)]
    return [v for v in [0, 1, top, top // 2] + near if 0 <= v <= top and v not in j.used]


def batch(ctx, n, make, group=0):
    """scenarios made by `make(rnd, i)`, run and validated in groups"""
    group = group or (400 if ctx.quick else 800)
    for a in range(0, n, group):
        scens = ctx.parallel(lambda i: make(ctx.rnd(i), i), range(a, min(n, a + group)))
        conform(ctx, scens)
        if ctx.violations:
            return
        if a + group < n and ctx.late():
            ctx.notes["worlds_left_out_for_time"] = n - a - group
            return


def amount(ctx, quick, thorough):
    return quick if ctx.quick else thorough


def model_dumps(ctx, quick, plan):
    """the dumps TLC wrote item by item (MC_Indexer), with plan(rnd, data) done on them"""
    dumps = sorted(set(printed(ctx.model("MC_Indexer", "MC_Indexer.cfg"), "DUMP")))
    ctx.notes["dumps_from_model"] = len(dumps)
    if not ctx.quick:
        ctx.model("MC_Indexer", "MC_IndexerBig.cfg")
        ctx.model("MC_Indexer", "MC_IndexerCuts.cfg")
    dumps = ctx.rnd("model").sample(dumps, min(len(dumps), quick if ctx.quick else 6 * quick))
    scens = [Scenario(bytes(json.loads(d)), plan(ctx.rnd("model", n), bytes(json.loads(d))), "dump of the model %d" % n) for n, d in enumerate(dumps)]
    for a in range(0, len(scens), 2000):
        if not ctx.violations:
            conform(ctx, scens[a:a + 2000])


def vm_dumps(ctx, module, cfg, big, quick, plan):
    """the dumps of the Java VM that the module models, at any point of any of its runs"""
    dumps = printed(ctx.model(module, cfg + ".cfg"), "DUMP")
    if not ctx.quick:
        for b in big:
            dumps += printed(ctx.model(module, b + ".cfg", heap="12g", timeout=400), "DUMP")
    dumps = sorted(set(dumps))
    ctx.notes["dumps_of_modelled_vm"] = ctx.notes.get("dumps_of_modelled_vm", 0) + len(dumps)
    dumps = ctx.rnd(module).sample(dumps, min(len(dumps), quick if ctx.quick else 12 * quick))
    scens = [Scenario(bytes(json.loads(d)), plan(json.loads(d)) if callable(plan) else plan, "dump %d of %s" % (n, cfg)) for n, d in enumerate(dumps)]
    for a in range(0, len(scens), 800):
        if not ctx.violations and not (a and ctx.late()):
            conform(ctx, scens[a:a + 800])


def model_ids(data):
    """the ids there are in the dumps of the model, and others"""
    n = data[22]
    return [[0] * (n - 1) + [k] for k in (0, 1, 2, 3, 5)] + [[255] + [0] * (n - 2) + [k] for k in (1, 200, 201, 255)]


CHUNKS = [0, 1, 2, 3, 4, 7, 16, 100, 4096]


def c01(ctx):
    def make(rnd, i):
        j = objects_world(rnd) if i % 3 else full_world(rnd)
        data = j.encode()
        want = [o.id for o in j.objs]
        if len(want) > 60:
            want = rnd.sample(want, 60)
        want += [c.id for c in j.classes[:3]] + missing(j, rnd)
        rnd.shuffle(want)
        return Scenario(data, [["driver", dict(chunks=rnd.sample(CHUNKS, 2), gets=ids(j, *want))]], "objects by id, world %d" % i)
    model_dumps(ctx, 800, lambda rnd, d: [["driver", dict(chunks=[rnd.choice(CHUNKS)], gets=model_ids(d))]])
    large.some(ctx, [["getmore", {}]], "objects by id", ["far", "many"], ["far", "many"] * 10 + ["heavy"] * 2)
    batch(ctx, amount(ctx, 160, 3000), make)


def c03(ctx):
    def make(rnd, i):
        j = wide_world(rnd) if i % 40 == 0 else deep_world(rnd) if i % 40 == 20 else full_world(rnd) if i % 2 else locals_world(rnd)
        j.extra_names = [b"n" * 70000] if i == 3 else [b"", b"\xff\xfe\x00bad", b"x" * rnd.choice([1, 255, 256, 5000]), bytes(range(256))][:rnd.randrange(5)]
        data = j.encode()
        m = missing(j, rnd)
        some = lambda xs, k=25: rnd.sample(list(xs), min(k, len(xs)))
        ser = [t["thread"] for t in j.traces]
        csr = [c.serial for c in j.classes]
        small = dict(names=ids(j, *(some(list(j.strids.values())) + m)), frames=ids(j, *([f["id"] for f in j.frames] + m[:3])),
                     traces=[list(u4(s)) for s in ser + [0, 77, 0xffffffff]], classes=ids(j, *([c.id for c in j.classes] + m)),
                     loadids=ids(j, *([c.id for c in j.classes] + m[:3])), loadserials=[list(u4(s)) for s in csr + [0, 5, 0xfffffffe]])
        return Scenario(data, [["driver", dict(chunks=rnd.sample(CHUNKS, 1), small=small)]], "small records, world %d" % i)
    u = [list(u4(k)) for k in (0, 1, 2, 5, 255)]
    model_dumps(ctx, 1000, lambda rnd, d: [["driver", dict(chunks=[rnd.choice(CHUNKS)], small=dict(names=model_ids(d), frames=model_ids(d), traces=u, classes=model_ids(d), loadids=model_ids(d), loadserials=u))]])
    batch(ctx, amount(ctx, 160, 3000), make)


def c04(ctx):
    def make(rnd, i):
        if i % 900 == 1:
            j = rows_world(rnd, 1100)
        elif i == 0:  # many objects of few classes
            j = base(rnd, 8)
            cs = [j.cls("m/C%d" % k, j.byname["java/lang/Object"], []) for k in range(3)]
            for k in range(700):
                j.obj(rnd.choice(cs))
            a = j.cls("[Lm/C0;", j.byname["java/lang/Object"], [])
            for k in range(120):
                j.oarr(a, [0] * rnd.randrange(3))
            for k in range(120):
                j.parr(rnd.choice([BYTE, LONG]), [0] * rnd.randrange(4))
        else:
            j = objects_world(rnd, big=i % 4 == 0) if i % 5 else full_world(rnd)
        return Scenario(j.encode(), [["objrows", {}]], "objects report, world %d" % i)
    large.some(ctx, [["objrows", {}]], "objects report", ["heavy", "many"], ["heavy", "many", "heavy", "far"] * 6)
    vm_dumps(ctx, "MC_Rows", "MC_Rows", ["MC_RowsBig"], 120, [["objrows", {}]])
    batch(ctx, amount(ctx, 300, 6000), make)


def c05(ctx):
    def make(rnd, i):
        j = rows_world(rnd, 1100) if i % 900 == 1 else objects_world(rnd, big=i % 4 == 0)
        return Scenario(j.encode(), [["objorder", dict(runs=3 if ctx.quick else 6)]], "order of the objects report, world %d" % i)
    vm_dumps(ctx, "MC_Rows", "MC_Rows", ["MC_RowsBig"], 120, [["objorder", dict(runs=2)]])
    batch(ctx, amount(ctx, 180, 3000), make)


def summary_parts(j, rnd):
    """what a summary needs at least"""
    if "java/lang/System" not in j.byname:
        add_props(j, random_props(rnd)[:6])
    if "sun/management/ManagementFactoryHelper" not in j.byname:
        add_uptime(j, j.ms - 5)
    return j


def c06(ctx):
    def make(rnd, i):
        j = summary_parts(objects_world(rnd), rnd)
        if rnd.random() < 0.5:
            add_threads(j)
        add_roots(j)
        if rnd.random() < 0.3:
            rnd.choice(j.classes).loads = rnd.choice([2, 3])
        return Scenario(j.encode(), [["sumheap", {}], ["sumagrees", {}]], "heap section, world %d" % i)
    vm_dumps(ctx, "MC_Props", "MC_Props", ["MC_PropsBig"], 120, [["sumheap", {}], ["sumagrees", {}]])
    batch(ctx, amount(ctx, 200, 4000), make)


def c07(ctx):
    def make(rnd, i):
        j = base(rnd)
        if rnd.random() < 0.4:
            add_objects(j, 2)
        style = rnd.choice(["hash", "hash", "one"])
        props = random_props(rnd)
        if rnd.random() < 0.15:
            props = props[:rnd.randrange(3)]
        cap = rnd.choice([None, 1, 2, 4, 16, 64, 256 if i % 10 == 0 else 32])
        if i % 40 == 7:
            cap = rnd.choice([512, 1023, 1024, 1025, 2048, 4096, 5000])
        if i % 80 == 9:  # very many
            props += [("many.%d" % k, "value %d" % rnd.randrange(9)) for k in range(rnd.choice([255, 256, 257, 400]) if i != 9 else 1100)]
        add_props(j, props, cap=cap, style=style)
        add_uptime(j, j.ms - 5)
        return Scenario(j.encode(), [["sumprops", {}]], "system properties, world %d" % i)
    vm_dumps(ctx, "MC_Props", "MC_Props", ["MC_PropsBig"], 200, [["sumprops", {}]])
    batch(ctx, amount(ctx, 160, 3000), make)


TIMES = [0, 1, 999, 1000, 60000, 3599999, 1 << 31, (1 << 31) - 1, 1 << 32, (1 << 32) - 1, 0x180000000, 0x17fffffff, 0x18f80000000, 0x18fffffffff, 0x18b7fffffff, 0x18bcfe56800]


def c08(ctx):
    def make(rnd, i):
        j = base(rnd)
        pick = lambda: rnd.choice(TIMES) if rnd.random() < 0.6 else rnd.randrange(1 << 42)
        j.ms = pick()
        start = j.ms - rnd.choice([0, 1, 999, 59999, 60000, 3600000, 86399999, rnd.randrange(1 << 34)]) if rnd.random() < 0.5 else pick()
        add_uptime(j, start)
        add_props(j, [("os.name", "x")], cap=2)
        return Scenario(j.encode(), [["sumuptime", {}]], "uptime %d - %d" % (j.ms, start))
    vm_dumps(ctx, "MC_Props", "MC_PropsUptime", [], 60, [["sumuptime", {}]])
    batch(ctx, amount(ctx, 240, 4000), make)


def c09(ctx):
    def make(rnd, i):
        j = base(rnd)
        if i == 0:  # the known deviation, see known-findings.txt
            add_threads(j, 3, status=1, stacks=False)
        elif i % 120 == 1:
            j = crowd_world(rnd, 1100 if i == 1 else None)
        elif i % 240 == 3:  # every state there is
            for n in range(64):
                v = sum(b for k, b in enumerate((1, 2, 4, 0x10, 0x20, 0x400)) if n >> k & 1) | rnd.choice([0, 0, 0x80, 0x200, 0x1000, 0x100000, 0x40, 0x80000000, 8])
                if n != 1:
                    j_more(j, v)
        elif i < 65 and not i % 2:  # states
            st = [(x, y, z, w) for x in (0, 1) for y in (0, 2) for z in (0, 4, 0x10, 0x20, 0x400, 0x410, 0x420, 0x30) for w in (0, 0x80, 0x200, 0x1000, 0x100000, 0x40)]
            for s in rnd.sample(st, 5):
                v = sum(s)
                if v & 1 and not v & (2 | 4 | 0x10 | 0x20 | 0x400):
                    v |= 4
                add_threads(j, 1, status=v, stacks=False) if not j.roots else j_more(j, v)
        else:
            if rnd.random() < 0.5:
                add_objects(j, 3)
            add_threads(j, rnd.randrange(0, 9), stacks=rnd.random() < 0.4)
            add_roots(j)
            threads = [r for r in j.roots if r[0] == 8]
            if threads and rnd.random() < 0.12:  # a root more of a thread
                k, t, a, b = rnd.choice(threads)
                j.roots.insert(rnd.randrange(len(j.roots) + 1), (k, t, a, b))
        return Scenario(j.encode(), [["heads", {}]], "threads, world %d" % i)
    vm_dumps(ctx, "MC_Stacks", "MC_StacksCalls", ["MC_StacksBig"], 80, [["heads", {}]])
    batch(ctx, amount(ctx, 240, 4000), make)


def j_more(j, status):
    """one more thread with the status"""
    rnd = j.rnd
    ser = max([t["thread"] for t in j.traces] + [0]) + 1
    tid = 1000 + ser + rnd.randrange(1 << 40) * 1000
    t = j.obj(j.byname["java/lang/Thread"], name=j.string("t%d" % ser), tid=tid, daemon=0, priority=5, threadStatus=status)
    j.traces.append(dict(serial=ser, thread=ser % (1 << 32), frames=[]))
    j.roots.append((8, t, ser, ser))


def c10(ctx):
    def make(rnd, i):
        if i % 60 == 0:
            j = deep_world(rnd, 1100 if i == 60 else None)
        elif i % 60 == 30:
            j = crowd_world(rnd)
        else:
            j = base(rnd)
            add_objects(j, rnd.randrange(0, 4))
            add_threads(j, rnd.randrange(1, 7))
        return Scenario(j.encode(), [["stacks", {}]], "stacks, world %d" % i)
    vm_dumps(ctx, "MC_Stacks", "MC_StacksCalls", ["MC_StacksBig"], 250, [["stacks", {}]])
    batch(ctx, amount(ctx, 240, 4000), make)


def c11(ctx):
    def make(rnd, i):
        j = deep_world(rnd) if i % 40 == 0 else crowd_world(rnd) if i % 120 == 1 else bag_world(rnd, rnd.choice([300, 1100, 1500])) if i % 40 == 2 else locals_world(rnd)
        return Scenario(j.encode(), [["locals", {}]], "locals, world %d" % i)
    vm_dumps(ctx, "MC_Stacks", "MC_Stacks", ["MC_StacksBig"], 250, [["locals", {}]])
    batch(ctx, amount(ctx, 240, 4000), make)


def c12(ctx):
    def make(rnd, i):
        if i % 60 == 0:
            j = wide_world(rnd)
        elif i % 240 == 3:  # an array of more than 16 bits
            j = base(rnd, 4)
            j.oarr(j.cls("[Ljava/lang/Thread;", j.byname["java/lang/Object"], []), [rnd.randrange(1 << 32) for _ in range(rnd.choice([65535, 65536, 65537, 66000]) if i > 3 else 65537)])
        else:
            j = base(rnd)
            add_objects(j, rnd.randrange(2, 7))
            if i % 3 == 0:
                add_threads(j, 2)
        data = j.encode()
        fields = []
        for o in j.objs:
            if o.kind == "inst":
                ns = {n for c in o.cls.chain() for n, _ in c.fields}
                for n in sorted(ns) + rnd.sample(["nope", "f9", ""], 1):
                    fields.append(dict(id=ids(j, o.id)[0], name=list(n.encode())))
        fields = rnd.sample(fields, min(50, len(fields)))
        elems = [o.id for o in j.objs if o.kind == "oarr"][:10] + [o.id for o in j.objs if o.kind != "oarr"][:2] + missing(j, rnd, 1)
        return Scenario(data, [["driver", dict(fields=fields, elems=ids(j, *elems))]], "fields, world %d" % i)
    def all_fields(d):
        return [["driver", dict(fields=[dict(id=[0] * (d[22] - 1) + [200 + o], name=[97 + f]) for o in (1, 2, 3) for f in (0, 1, 2)])]]
    vm_dumps(ctx, "MC_Fields", "MC_Fields", ["MC_FieldsBig", "MC_FieldsGone"], 300, all_fields)
    if ctx.quick:
        vm_dumps(ctx, "MC_Fields", "MC_FieldsGone", [], 100, all_fields)
    batch(ctx, amount(ctx, 240, 4000), make)


def c13(ctx):
    def make(rnd, i):
        shown = i % 2 == 0
        j, texts = strings_world(rnd, shown)
        if i == 5 or i % 800 == 81:  # longer than a buffer of a megabyte
            texts = texts[:1] + ["0123456789abcdefghi" * 55200] if not shown else texts
        elif i % 80 < 2:
            n = rnd.choice([255, 256, 257, 4095, 4096, 5000]) if i else 65537
            texts = texts[:2] + ["x" * n, rnd.choice("éЖ") * rnd.choice([127, 128, 129, 2047, 2049, n if n < 5000 else 32769])]
        plan = []
        if shown:
            add_threads(j, 0)
            th = j.byname["java/lang/Thread"]
            for k, t in enumerate(texts):
                o = j.obj(th, name=j.string(t), tid=k + 1, daemon=0, priority=5, threadStatus=5)
                j.traces.append(dict(serial=k + 1, thread=k + 1, frames=[]))
                j.roots.append((8, o, k + 1, k + 1))
            props = {}
            for t in texts:
                props["k" + t.replace(":", "")] = rnd.choice(texts)
            add_props(j, list(props.items()), cap=rnd.choice([1, 4, 16]))
            add_uptime(j, j.ms)
            plan = [["names", {}], ["proptexts", {}]]
        strs = [j.string(t) for t in texts] if not shown else [o for o in j.objs if o.kind == "inst" and o.cls.name == "java/lang/String"]
        j.obj(j.byname["java/lang/Object"])
        data = j.encode()
        want = [s.id for s in strs][:40] + [j.objs[0].id] + missing(j, rnd, 1)[:2]
        plan.append(["driver", dict(strings=ids(j, *want))])
        return Scenario(data, plan, "strings, world %d" % i)
    batch(ctx, amount(ctx, 200, 3000), make)


def c14(ctx):
    def make(rnd, i):
        if i % 3 == 2:
            j = full_world(rnd)
            data = j.encode()
            places, recs = mutate.layout(data)
            bounds = [r[1] for r in recs] + [p[1] for p in places]
            at = sorted({0, 1, 30, 31, len(data) - 1, len(data) - 9, len(data) - 10} | set(rnd.sample(bounds, 6)) | {rnd.randrange(len(data)) for _ in range(4)})
            return Scenario(data, [["cuts", dict(at=at, subs=["objects", "objects"] if rnd.random() < .5 else ["summary", "threads"])]], "cut dump, world %d" % i)
        j = tiny_world(rnd)
        data = j.encode()
        at = sorted({rnd.randrange(len(data)) for _ in range(3)} | {len(data) - 9})
        return Scenario(data, [["prefixes", dict(chunk=rnd.choice([0, 0, 1, 3, 7]))], ["cuts", dict(at=at, subs=["objects", "objects"])]], "every prefix, world %d" % i)
    model_dumps(ctx, 300, lambda rnd, d: [["verdict", dict(chunks=[rnd.choice(CHUNKS)], subs=[])], ["prefixes", dict(chunk=rnd.choice([0, 0, 1, 3, 7]))]])
    batch(ctx, amount(ctx, 60, 1200), make)


def c15(ctx):
    def make(rnd, i):
        style = i % 8
        subs = ["objects"] if rnd.random() < 0.7 else ["objects", "summary", "threads"]
        plan = [["verdict", dict(chunks=[rnd.choice([0, 0, 1, 3, 7])], subs=subs)]]
        if style == 0:  # well-formed
            j = rnd.choice([full_world, locals_world, objects_world, tiny_world])(rnd)
            return Scenario(j.encode(), plan, "well-formed dump %d" % i)
        j = (tiny_world if style < 6 else full_world if style == 6 else locals_world)(rnd)
        data, what = mutate.mutant(rnd, j.encode())
        if rnd.random() < 0.1:
            data, w2 = mutate.mutant_again(rnd, data)
            what += ", " + w2
        return Scenario(data, plan, "damaged dump %d (%s)" % (i, what))
    model_dumps(ctx, 1500, lambda rnd, d: [["verdict", dict(chunks=[rnd.choice([0, 1, 3, 7])], subs=["objects"] if rnd.random() < .3 else [])]])
    batch(ctx, amount(ctx, 480, 12000), make)


def c21(ctx):
    def make(rnd, i):
        of = rnd.choice([["objects"], ["summary"], ["threads"], ["objects", "summary", "threads"]])
        if i % 400 in (1, 2, 3, 4, 5):  # long reports
            j, of = [(rows_world, ["objects"]), (crowd_world, ["threads"]), (bag_world, ["threads"]), (deep_world, ["threads"]), (many_props_world, ["summary"])][i % 400 - 1]
            j = j(rnd, 1100)
            if "summary" in of:
                summary_parts(j, rnd)
            return Scenario(j.encode(), [["modes", dict(of=of)]], "output modes of a long report of %s" % of[0])
        j = full_world(rnd) if i % 3 else locals_world(rnd)
        if "summary" in of:
            summary_parts(j, rnd)
        return Scenario(j.encode(), [["modes", dict(of=of)]], "output modes of %s, world %d" % ("/".join(of), i))
    batch(ctx, amount(ctx, 160, 3000), make)


@kind
class Rendering(Request):
    module = "TraceFormat"


def random_descriptor(rnd, good=True):
    """a method descriptor; class names of any characters but ; and ["""
    chars = [chr(c) for c in range(33, 127) if chr(c) not in ";["] + ["/", "$", "(", ")", "L", "V", "é", "界", "\U0001f600", " ", "."]
    cname = lambda: "".join(rnd.choice(chars) for _ in range(rnd.choice([1, 2, 3, 8, 40])))
    ty = lambda: "[" * rnd.choice([0, 0, 0, 1, 2, 5]) + (rnd.choice("BCDFIJSZ") if rnd.random() < .5 else "L" + cname() + ";")
    m = "(" + "".join(ty() for _ in range(rnd.choice([0, 1, 2, 3, 10, 60]))) + ")" + (ty() if rnd.random() < .6 else "V")
    d = m if rnd.random() < .8 else ty()
    if not good:
        k = rnd.randrange(len(d) + 1)
        d = d[:k] if rnd.random() < .5 else d[:k] + rnd.choice("()[;LVX") + d[k:]
    return d


@kind
class Store(Request):
    """entries offered to the store of the index, and lookups in it"""
    module = "TraceStore"

    def observed(self, q, r):
        if "puts" not in r:
            return [dict(r, kind="panic")]
        b = lambda v: list(v.to_bytes(8, "big"))
        puts = [dict(p, key=b(k), val=b(v)) for p, (k, v) in zip(r["puts"], q["puts"])]
        return [dict(r, kind="store", batch=q["batch"], puts=puts)]


TOP = (1 << 64) - 1


def store_request(rnd, keys, batch):
    """keys: small numbers, mapped to real keys in the same order"""
    n = max(keys, default=0) + 1
    pool = {0, 1, 255, 256, (1 << 31) - 1, 1 << 31, 1 << 32, (1 << 63) - 1, 1 << 63, TOP - 1, TOP} if rnd.random() < .5 and n < 12 else set()
    while len(pool) < n:
        pool.add(rnd.randrange(1 << rnd.choice([8, 16, 32, 33, 63, 64])) if n < 100 else rnd.randrange(1 << 64))
    real = sorted(rnd.sample(sorted(pool), n))
    puts = [[real[k], rnd.choice([0, 1, TOP, rnd.randrange(1 << 64), i])] for i, k in enumerate(keys)]
    ask = {k + d for k in (real if n < 40 else rnd.sample(real, 20) + [real[0], real[-1]]) for d in (-1, 0, 1) if 0 <= k + d <= TOP}
    return dict(op="store", puts=puts, batch=batch, queries=sorted(ask | {0, TOP}))


def c02(ctx):
    out = ctx.model("MC_IndexStore", "MC_IndexStore.cfg" if ctx.quick else "MC_IndexStoreBig.cfg")
    seqs = sorted(set(printed(out, "PUTS")))
    ctx.notes["sequences_from_model"] = len(seqs)
    reqs = []
    for n, t in enumerate(seqs):
        q = json.loads(t)
        reqs.append(store_request(ctx.rnd("model", n), q["keys"], q["batch"]))
    scens = [Store(reqs[a:a + 50], "sequences of the model %d" % a) for a in range(0, len(reqs), 50)]
    for i in range(amount(ctx, 60, 1500)):
        rnd = ctx.rnd(i)
        rs = []
        for _ in range(4):
            n = rnd.choice([0, 1, 2, 5, 20, 50, 120] + ([300] if not ctx.quick else []))
            k, keys = 0, []
            for _ in range(n):
                keys.append(k)
                k += rnd.choice([0, 1, 1, 1]) if rnd.random() < .9 or not keys else 0
            if keys and rnd.random() < .4:  # backwards somewhere, just after a batch was written perhaps
                at = rnd.randrange(len(keys))
                keys[at] = rnd.randrange(keys[at] + 1)
            m = rnd.choice([1, 2, 3, 4, 7, 16, 33, max(1, n - 1), max(1, n), n + 1, 1000])
            rs.append(store_request(rnd, keys, m))
        scens.append(Store(rs, "random sequences %d" % i))
    conform(ctx, scens)


SIZES = sorted({0, 1, 9, 10, 1000, (1 << 53) - 1, (1 << 62), (1 << 63) - 1} | {b * k + d for b in (1 << 10, 1 << 20, 1 << 30, 1 << 40) for k in (1, 2, 1023) for d in (-1, 0, 1)})


def c22(ctx):
    out = ctx.model("MC_Format", "MC_Format.cfg" if ctx.quick else "MC_FormatBig.cfg")
    descs = [json.loads(s) for s in printed(out, "DESC")]
    ctx.notes["descriptors_from_model"] = len(descs)
    scens = [Rendering([dict(op="format", sigs=descs[a:a + 200])], "descriptors of the model %d" % a) for a in range(0, len(descs), 200)]
    for i in range(amount(ctx, 40, 1500)):
        rnd = ctx.rnd(i)
        names = [random_descriptor(rnd).strip("()") for _ in range(15)]
        sizes = [rnd.randrange(1 << rnd.randrange(1, 64)) for _ in range(20)] + (SIZES if i == 0 else [])
        scens.append(Rendering([dict(op="format", sigs=[list(random_descriptor(rnd, k % 5 > 0).encode()) for k in range(40)],
                                     classes=[list(n.encode()) for n in names], sizes=sizes)], "random descriptors, names and sizes %d" % i))
    conform(ctx, scens)


CONFORM = dict(C01=c01, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07, C08=c08, C09=c09, C10=c10, C11=c11, C12=c12, C13=c13, C14=c14, C15=c15, C21=c21)
NEEDS_DRIVER = {"C01", "C02", "C03", "C12", "C13", "C14", "C15", "C22", "C24"}
CHECKS = dict(CONFORM, C02=c02, C22=c22)


import cli  # noqa: E402
import hist  # noqa: E402
import layout  # noqa: E402
import live  # noqa: E402
import scale  # noqa: E402

CHECKS.update(C16=hist.c16, C17=hist.c17, C18=hist.c18, C19=hist.c19, C20=hist.c20, C23=live.c23, C24=scale.c24, C25=cli.c25, C26=layout.c26, C27=layout.c27)
