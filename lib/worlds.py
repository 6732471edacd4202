"""Dumps made for the different checks."""
from hprof import *
import hprof


def shrink_ids(j):
    j.idstyle = "small"
    return j


def objects_world(rnd, big=False):
    j = base(rnd)
    style = rnd.choice(["any", "any", "any", "none", "empty", "prims", "ties", "ties", "shares"])
    if style == "none":
        return j
    if style == "empty":  # nothing has a size
        for t in rnd.sample(PRIMS, rnd.randrange(1, 9)):
            for _ in range(rnd.choice([1, 2])):
                j.parr(t, [])
        if rnd.random() < 0.5:
            j.get("app/Zero", size=0)
            j.obj(j.byname["app/Zero"])
        return j
    if style == "shares":  # shares that are whole percents, or just not
        left = rnd.choice([50, 100, 100, 101, 99, 200])
        for k, n in enumerate(rnd.choice([[29, 57], [58, 14], [29, 1, 1, 19], [7, 28, 55], [left - 1], [1] * 9, [rnd.randrange(1, left // 2)]])):
            c = j.cls("p/P%d" % k, j.byname["java/lang/Object"], [], size=rnd.choice([8, 8, 29, 57, 58]))
            for _ in range(min(n, left)):
                j.obj(c)
            left -= min(n, left)
        for _ in range(left):
            j.parr(BYTE, [0] * 8)
        return j
    if style == "prims":
        for t in PRIMS:
            for _ in range(rnd.choice([0, 1, 2])):
                j.parr(t, [0] * rnd.choice([0, 1, 2, 3, 127, 128, 255, 256, 1023, 1024, 1025]) if not (t in (LONG, DOUBLE)) else [0] * rnd.choice([0, 1, 127, 128, 129]))
        return j
    if style == "ties":
        sz = rnd.choice([0, 16])
        for k in range(rnd.randrange(2, 9)):
            c = j.cls(rnd.choice(["t/T%d", "T%d", "t/T$%d", "tT%d"]) % rnd.randrange(30), j.byname["java/lang/Object"], [], size=sz)
            for _ in range(rnd.choice([1, 1, 2])):
                j.obj(c)
        for a in rnd.sample(["[Ljava/lang/String;", "[LT1;", "[[I", "[Lt/T2;"], 2):
            c = j.cls(a, j.byname["java/lang/Object"], [])
            for _ in range(rnd.choice([1, 2])):
                j.oarr(c, [0] * rnd.choice([1, 2, 4]))
        for t in rnd.sample(PRIMS, 4):
            j.parr(t, [0] * (16 // WIDTH[t]))
        return j
    add_objects(j, rnd.randrange(0, 14 if big else 7))
    if rnd.random() < 0.4:
        add_roots(j)
    return j


def full_world(rnd, coder=True):
    j = base(rnd, coder=coder)
    add_objects(j)
    t = add_threads(j)
    add_locals(j, t)
    add_roots(j)
    add_props(j, random_props(rnd, coder))
    add_uptime(j, j.ms - rnd.choice([0, 1, 12345, 86400000, rnd.randrange(1 << 33)]))
    return j


def locals_world(rnd):
    j = base(rnd)
    add_objects(j, rnd.randrange(1, 5))
    t = add_threads(j, rnd.randrange(1, 6))
    add_locals(j, t)
    if rnd.random() < 0.5:  # frames of a thread that is not shown
        for _ in range(3):
            j.roots.append((rnd.choice([2, 3]), rnd.choice(j.objs), rnd.choice([0x7000, 77777]), rnd.randrange(3)))
    add_roots(j)
    return j


def strings_world(rnd, shown=False):
    """strings of every sort; shown: without the ones a line of text cannot show"""
    j = base(rnd)
    alpha = [lambda: chr(rnd.randrange(32, 127)), lambda: chr(rnd.randrange(161, 256)), lambda: chr(rnd.choice([0x100, 0x7ff, 0x800, 0xfffd, 0xd7ff, 0xe000, 0x20ac, 0x3042])),
             lambda: chr(rnd.choice([0x10000, 0x10ffff, 0x1f600, 0x2f800])), lambda: chr(rnd.randrange(0x3041, 0xd7a0))]
    if not shown:
        alpha += [lambda: chr(rnd.randrange(0, 256)), lambda: chr(rnd.choice([0, 9, 10, 13, 27, 127, 128, 159, 160, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xffff]))]
    res = []
    for _ in range(rnd.randrange(2, 9)):
        fs = rnd.sample(alpha, rnd.randrange(1, len(alpha)))
        n = rnd.choice([0, 1, 2, 5, 30]) if shown or rnd.random() < 0.9 else rnd.choice([255, 256, 1000])
        res.append("".join(rnd.choice(fs)() for _ in range(n)))
    if rnd.random() < 0.3 and not shown:
        res.append("".join(map(chr, range(256))))
    return j, res


def tiny_world(rnd):
    """a few hundred bytes with records of every kind"""
    j = Jvm(rnd, rnd.choice([4, 8]))
    o = j.cls("O")
    c = j.cls("C", o, [("f", rnd.choice(PRIMS)), ("g", OBJECT)][:rnd.randrange(3)], statics=rnd.choice([[], [("s", rnd.choice(PRIMS), 1)]]), pool=rnd.choice([[], [(1, INT, 2)]]))
    for _ in range(rnd.randrange(3)):
        j.obj(c)
    if rnd.random() < 0.7:
        j.oarr(j.cls("[LO;", o), [0] * rnd.randrange(3))
    for _ in range(rnd.randrange(3)):
        t = rnd.choice(PRIMS)
        j.parr(t, [0] * rnd.randrange(4))
    if rnd.random() < 0.6:
        f = j.newid()
        j.frames.append(dict(id=f, method=j.name("m"), sig=j.name("()V"), source=0, cls=o.serial, line=3))
        j.traces.append(dict(serial=1, thread=1, frames=[f] * rnd.randrange(3)))
    for k in rnd.sample([1, 2, 3, 4, 5, 6, 7, 8, 255], rnd.randrange(5)):
        j.roots.append((k, rnd.randrange(1, 1 << 31), rnd.randrange(5), rnd.randrange(5)))
    return j


def deep_world(rnd, depth=None):
    """threads with deep stacks and locals all along"""
    j = base(rnd)
    j.idstyle = "mixed"
    add_objects(j, 2)
    th = j.byname["java/lang/Thread"]
    depth = depth or rnd.choice([254, 255, 256, 257, 300, 513])
    pool = []
    for k in range(40):
        pool.append(dict(id=j.newid(), method=j.name("m%d" % k), sig=j.name(rnd.choice(DESCS)), source=j.name("S%d.java" % (k % 7)), cls=rnd.choice([c for c in j.classes if c.name[0] != "["]).serial, line=rnd.randrange(1, 70000)))
    j.frames += pool
    o = [j.obj(j.byname["java/lang/Object"]) for _ in range(3)] + [j.parr(INT, [])]
    for n, d in enumerate([depth, rnd.choice([0, 2, depth + 1])]):
        t = j.obj(th, name=j.string("deep %d" % n), tid=n + 5, daemon=n, priority=5, threadStatus=5)
        j.traces.append(dict(serial=n + 10, thread=n + 1, frames=[rnd.choice(pool)["id"] for _ in range(d)]))
        j.roots.append((8, t, n + 1, n + 10))
        for p in {0, 1, 126, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, d - 1, d - 2} | {rnd.randrange(depth) for _ in range(5)}:
            if 0 <= p < d:
                j.roots.append((rnd.choice([2, 3, 3]), rnd.choice(o), n + 1, p))
    return j


def rows_world(rnd, n):
    """n classes with instances, in equal numbers many of them"""
    j = base(rnd)
    j.segments = 1
    root = j.byname["java/lang/Object"]
    for k in rnd.sample(range(5 * n), n):
        c = j.cls(rnd.choice(["r/R%d", "R%d", "r/<R>%d"]) % k, root, [], size=rnd.choice([0, 8, 8, 16, 24]))
        for _ in range(rnd.choice([1, 1, 1, 2])):
            j.obj(c)
    return j


def bag_world(rnd, n):
    """frames with many locals, and a thread whose locals come in between those of another one"""
    j = base(rnd)
    add_objects(j, 3)
    t = []
    while len(t) < 2:
        t = add_threads(j, 3)
    o = j.objs + j.classes
    fs = [(st["thread"], p) for _, st in t for p in range(len(st["frames"]))] or [(1, 0)]
    hot = rnd.choice(fs)
    for _ in range(n):
        ser, pos = hot if rnd.random() < .8 else rnd.choice(fs)
        j.roots.append((rnd.choice([2, 3, 3, 3]), rnd.choice(o), ser, pos))
    return j


def crowd_world(rnd, n=None):
    """many threads"""
    j = base(rnd)
    th = j.byname["java/lang/Thread"]
    f = dict(id=j.newid(), method=j.name("run"), sig=j.name("()V"), source=j.name("A.java"), cls=th.serial, line=7)
    j.frames.append(f)
    n = n or rnd.choice([100, 130, 200, 257])
    tids = rnd.sample(range(1, 2 * n), n - 6) + [1 << 33, (1 << 33) + 1, 1 << 40, (1 << 62) + 3, 1 << 31, (1 << 32) - 1]
    for k, tid in enumerate(tids):
        t = j.obj(th, name=j.string("t%d" % (k % 9)), tid=tid, daemon=k & 1, priority=1 + k % 10, threadStatus=rnd.choice(STATUSES))
        j.traces.append(dict(serial=k + 1, thread=k + 1, frames=[f["id"]] * (k % 3)))
        j.roots.append((8, t, k + 1, k + 1))
    return j


def long_world(rnd):
    """every report of it is long"""
    j = full_world(rnd)
    root = j.byname["java/lang/Object"]
    for k in range(rnd.choice([150, 1200])):
        j.obj(j.cls("long/Row%d" % k, root, [], size=rnd.choice([8, 16])))
    th = j.byname["java/lang/Thread"]
    for k in range(rnd.choice([40, 300])):
        t = j.obj(th, name=j.string("long %d" % k), tid=k + 5000, daemon=k & 1, priority=5, threadStatus=rnd.choice(STATUSES))
        j.traces.append(dict(serial=k + 5000, thread=k + 5000, frames=[j.frames[0]["id"]] * 3 if j.frames else []))
        j.roots.append((8, t, k + 5000, k + 5000))
        j.roots.append((3, t, k + 5000, k % 3))
    return j


def wide_world(rnd):
    """classes with many fields, statics and constants, and many ancestors; long arrays"""
    j = base(rnd)
    up = j.byname["java/lang/Object"]
    e = Enc(j.idn)
    n = rnd.choice([127, 128, 255, 256, 257, 300])
    val = lambda t: b"\x01" + bytes(rnd.randrange(256) for _ in range(e.width(t) - 1))
    ty = lambda: rnd.choice([OBJECT] + PRIMS)
    wide = j.cls("w/Wide", up, [("w%d" % k, ty()) for k in range(n)], [("s%d" % k, t, val(t)) for k, t in enumerate(ty() for _ in range(n))],
                 pool=[(k, t, bytes(e.width(t))) for k, t in enumerate(ty() for _ in range(n))])
    for k in range(rnd.choice([9, 40, 70])):
        wide = j.cls("w/Heir%d" % k, wide, [("h%d" % (k % 6), ty())] if k % 3 == 0 else [])
    j.wide = [j.obj(wide), j.obj(j.byname["w/Wide"])]
    a = j.cls("[Lw/Wide;", up, [])
    for n in rnd.sample([255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 4100], 3):
        j.oarr(a, [rnd.choice([0, rnd.randrange(1, 1 << 31)]) for _ in range(n)])
    j.parr(LONG, [rnd.randrange(1 << 60) for _ in range(600)])
    return j


def many_props_world(rnd, n):
    j = base(rnd)
    add_props(j, random_props(rnd) + [("many.%d" % k, "value %d" % rnd.randrange(9)) for k in range(n)])
    return j
