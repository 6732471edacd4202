"""HPROF dumps as data: records, an encoder, and a generator of dumped JVMs.

A dump is a list of top-level records; a heap dump segment holds sub-records.
The encoder knows nothing about the program under test.
"""
import struct

MAGIC = b"JAVA PROFILE 1.0.2\0"
OBJECT, BOOL, CHAR, FLOAT, DOUBLE, BYTE, SHORT, INT, LONG = 2, 4, 5, 6, 7, 8, 9, 10, 11
WIDTH = {BOOL: 1, CHAR: 2, FLOAT: 4, DOUBLE: 8, BYTE: 1, SHORT: 2, INT: 4, LONG: 8}
PRIMS = [BOOL, CHAR, FLOAT, DOUBLE, BYTE, SHORT, INT, LONG]
LETTER = {BOOL: "Z", CHAR: "C", FLOAT: "F", DOUBLE: "D", BYTE: "B", SHORT: "S", INT: "I", LONG: "J"}


class Enc:
    def __init__(self, idn):
        self.idn = idn

    def id(self, v):
        return (v % (1 << (8 * self.idn))).to_bytes(self.idn, "big")

    def width(self, ty):
        return self.idn if ty == OBJECT else WIDTH[ty]

    def val(self, ty, v):
        if isinstance(v, (bytes, bytearray)):
            assert len(v) == self.width(ty)
            return bytes(v)
        if ty == FLOAT:
            return struct.pack(">f", v)
        if ty == DOUBLE:
            return struct.pack(">d", v)
        return (int(v) % (1 << (8 * self.width(ty)))).to_bytes(self.width(ty), "big")

    def header(self, ms):
        return MAGIC + struct.pack(">I", self.idn) + struct.pack(">Q", ms)

    def top(self, tag, body, length=None, time=0):
        return bytes([tag]) + struct.pack(">II", time, len(body) if length is None else length) + body

    def utf8(self, id, text):
        return self.top(1, self.id(id) + text)

    def load(self, serial, cls, trace, name):
        return self.top(2, u4(serial) + self.id(cls) + u4(trace) + self.id(name))

    def frame(self, id, method, sig, source, clsserial, line):
        return self.top(4, self.id(id) + self.id(method) + self.id(sig) + self.id(source) + u4(clsserial) + u4(line))

    def trace(self, serial, thread, frames):
        return self.top(5, u4(serial) + u4(thread) + u4(len(frames)) + b"".join(map(self.id, frames)))

    def end(self):
        return self.top(44, b"")

    # sub-records
    def root(self, kind, obj, a=0, b=0):
        r = bytes([kind]) + self.id(obj)
        if kind == 1:
            return r + self.id(a)
        if kind in (2, 3, 8):
            return r + u4(a) + u4(b)
        if kind in (4, 6):
            return r + u4(a)
        return r

    def classdump(self, id, trace, sup, loader, signers, domain, size, pool, statics, fields, reserved=(0, 0)):
        r = b"\x20" + self.id(id) + u4(trace) + b"".join(
            self.id(x) for x in (sup, loader, signers, domain) + tuple(reserved)) + u4(size)
        r += u2(len(pool)) + b"".join(u2(i) + bytes([t]) + self.val(t, v) for i, t, v in pool)
        r += u2(len(statics)) + b"".join(self.id(n) + bytes([t]) + self.val(t, v) for n, t, v in statics)
        r += u2(len(fields)) + b"".join(self.id(n) + bytes([t]) for n, t in fields)
        return r

    def inst(self, id, trace, cls, data):
        return b"\x21" + self.id(id) + u4(trace) + self.id(cls) + u4(len(data)) + data

    def oarr(self, id, trace, cls, elems):
        return b"\x22" + self.id(id) + u4(trace) + u4(len(elems)) + self.id(cls) + b"".join(map(self.id, elems))

    def parr(self, id, trace, ty, elems):
        return b"\x23" + self.id(id) + u4(trace) + u4(len(elems)) + bytes([ty]) + b"".join(self.val(ty, e) for e in elems)


def u4(v):
    return struct.pack(">I", v % (1 << 32))


def u2(v):
    return struct.pack(">H", v)


class Cls:
    def __init__(self, name, sup, fields, statics=(), size=None, pool=()):
        self.name, self.sup, self.fields = name, sup, list(fields)
        self.statics, self.size, self.pool = list(statics), size, list(pool)
        self.id = self.serial = None
        self.nameid = None
        self.loads = 1

    def chain(self):
        c = self
        while c is not None:
            yield c
            c = c.sup


class Obj:
    kind = "inst"

    def __init__(self, cls, vals):
        self.cls, self.vals, self.id = cls, vals, None


class OArr(Obj):
    kind = "oarr"

    def __init__(self, cls, elems):
        self.cls, self.elems, self.id = cls, elems, None


class PArr(Obj):
    kind = "parr"

    def __init__(self, ty, elems):
        self.ty, self.elems, self.id = ty, elems, None


class Jvm:
    """A dumped JVM under construction; `encode` writes it in a random legal order."""

    def __init__(self, rnd, idn=8, ms=None):
        self.rnd, self.idn = rnd, idn
        self.ms = ms if ms is not None else rnd.choice([0, 1, 1700000000123, 0x1_8000_0000, 0x18f_ffff_ffff, rnd.randrange(0, 1 << 42)])
        self.classes, self.objs, self.roots, self.frames, self.traces = [], [], [], [], []
        self.byname = {}
        self.strids, self.used = {}, {0}
        self.extra_names = []
        self.serial = rnd.choice([1, 1, 7, 0x7ffffff0, 0xfffff000])
        self.segments = rnd.choice([1, 1, 2, 3])
        self.idstyle = rnd.choice(["small", "mixed", "high", "mixed"])
        self.noise = 0.0
        self.floor = 0  # no id is below

    # ids -----------------------------------------------------------------
    def newid(self):
        top = 1 << (8 * self.idn)
        for k in range(1000000):
            s = self.idstyle if k < 200 else "any"  # there may be no more ids of the style
            if s == "mixed":
                s = self.rnd.choice(["small", "high", "mid", "any"])
            if s == "small":
                v = self.rnd.randrange(1, 4096)
            elif s == "high":
                v = top - self.rnd.randrange(1, 70000)
            elif s == "mid":
                v = (1 << self.rnd.randrange(8, 8 * self.idn)) + self.rnd.randrange(-2, 3)
            else:
                v = self.rnd.randrange(1, top)
            if v < self.floor:
                v += self.floor
            if v not in self.used and 0 < v < top:
                self.used.add(v)
                return v

    def name(self, text):
        if isinstance(text, str):
            text = text.encode("utf-8")
        if text not in self.strids:
            self.strids[text] = self.newid()
        return self.strids[text]

    # classes and objects ----------------------------------------------------
    def cls(self, name, sup=None, fields=(), statics=(), size=None, pool=(), key=None):
        c = Cls(name, sup, fields, statics, size, pool)
        c.id = self.newid()
        c.nameid = self.name(name)
        c.serial = self.serial
        self.serial += 1
        if c.size is None:
            c.size = self.rnd.choice([0, 8, 16, 24, 40, self.rnd.randrange(0, 2000)])
        self.classes.append(c)
        self.byname.setdefault(key or name, c)
        return c

    def get(self, name, sup="java/lang/Object", fields=(), **kw):
        if name not in self.byname:
            self.cls(name, self.byname.get(sup), fields, **kw)
        return self.byname[name]

    def obj(self, cls, **vals):
        o = Obj(cls, vals)
        self.objs.append(o)
        return o

    def oarr(self, cls, elems):
        o = OArr(cls, list(elems))
        self.objs.append(o)
        return o

    def parr(self, ty, elems):
        o = PArr(ty, list(elems))
        self.objs.append(o)
        return o

    def string(self, text):
        """a java.lang.String with the text (str; any code points, lone surrogates not)"""
        units = text.encode("utf-16-le", "surrogatepass")
        latin = all(ord(c) < 256 for c in text) and self.rnd.random() < 0.9
        coder = 0 if latin else 1
        data = text.encode("latin-1") if latin else units
        c = self.byname["java/lang/String"]
        has_coder = any(n == "coder" for n, _ in c.fields)
        if not has_coder:
            assert all(ord(ch) < 256 for ch in text)
            data, coder = text.encode("latin-1"), 0
        a = self.parr(BYTE, list(data))
        return self.obj(c, value=a, coder=coder, hash=self.rnd.randrange(1 << 32), hashIsZero=0)

    def ref(self, v):
        if v is None:
            return 0
        if isinstance(v, (Obj, Cls)):
            if v.id is None:
                raise ValueError("no id yet")
            return v.id
        return v

    # encoding ---------------------------------------------------------------
    def assign_ids(self):
        """ids of the objects of each kind ascend in dump order; order is the order of creation, shuffled"""
        self.rnd.shuffle(self.objs)
        for kind in ("inst", "oarr", "parr"):
            os = [o for o in self.objs if o.kind == kind]
            free = [o for o in os if o.id is None]
            ids = sorted([self.newid() for _ in free])
            for o, i in zip(free, ids):
                o.id = i
            os.sort(key=lambda o: o.id)
            it = iter(os)
            self.objs = [next(it) if o.kind == kind else o for o in self.objs]

    def data(self, e, o):
        out = b""
        for depth, c in enumerate(o.cls.chain()):
            for n, t in c.fields:
                key = n if isinstance(n, str) else n.decode()
                v = o.vals.get((c.name, key), o.vals.get(key))
                # a field shadowed by a more derived class keeps its own value
                if depth and v is not None and (c.name, key) not in o.vals and any(
                        (nn if isinstance(nn, str) else nn.decode()) == key
                        for d, cc in enumerate(o.cls.chain()) if d < depth for nn, _ in cc.fields):
                    v = None
                if v is None and key not in o.vals:
                    v = self.filler(e, t)
                if t == OBJECT:
                    v = self.ref(v) if not isinstance(v, bytes) else v
                out += e.val(t, 0 if v is None else v)
        return out

    def filler(self, e, t):
        if t == OBJECT:
            return self.rnd.choice([0, self.rnd.randrange(1, 1 << 31)])
        if t == BOOL:
            return self.rnd.choice([0, 1])
        w = e.width(t)
        return self.rnd.choice([bytes(w), b"\xff" * w, bytes(self.rnd.randrange(256) for _ in range(w))])

    def encode(self):
        e = Enc(self.idn)
        rnd = self.rnd
        if any(o.id is None for o in self.objs):
            self.assign_ids()
        tops, segs = [], []
        for c in self.classes:
            for k in range(c.loads):
                tops.append(e.load(c.serial + 1000 * k, c.id, rnd.choice([0, 1, 0xffffffff]), c.nameid))
            pool = [(i, t, v) for i, t, v in c.pool]
            statics = [(self.name(n), t, self.ref(v) if t == OBJECT and not isinstance(v, bytes) else v) for n, t, v in c.statics]
            fields = [(self.name(n), t) for n, t in c.fields]
            segs.append(e.classdump(c.id, rnd.randrange(3), c.sup.id if c.sup else 0, rnd.choice([0, rnd.randrange(1 << 31)]),
                                    0, rnd.choice([0, 5]), c.size, pool, statics, fields))
        for f in self.frames:
            tops.append(e.frame(f["id"], f["method"], f["sig"], f["source"], f["cls"], f["line"]))
        for t in self.traces:
            tops.append(e.trace(t["serial"], t["thread"], t["frames"]))
        for r in self.roots:
            segs.append(e.root(r[0], self.ref(r[1]), self.ref(r[2]) if len(r) > 2 else 0, r[3] if len(r) > 3 else 0))
        objs = []
        for o in self.objs:
            tr = rnd.choice([0, 1, 0xffffffff, rnd.randrange(1 << 32)])
            if o.kind == "inst":
                objs.append(e.inst(o.id, tr, o.cls.id, self.data(e, o)))
            elif o.kind == "oarr":
                objs.append(e.oarr(o.id, tr, o.cls.id, [self.ref(x) for x in o.elems]))
            else:
                objs.append(e.parr(o.id, tr, o.ty, o.elems))
        for text, i in self.strids.items():
            tops.append(e.utf8(i, text))
        for text in self.extra_names:
            tops.append(e.utf8(self.newid(), text))
        rnd.shuffle(tops)
        # merge the objects (in order) with the other sub-records (any order)
        rnd.shuffle(segs)
        subs = merge(rnd, objs, segs)
        out = e.header(self.ms) + b"".join(tops)
        cuts = sorted(rnd.randrange(len(subs) + 1) for _ in range(self.segments - 1))
        parts = [subs[a:b] for a, b in zip([0] + cuts, cuts + [len(subs)])]
        for p in parts:
            body = b"".join(p)
            out += e.top(28, b"", length=rnd.choice([len(body), len(body), 0])) + body
        return out + e.end()


def merge(rnd, a, b):
    a, b, out = list(a), list(b), []
    while a or b:
        if a and (not b or rnd.random() < len(a) / (len(a) + len(b))):
            out.append(a.pop(0))
        else:
            out.append(b.pop(0))
    return out


# --------------------------------------------------------------------------
def base(rnd, idn=None, coder=True, shuffle_fields=True):
    """a JVM with java.lang.Object, Class, String and Thread in it"""
    j = Jvm(rnd, idn or rnd.choice([4, 8, 8]))
    obj = j.cls("java/lang/Object")
    sf = [("value", OBJECT), ("hash", INT), ("hashIsZero", BOOL)] + ([("coder", BYTE)] if coder else [])
    if shuffle_fields:
        rnd.shuffle(sf)
    j.cls("java/lang/String", obj, sf)
    tf = [("name", OBJECT), ("priority", INT), ("daemon", BOOL), ("tid", LONG), ("threadStatus", INT), ("eetop", LONG), ("group", OBJECT)]
    if shuffle_fields:
        rnd.shuffle(tf)
    j.cls("java/lang/Thread", obj, tf)
    return j


NASTY = ["<b>x</b>", "a&b;&lt;", "\"quoted\"", "it's", "100%d%s", "a  b", "ünïcödé", "日本語", "🙂 ok", "<script>alert(1)</script>",
         "a|b | c", "x: y", "<!-- c -->", "tab\there", "$1\\n", "{{.Title}}", "</td><td>", "`q`", "é", "ÿ", ""]
STATUSES = [0x5, 0x1 | 0x400, 0x1 | 0x80 | 0x10, 0x1 | 0x80 | 0x20 | 0x40, 0x2, 0x0, 0x191, 0x1a1, 0xe1, 0x405, 0x11 | 0x200, 0x401 | 0x20, 0x32]
DESCS = ["()V", "(I)V", "(ILjava/lang/String;[[J)Ljava/util/List;", "([Ljava/lang/Object;)[[I", "(BCDFIJSZ)Z", "([[[Lx/Y$Z;BLa;)[Lb/C;",
         "(LI;LV;)LL;", "(Ljava/lang/ClassLoader;[Ljava/lang/Class;)J", "(DD[D[[DLdouble;)F",
         "(L<i>;[La&amp;)Lx/<b>;"]


# text that looks like something which might be treated in a special way, with markup in it
HEADS = ["http://", "https://java.com/", "file:/", "/usr/lib/", "C:\\", "--", "-D", "true", "false", "null", "0x1F", "-1", "1e9", "user@host", "{", "[", "(", "'", "#", "javascript:",
         "data:,", "&", "\\u0041", "www.", "1.8.0_292-b10", "java.", "pool-1-thread-", "main", "%", "*", "~", "_", "**", "lib.jar:", "2020-01-01T", "password", "...", "…"]
PIECES = ["<", "<a", "</", "<b", "&lt", "&#", "&amp", "&", ">", "-->", "<!--", "<!", "<?", "]]>", "\"", "'", "\">", "'>", "<p>", "</p>", "</span>", "<br>", "{{", "}}", "`", "", "", "x"]
TAILS = ["", "", ".jar", ".java", ">", ")", "]", "}", "/", "%", "?x=1&y=2", "#f", ";", ":8080", "=", " (1)", "$1", "@2a", "\\"]
REALKEYS = ["java.class.path", "java.vendor.url", "user.dir", "file.separator", "path.separator", "java.library.path", "sun.java.command", "user.timezone", "java.runtime.version", "sun.jnu.encoding"]


def shaped(rnd):
    return rnd.choice(HEADS) + rnd.choice(PIECES) + rnd.choice(["", "", "b", "1", " "]) + rnd.choice(PIECES) + rnd.choice(TAILS)


def text(rnd):
    r = rnd.random()
    if r < 0.2:
        return shaped(rnd)
    if r < 0.45:
        return rnd.choice(NASTY)
    if r < 0.8:
        return "".join(rnd.choice("abcXYZ019-_. #/") for _ in range(rnd.randrange(0, 14)))
    return "".join(chr(rnd.choice([rnd.randrange(0xa1, 0x100), rnd.randrange(0x100, 0x2000), rnd.randrange(0x4e00, 0x9fff), rnd.randrange(0x1f300, 0x1f640)]))
                   for _ in range(rnd.randrange(1, 8)))


def classname(rnd, k):
    return rnd.choice(["app/C%d", "com/acme/Foo$%d", "X%d", "org/λ/日本%d", "a/b/c/D$Inner%d", "L/I/V%d", "p/Has (paren) %d", "app/C<%d>&x", "app/<k>%d&lt", "x<y%d", "a</%d", "Q&#%d", "k/Iface%d$$Lambda"]) % k


def add_objects(j, n=None):
    """classes with instances and arrays of all kinds"""
    rnd = j.rnd
    root = j.byname["java/lang/Object"]
    n = n if n is not None else rnd.randrange(0, 6)
    cs = []
    for k in range(n):
        sup = rnd.choice([root] + cs)
        fields = [("f%d" % rnd.randrange(4), rnd.choice([OBJECT] + PRIMS)) for _ in range(rnd.randrange(0, 5))]
        seen, ff = set(), []
        for f in fields:
            if f[0] not in seen:
                seen.add(f[0])
                ff.append(f)
        statics = [("s%d" % i, t, b"\x01" + bytes(j.rnd.randrange(256) for _ in range(Enc(j.idn).width(t) - 1)))
                   for i, t in enumerate(rnd.choice([[], [OBJECT, BOOL], PRIMS]))]
        pool = [(i + 5, t, bytes(Enc(j.idn).width(t))) for i, t in enumerate(rnd.choice([[], [], [INT, OBJECT, DOUBLE]]))]
        c = j.cls(classname(rnd, k) if rnd.random() < 0.9 or not cs else cs[0].name, sup, ff, statics,
                  size=rnd.choice([0, 0, 1, 8, 16, 24, 1023, 1024, 1048576, 2147483647, rnd.randrange(5000)]), pool=pool, key="obj%d" % k)
        if rnd.random() < 0.1:
            c.loads = 2
        cs.append(c)
        for _ in range(rnd.choice([0, 1, 1, 2, 3, 7])):
            j.obj(c)
    arrs = rnd.sample(["[Ljava/lang/String;", "[[Ljava/lang/Object;", "[[I", "[[[Z", "[Lapp/C0;", "[L<i>/&amp;", "[Lp/Has (paren) 1;", "[Ljava/util/Map$Entry;", "[Lλ/日本;"], rnd.randrange(0, 4))
    for a in arrs:
        c = j.cls(a, root, [])
        for _ in range(rnd.choice([0, 1, 2, 4])):
            j.oarr(c, [rnd.choice([0, rnd.randrange(1 << 31)]) for _ in range(rnd.choice([0, 0, 1, 3, 9]))])
    for t in rnd.sample(PRIMS, rnd.randrange(0, 9)):
        for _ in range(rnd.choice([0, 1, 2, 3])):
            j.parr(t, [rnd.randrange(0, 1 << 7) if t not in (BOOL,) else rnd.randrange(2) for _ in range(rnd.choice([0, 0, 1, 2, 5, 17]))])
    return cs


def add_threads(j, n=None, status=None, stacks=True):
    rnd = j.rnd
    th = j.byname["java/lang/Thread"]
    subs = [th]
    for k in range(rnd.randrange(0, 3)):
        fields = [("x%d" % k, rnd.choice([OBJECT] + PRIMS)) for _ in range(rnd.randrange(0, 3))][:1]
        if rnd.random() < 0.2:
            fields.append(("daemonX", BOOL))
        subs.append(j.cls("app/Worker%d" % k, rnd.choice(subs), fields))
    n = n if n is not None else rnd.randrange(0, 5)
    threads = []
    tids = set()
    serials = set()
    pool = []
    if stacks:
        cs = [c for c in j.classes if not c.name.startswith("[")]
        for k in range(rnd.randrange(1, 7)):
            line = rnd.choice([1, 42, 65535, 0x7fffffff, -1, -1, -2, -3, rnd.randrange(1, 5000)])
            pool.append(dict(id=j.newid(), method=rnd.choice([j.name(rnd.choice(["run", "<init>", "<clinit>", "lambda$main$0", "méthode", "a<b>&c", "x&gt;", "<", "a<b", "</", "&lt", "<a", ">"])), j.name("m%d" % k), j.newid()] if rnd.random() < 0.3 else [j.name("run"), j.name("<init>"), j.name("m%d" % k)]),
                             sig=j.name(rnd.choice(DESCS)) if rnd.random() < 0.93 else j.newid(),
                             source=rnd.choice([j.name("Foo.java"), j.name("Bär <1>.kt"), j.name("<generated>"), j.name("a&lt;b</p>"), j.name(rnd.choice(["<b", "a</", "&#", "x>", "-->", "a\"b'"])), j.name("X"), 0, j.newid()]),
                             cls=rnd.choice(cs).serial, line=line))
        j.frames += pool
    serial = rnd.choice([1, 1, 2, 1000, 0xfffffff0])
    order = list(range(n))
    rnd.shuffle(order)
    for k in range(n):
        while True:
            tid = rnd.choice([rnd.randrange(1, 60), rnd.randrange(1, 60), rnd.randrange(1, 1 << 62), -rnd.randrange(1, 1000), (1 << 63) - 1, -(1 << 63), 1 << 32])
            if tid not in tids:
                tids.add(tid)
                break
        nm = j.string(text(rnd))
        t = j.obj(rnd.choice(subs), name=nm, tid=tid, daemon=rnd.choice([0, 1]), priority=rnd.choice([1, 5, 10, 7, 2147483647, -1]),
                  threadStatus=status if status is not None else rnd.choice(STATUSES))
        ser = serial + order[k]
        st = dict(serial=rnd.choice([ser + 1, 1, ser]), thread=ser, frames=[rnd.choice(pool)["id"] for _ in range(rnd.choice([0, 1, 2, 5, 9]))] if pool else [])
        j.traces.append(st)
        j.roots.append((8, t, ser, st["serial"]))
        threads.append((t, st))
    if rnd.random() < 0.5:
        j.traces.append(dict(serial=1, thread=0, frames=[]))
    return threads


def add_locals(j, threads):
    rnd = j.rnd
    cands = [o for o in j.objs] + [c for c in j.classes]
    for t, st in threads:
        depth = len(st["frames"])
        for _ in range(rnd.choice([0, 1, 2, 5])):
            kind = rnd.choice([2, 3, 3])
            pos = rnd.choice([0, rnd.randrange(0, depth + 1), 0xffffffff, rnd.randrange(0, depth + 1)])
            j.roots.append((kind, rnd.choice(cands), st["thread"], pos))


def add_roots(j):
    rnd = j.rnd
    cands = [o for o in j.objs] + list(j.classes)
    if not cands:
        return
    for kind in rnd.sample([1, 4, 5, 6, 7, 255], rnd.randrange(0, 7)):
        for _ in range(rnd.choice([1, 1, 2, 5])):
            j.roots.append((kind, rnd.choice(cands), rnd.randrange(1 << 31)))


def jhash(s):
    h = 0
    for u in range(0, len(b := s.encode("utf-16-be")), 2):
        h = (31 * h + b[u] * 256 + b[u + 1]) & 0xffffffff
    return h


def add_props(j, props, cap=None, style="hash"):
    """System.props with the pairs, in a table of the given capacity"""
    rnd = j.rnd
    root = j.byname["java/lang/Object"]
    cap = cap or rnd.choice([1, 2, 8, 16, 64])
    mix = lambda fs: (rnd.shuffle(fs), fs)[1]
    node = j.get("java/util/concurrent/ConcurrentHashMap$Node", fields=mix([("hash", INT), ("key", OBJECT), ("val", OBJECT), ("next", OBJECT)]))
    tnode = j.get("java/util/concurrent/ConcurrentHashMap$TreeNode", "java/util/concurrent/ConcurrentHashMap$Node",
                  mix([("parent", OBJECT), ("left", OBJECT), ("right", OBJECT), ("prev", OBJECT), ("red", BOOL)]))
    tbin = j.get("java/util/concurrent/ConcurrentHashMap$TreeBin", "java/util/concurrent/ConcurrentHashMap$Node",
                 mix([("root", OBJECT), ("first", OBJECT), ("waiter", OBJECT), ("lockState", INT)]))
    chm = j.get("java/util/concurrent/ConcurrentHashMap", fields=mix([("table", OBJECT), ("sizeCtl", INT), ("baseCount", LONG), ("nextTable", OBJECT)]))
    htab = j.get("java/util/Hashtable", fields=mix([("count", INT), ("table", OBJECT), ("threshold", INT)]))
    pcls = j.get("java/util/Properties", "java/util/Hashtable", mix([("map", OBJECT), ("defaults", OBJECT)]))
    arr = j.get("[Ljava/util/concurrent/ConcurrentHashMap$Node;")
    buckets = [[] for _ in range(cap)]
    for k, v in props:
        h = jhash(k)
        h = (h ^ (h >> 16)) & 0x7fffffff
        i = 0 if style == "one" else h % cap
        buckets[i].append((k, v, h))
    heads = []
    for b in buckets:
        tree = bool(b) and (len(b) >= 8 or rnd.random() < 0.15)
        nodes = [j.obj(tnode if tree else node, key=j.string(k), val=j.string(v), hash=h, next=None) for k, v, h in b]
        for a, c in zip(nodes, nodes[1:]):
            a.vals["next"] = c
        if not nodes:
            heads.append(None)
        elif tree:
            rt = rnd.choice(nodes)
            heads.append(j.obj(tbin, root=rt, first=nodes[0], waiter=None, key=None, val=None, next=None, hash=-2))
        else:
            heads.append(nodes[0])
    table = j.oarr(arr, heads)
    m = j.obj(chm, table=table, nextTable=None)
    p = j.obj(pcls, map=m, defaults=None, **{})
    statics = [("security", OBJECT, None), ("in", OBJECT, 77), ("props", OBJECT, p), ("lineSeparator", OBJECT, None)]
    rnd.shuffle(statics)
    j.cls("java/lang/System", root, [], statics)


def add_uptime(j, start):
    rnd = j.rnd
    root = j.byname["java/lang/Object"]
    f = [("jvm", OBJECT), ("vmStartupTime", LONG), ("x", INT)]
    rnd.shuffle(f)
    r = j.cls("sun/management/RuntimeImpl", root, f)
    sub = j.cls("sun/management/RuntimeImplX", r, [("y", rnd.choice(PRIMS))]) if rnd.random() < 0.4 else r
    bean = j.obj(sub, vmStartupTime=start)
    statics = [("runtimeMBean", OBJECT, bean), ("classMBean", OBJECT, 3), ("n", INT, 5)]
    rnd.shuffle(statics)
    j.cls("sun/management/ManagementFactoryHelper", root, [], statics)


ENVKEYS = ["os.name", "os.arch", "java.home", "java.version", "java.vm.name", "java.vm.version", "java.vm.info", "java.vm.vendor"]
COLLIDE = ["AaAa", "BBBB", "AaBB", "BBAa", "AaAaAa", "BBBBBB", "AaAaBB", "AaBBAa", "BBAaAa", "BBBBAa", "BBAaBB", "AaBBBB"]


def random_props(rnd, coder=True):
    keys = [k for k in ENVKEYS if rnd.random() < 0.8]
    keys += rnd.sample(COLLIDE, rnd.choice([0, 2, 4, 9, 12]))
    keys += ["line.separator"] if rnd.random() < 0.5 else []
    keys += ["p.%d" % k for k in range(rnd.choice([0, 1, 5]))]
    if coder and rnd.random() < 0.5:
        keys += ["ключ.%d" % rnd.randrange(9), "k<e>y&", "a b"] + rnd.sample(["a", "a ", "a  ", "b:", "b: c", "", "c.", "C."], rnd.randrange(4))
    keys += rnd.sample(REALKEYS, rnd.choice([0, 0, 3]))
    rnd.shuffle(keys)
    vals = {"line.separator": rnd.choice(["\n", "\n", "\r\n", "\r"])}
    mk = lambda: text(rnd) if coder else "".join(rnd.choice("abcdéÿ <&>") for _ in range(rnd.randrange(9)))
    return [(k, vals.get(k) or mk().replace("\t", " ")) for k in keys]
