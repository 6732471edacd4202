"""Damaged dumps: where the records of a dump are, and ways to damage them."""
import struct

from hprof import WIDTH, OBJECT


def layout(data):
    """[(offset, length, kind, what)] of the interesting places of a well-formed dump:
    tags, lengths, kinds, types, counts and whole records"""
    idn = struct.unpack(">I", data[19:23])[0]
    places, recs = [("magic", 0, 19), ("idsize", 19, 4), ("time", 23, 8)], []
    p = 31
    w = lambda t: idn if t == OBJECT else WIDTH[t]
    be = lambda a, n: int.from_bytes(data[a:a + n], "big")
    while p < len(data):
        tag = data[p]
        places += [("tag", p, 1), ("length", p + 5, 4)]
        if tag == 28:
            start, p = p, p + 9
            while data[p] not in (28, 44):
                k, q = data[p], p
                places.append(("kind", p, 1))
                p += 1
                if k == 1:
                    p += 2 * idn
                elif k in (2, 3, 8):
                    p += idn + 8
                elif k in (4, 6):
                    p += idn + 4
                elif k in (5, 7, 255):
                    p += idn
                elif k == 32:
                    places += [("super", p + idn + 4, idn)]
                    p += 7 * idn + 8
                    for h in (3, idn + 1, None):
                        n = be(p, 2)
                        places.append(("count2", p, 2))
                        p += 2
                        for _ in range(n):
                            if h is None:
                                places.append(("type", p + idn, 1))
                                p += idn + 1
                            else:
                                t = data[p + h - 1]
                                places.append(("type", p + h - 1, 1))
                                p += h + w(t)
                elif k == 33:
                    places += [("objid", p, idn), ("count4", p + 2 * idn + 4, 4)]
                    p += 2 * idn + 8 + be(p + 2 * idn + 4, 4)
                elif k == 34:
                    places += [("objid", p, idn), ("count4", p + idn + 4, 4)]
                    p += 2 * idn + 8 + be(p + idn + 4, 4) * idn
                elif k == 35:
                    places += [("objid", p, idn), ("count4", p + idn + 4, 4), ("type", p + idn + 8, 1)]
                    p += idn + 9 + be(p + idn + 4, 4) * w(data[p + idn + 8])
                recs.append(("sub", q, p - q, k))
        else:
            n = be(p + 5, 4)
            if tag == 5:
                places.append(("count4", p + 17, 4))
            recs.append(("top", p, 9 + n, tag))
            p += 9 + n
    return places, recs


def mutant(rnd, data):
    """one damaged dump and what was done to it"""
    places, recs = layout(data)
    d = bytearray(data)
    what = rnd.choice(["place"] * 8 + ["flip", "insert", "delete", "dup", "drop", "swap", "swapobj", "cycle", "tail"])
    if what == "place":
        kinds = sorted({k for k, _, _ in places})
        kind = rnd.choice(kinds)
        k, off, n = rnd.choice([x for x in places if x[0] == kind])
        old = int.from_bytes(d[off:off + n], "big")
        top = (1 << (8 * n)) - 1
        new = rnd.choice([0, 1, 2, 4, 8, old + 1, old - 1, old ^ (1 << rnd.randrange(8 * n)), top, rnd.randrange(top + 1), rnd.randrange(256), 12, 28, 44, 1 << (8 * n - 1), (1 << (8 * n - 4)) + old]) & top
        d[off:off + n] = new.to_bytes(n, "big")
        return bytes(d), "%s at %d: %d to %d" % (k, off, old, new)
    if what == "flip":
        i = rnd.randrange(len(d))
        d[i] ^= 1 << rnd.randrange(8)
        return bytes(d), "bit of byte %d" % i
    if what == "insert":
        i = rnd.randrange(len(d) + 1)
        x = bytes(rnd.choice([0, 255, rnd.randrange(256)]) for _ in range(rnd.choice([1, 1, 2, 4, 9])))
        return bytes(d[:i]) + x + bytes(d[i:]), "inserted %s at %d" % (x.hex(), i)
    if what == "delete":
        i = rnd.randrange(len(d))
        n = rnd.choice([1, 1, 2, 4, 9])
        return bytes(d[:i] + d[i + n:]), "deleted %d at %d" % (n, i)
    if what == "tail":
        return bytes(d) + bytes(rnd.randrange(256) for _ in range(rnd.randrange(1, 20))), "bytes after the end"
    if what in ("dup", "drop", "swap", "swapobj"):
        if what == "swapobj":
            kind = rnd.choice([33, 34, 35])
            c = [r for r in recs if r[0] == "sub" and r[3] == kind]
        else:
            c = recs
        if len(c) >= 2:
            a, b = sorted(rnd.sample(c, 2), key=lambda r: r[1])
            x, y = bytes(d[a[1]:a[1] + a[2]]), bytes(d[b[1]:b[1] + b[2]])
            if what == "dup":
                return bytes(d[:a[1]]) + x + bytes(d[a[1]:]), "record at %d twice" % a[1]
            if what == "drop":
                return bytes(d[:a[1]] + d[a[1] + a[2]:]), "record at %d dropped" % a[1]
            return bytes(d[:a[1]]) + y + bytes(d[a[1] + a[2]:b[1]]) + x + bytes(d[b[1] + b[2]:]), "records at %d and %d swapped" % (a[1], b[1])
    if what == "cycle":
        cs = [(off, n) for k, off, n in places if k == "super"]
        if cs:
            off, n = rnd.choice(cs)
            o2, _ = rnd.choice(cs)
            d[off:off + n] = d[o2 - n - 4:o2 - 4]  # superclass: the class itself or another one
            return bytes(d), "superclass at %d is the class at %d" % (off, o2)
    return mutant(rnd, data)


def mutant_again(rnd, data):
    """a second, blind change of a damaged dump"""
    d = bytearray(data)
    if not d:
        return data, "nothing"
    i = rnd.randrange(len(d))
    d[i] = rnd.choice([0, 1, 255, 28, 44, rnd.randrange(256)])
    return bytes(d), "byte %d is %d" % (i, d[i])


KINDS = {("top", 1): "name", ("top", 2): "loaded class", ("top", 4): "frame", ("top", 5): "trace", ("sub", 32): "class", ("sub", 33): "instance", ("sub", 34): "object array", ("sub", 35): "array"}


def lacking(rnd, data):
    """a readable dump from which something others refer to is missing, or is of another type or name"""
    said = []
    for _ in range(rnd.choice([1, 1, 1, 2, 3])):
        places, recs = layout(data)
        d = bytearray(data)
        what = rnd.choice(list(KINDS.values()) + ["loaded class", "rename", "retype", "null"])
        if what == "rename":
            rs = [r for r in recs if r[0] == "top" and r[3] == 1 and r[2] > 9 + d[22]]
            if not rs:
                continue
            _, p, n, _ = rnd.choice(rs)
            said.append("name at %d changed" % p)
            d[p + n - 1] = ord("x")
        elif what == "retype":
            ps = [p for k, p, _ in places if k == "type"]
            if not ps:
                continue
            p = rnd.choice(ps)
            same = [t for t in WIDTH if WIDTH[t] == WIDTH.get(d[p])] if d[p] != OBJECT else [10 if d[22] == 4 else 11]
            if d[p] in (10, 11) and WIDTH[d[p]] == d[22]:
                same = same + [OBJECT]
            said.append("type at %d changed" % p)
            d[p] = rnd.choice(same)
        elif what == "null":
            rs = [r for r in recs if r[0] == "sub" and r[3] in (33, 34) and r[2] > 2 * d[22] + 9]
            if not rs:
                continue
            _, p, n, k = rnd.choice(rs)
            a = rnd.randrange(p + 2 * d[22] + 9, p + n)
            said.append("value in the object at %d changed" % p)
            d[a] = rnd.choice([0, d[a] ^ 1])
        else:
            rs = [r for r in recs if KINDS.get((r[0], r[3])) == what]
            if not rs:
                continue
            _, p, n, _ = rnd.choice(rs)
            said.append("%s at %d is missing" % (what, p))
            del d[p:p + n]
        data = bytes(d)
    return data, ", ".join(said) or "nothing is missing"


def segment(data):
    """where the first sub-record of the first segment is"""
    p = 31
    while data[p] != 28:
        p += 9 + int.from_bytes(data[p + 5:p + 9], "big")
    return p + 9
