"""The command line: what a run does with its arguments.  C25."""
import json
import os
import re
import shutil

import obs as O
from harness import ENV, printed
from hprof import *
from runs import digest
from scen import Request, conform, ending, kind
from worlds import *

SUBS = ("threads", "summary", "objects")
STRAY = "not yours\n"


def dump(rnd):
    """a dump on which all reports differ in all that options can change"""
    while True:
        j = full_world(rnd)
        deep = [st for _, st in add_threads(j, 2) if st["frames"]]
        for st in deep:
            j.roots.append((3, rnd.choice(j.objs), st["thread"], 0))
        b = j.encode()
        if b"\x1b" not in b and deep:
            return b


def contents(root):
    """{path: what it is}; access to it leaves no traces here"""
    res = {}
    for d, ds, fs in os.walk(root):
        for f in ds + fs:
            p = d + "/" + f
            st = os.lstat(p)
            if os.path.islink(p):
                res[p] = os.readlink(p)
            elif f in fs:
                res[p] = (st.st_mode, st.st_mtime_ns, digest(open(p, "rb").read()))
            else:
                res[p] = st.st_mode
    return res


def usages(out):
    """[[sub-command, [option]]] of the texts that explain the usage"""
    res = []
    for ln in out.split("\n"):
        m = re.match(r"Usage of (\S+):", ln)
        o = re.match(r"\s+-{1,2}([a-zA-Z-]+)\b", ln)
        if m:
            res.append([O.bl(m.group(1)), []])
        elif o and res:
            res[-1][1].append(O.bl(o.group(1)))
    return res


def reported(out):
    """what sort of report it is"""
    text = out.decode("utf-8", "replace")
    form = "html" if re.match(r"\s*<(!doctype )?html", text, re.I) else "color" if "\x1b[" in text else "plain"
    o = O.ANSI.sub(b"", out)
    sub, size, more = "", False, False
    if form == "html":
        h = O.parse_html(out)
        names = {r[0] for r in h.rows if len(r) == 1}
        if any(r[:1] == ["Total Size"] for r in h.rows):
            sub, size = "objects", O.html_objects(out)["marker"] == "size"
        elif "Heap" in names:
            sub, more = "summary", "Properties" in names
        elif any(c == "thread-description" for c, _ in h.paras):
            sub, more = "threads", any(c == "two" for c, _ in h.paras)
    elif b"\nTotal Size: " in b"\n" + o:
        sub, size = "objects", O.parse_objects(o)["marker"] == "size"
    elif b"\n- Heap" in b"\n" + o:
        sub, more = "summary", any(n == "Properties" for n, _ in O.parse_summary(o))
    elif b", prio=" in o:
        sub, more = "threads", any(l == 2 for l, _ in O.parse_threads(o))
    return dict(form=form, sub=O.bl(sub), size=size, more=more)


@kind
class Commands(Request):
    """runs with arguments, next to two dumps; @A, @B in the arguments are paths of the dumps"""
    module = "TraceCli"

    def __init__(self, a, b, lists, desc=""):
        self.a, self.b, self.lists, self.desc = a, b, lists, desc

    def observe(self, ctx):
        base = ctx.dir()
        here, cwd = base + "/dünn <1>", base + "/cwd"
        os.makedirs(here)
        os.makedirs(cwd + "/ln2")
        os.makedirs(base + "/tmp")
        os.symlink("../dünn <1>", cwd + "/ln")
        A, B = here + "/a b.hprof", cwd + "/-b=1.hprof"
        for p, d in ((A, self.a), (B, self.b)):
            with open(p, "wb") as f:
                f.write(d)
        for p in (cwd + "/nothing.hprof.txt", cwd + "/html", cwd + "/size", here + "/b.hprof", base + "/tmp/x"):
            with open(p, "w") as f:
                f.write(STRAY)
        forms = dict(A=[A, "../dünn <1>/a b.hprof", "./../dünn <1>/./a b.hprof", "ln/a b.hprof", "ln//a b.hprof", "ln2/../ln/a b.hprof", "ln/../dünn <1>/a b.hprof"],
                     B=["-b=1.hprof", "./-b=1.hprof", B, "../cwd/-b=1.hprof", "ln2/../-b=1.hprof", "ln/../cwd/-b=1.hprof"])
        # D: where the index of a directory would be
        index = {"A": A + ".db/", "B": B + ".db/", "D": cwd + "/ln2.db/", "D.": cwd + "/..db/"}
        res, before = [], contents(base)
        for args in self.lists:
            # @A3: the dump A by its third path
            real = [re.sub("@([AB])([0-9]?)", lambda m: forms[m.group(1)][int(m.group(2) or 0) % len(forms[m.group(1)])], x) for x in args]
            rc, out, err = O.run(ctx.cli, real, timeout=30, cwd=cwd, env=dict(ENV, TMPDIR=base + "/tmp"))
            after = contents(base)
            touched = set()
            for p in set(before) | set(after):
                if before.get(p) != after.get(p):
                    touched.add(next((n for n, i in index.items() if (p + "/").startswith(i)), "other"))
            before = after
            e = ending(rc, out, err)
            text = (out + err).decode("utf-8", "replace")
            r = reported(out)
            res.append(dict(kind="run", args=[O.bl(x) for x in real], paths=[[O.bl(p), n] for n in forms for p in forms[n]],
                            touched=sorted({n[0] if n != "other" else n for n in touched}), usages=usages(text), exit=rc, hang=rc == O.HANG, crashed=e["crashed"],
                            report=bool(r["sub"]), reason=bool(text.strip()), err=bool(err), out=digest(out), **r))
        shutil.rmtree(base, ignore_errors=True)
        return res

    def save(self):
        return dict(kind="Commands", lists=self.lists, desc=self.desc, files={"a.hprof": self.a, "b.hprof": self.b})

    @classmethod
    def load(cls, path, j):
        return cls(*(open(os.path.join(path, n), "rb").read() for n in ("a.hprof", "b.hprof")), j["lists"], j["desc"])

    def about(self):
        return dict(desc=self.desc, arguments=self.lists[:5])


def long_list(rnd):
    """more arguments than the model has, most of them good"""
    sub = rnd.choice(SUBS)
    d = lambda: rnd.choice(["-", "--"])
    yes = lambda: rnd.choice(["", "", "=true", "=1", "=T", "=TRUE", "=t", "=True", "=false", "=0", "=f", "=F", "=False", "=FALSE"])

    def valued(n, v):
        return [d() + n + "=" + v] if rnd.random() < .5 else [d() + n, v]
    path = lambda: "@" + rnd.choice("AB") + str(rnd.randrange(7))
    res = []
    good = [lambda: valued("hprof", path()), lambda: [d() + "no-color" + yes()], lambda: [d() + "non-interactive" + yes()],
            lambda: valued("output", rnd.choice(["html", "plain", ""]))]
    good.append({"threads": lambda: [d() + "local-vars" + yes()], "summary": lambda: [d() + "all-props" + yes()],
                 "objects": lambda: valued("sort-by", rnd.choice(["size", "count", ""]))}[sub])
    bad = [lambda: valued("output", rnd.choice(["xml", "Html", "html ", "text", "0"])), lambda: [d() + rnd.choice(["no-color", "non-interactive"]) + rnd.choice(["=yes", "=", "=tRUE", "=2", "=no"])],
           lambda: [d() + rnd.choice(["hpro", "hproff", "Hprof", "no_color", "sort", "nocolor", "format", "o", "v", "version", "-", "\u00fc", " "])],
           lambda: [rnd.choice(["---hprof", "-=", "--=", "---"])], lambda: [d() + rnd.choice(["help", "h", "h=1"])],
           lambda: [rnd.choice(["--", "-", "", "html", "@A", "true"])],
           lambda: valued("hprof", rnd.choice(["nothing.hprof", ".", "", "ln2", "@A.txt", "html/x"])),
           lambda: valued("sort-by", rnd.choice(["name", "Size", "size,count"])), lambda: [d() + rnd.choice(["local-vars", "all-props"]) + rnd.choice(["", "=1", "=x"])]]
    for _ in range(rnd.choice([1, 2, 3, 4, 5, 7, 9])):
        res += rnd.choice(good)()
    if rnd.random() < .7:
        k = rnd.randrange(len(res) + 1)
        res[k:k] = valued("hprof", path())  # the value of another option, sometimes
    for _ in range(rnd.choice([0, 0, 0, 1, 1, 2])):
        k = rnd.randrange(len(res) + 1)
        res[k:k] = rnd.choice(bad)()
    if rnd.random() < .1 and res:
        res.pop()
    if rnd.random() < .04:
        sub = rnd.choice(["thread", "Objects", "help", "-h", "--help", "", "--hprof", "objects ", "version", "summary=1"])
    elif rnd.random() < .01:
        return []
    return [sub] + res


def c25(ctx):
    ctx.assumptions += ["what is said of usage or errors may go to standard output or standard error, in any words: judged are the sub-commands and options it names, the exit status and what is touched",
                        "nothing is said about arguments after the options, nor about the exit status with an unknown sub-command"]
    lists = [json.loads(x) for x in sorted(set(printed(ctx.model("MC_Cli", "MC_Cli.cfg"), "ARGS")))]
    lists = [[bytes(b).decode() for b in l] for l in lists]
    ctx.notes["argument_lists_from_model"] = len(lists)
    if not ctx.quick:
        ctx.model("MC_Cli", "MC_CliBig.cfg")
    rnd = ctx.rnd("lists")
    rnd.shuffle(lists)
    # runs with a dump are the interesting ones
    lists.sort(key=lambda l: not any("@" in x for x in l))
    k = len([l for l in lists if any("@" in x for x in l)])
    model = lists[:450] + lists[k:k + 150] if ctx.quick else lists
    model = [[re.sub("@([AB])", lambda m: m.group(0) + str(rnd.randrange(7)), x) for x in l] for l in model]
    rnd.shuffle(model)
    more = [long_list(rnd) for _ in range(900 if ctx.quick else 12000)]
    scens = []
    for name, ls in (("argument lists of the model", model), ("argument lists", more)):
        for n, a in enumerate(range(0, len(ls), 60)):
            r = ctx.rnd("dumps", name, n)
            scens.append(Commands(dump(r), dump(r), ls[a:a + 60], "%s %d" % (name, n)))
    if not ctx.quick:
        ctx.rnd("order").shuffle(scens)
    for a in range(0, len(scens), 120):
        conform(ctx, scens[a:a + 120])
        if ctx.violations or ctx.late():
            break
