"""How reports look: columns of plain and color ones (C26), markup of HTML ones (C27)."""
import html.parser
import json
import os
import shutil

import obs as O
from harness import printed
from hprof import *
from scen import Scenario, conform, kind
from worlds import *

EVERY = [("objects",), ("objects", "--sort-by", "size"), ("summary",), ("summary", "--all-props"), ("threads",), ("threads", "--local-vars")]


class Reports(Scenario):
    """plan: the commands whose reports are looked at; the dump is not part of the trace"""

    def line(self, obs):
        return json.dumps(dict(obs=obs), separators=(",", ":"))

    def save(self):
        return dict(Scenario.save(self), kind=type(self).__name__)

    def observe(self, ctx):
        d = ctx.dir()
        path = os.path.join(d, "d.hprof")
        with open(path, "wb") as f:
            f.write(self.data)
        res = []
        for cmd in self.plan:
            for form in self.forms:
                rc, out, _ = O.run(ctx.cli, [cmd[0], "--hprof", path, "--non-interactive", *cmd[1:], *self.forms[form]])
                res.append(dict(kind=" ".join(cmd), of=cmd[0], form=form, exit=rc, **self.look(out)))
        shutil.rmtree(d, ignore_errors=True)
        return res


@kind
class Laid(Reports):
    module = "TraceLayout"
    forms = dict(plain=["--no-color"], color=[])

    def look(self, out):
        return dict(lines=[[ord(c) for c in ln] for ln in out.decode("utf-8", "replace").split("\n")])


class Tokens(html.parser.HTMLParser):
    """the tokens of a document: [kind, name, attributes, columns]"""

    def __init__(self):
        super().__init__(convert_charrefs=False)
        self.tokens = []

    def put(self, what, name, attrs=(), columns=1):
        self.tokens.append([what, name, [[k, v] for k, v in attrs], columns])

    def handle_starttag(self, tag, attrs):
        span = dict(attrs).get("colspan") or "1"
        address = lambda v: "data:" if v.startswith("data:") else "#" if v.startswith("#") else "foreign"
        self.put("open", tag, [("on" if k.startswith("on") else k, address(v or "") if k in ("href", "src") else "") for k, v in attrs], int(span) if span.isdigit() else 0)

    def handle_startendtag(self, tag, attrs):
        self.handle_starttag(tag, attrs)
        if tag not in ("meta", "link", "br", "hr", "img", "input"):
            self.handle_endtag(tag)

    def handle_endtag(self, tag):
        self.put("close", tag)

    def text(self, blank):
        what = "blank" if blank else "text"
        last = self.tokens[-1] if self.tokens else None
        if last and last[0] in ("blank", "text"):
            if not blank:
                last[0] = "text"
        else:
            self.put(what, "")

    def handle_data(self, d):
        self.text(not d.strip())

    def handle_entityref(self, name):
        self.text(False)

    handle_charref = handle_entityref

    def handle_comment(self, d):
        self.put("comment", "")

    def handle_decl(self, d):
        self.put("decl", d.lower())

    def unknown_decl(self, d):
        self.put("other", "")

    def handle_pi(self, d):
        self.put("other", "")


@kind
class Marked(Reports):
    module = "TraceMarkup"
    forms = dict(html=["--output", "html"])

    def look(self, out):
        t = Tokens()
        t.feed(out.decode("utf-8", "replace"))
        rest = len(t.rawdata)
        t.close()
        if rest and "<" in out.decode("utf-8", "replace")[-rest:]:
            t.put("other", "")
        return dict(tokens=t.tokens)


def table_world(rnd, rows):
    """classes with names, counts and sizes about as long as those of the table of the model"""
    j = base(rnd)
    used = {c.name for c in j.classes}
    root = j.byname["java/lang/Object"]
    for n, c, s in rows:
        while True:
            name = "".join(rnd.choice("ABCxyzλ0界$") if k % 7 != 3 else "/" for k in range(n)) if rnd.random() < .3 else "".join(rnd.choice("ABCDEfghij$_") for _ in range(n))
            if name not in used and not name[0].isdigit():
                break
        used.add(name)
        cls = j.cls(name, root, [], size=rnd.choice([1, 8]) if s < 10 else rnd.choice([1023, 1048575, 1 << 30]))
        for _ in range({6: 1, 7: 11, 10: 150}[c] + rnd.randrange(3)):
            j.obj(cls)
    add_props(j, random_props(rnd)[:4])
    add_uptime(j, j.ms - rnd.choice([0, 1, 10 ** 9]))
    return j


def report_world(rnd, i, lines=False):
    kindof = i % 8
    if i % 300 == 11:
        j = rows_world(rnd, 1100)
    elif i % 300 == 12:
        j = crowd_world(rnd, 300)
    elif i % 300 == 13:
        j = deep_world(rnd)
    elif i % 300 == 14:
        j = many_props_world(rnd, 300)
    else:
        j = (objects_world if kindof < 2 else locals_world if kindof < 4 else full_world)(rnd)
    if "java/lang/System" not in j.byname:
        add_props(j, [(k, v + "\n" + shaped(rnd) if lines and rnd.random() < .1 else v) for k, v in random_props(rnd)])
    if "sun/management/ManagementFactoryHelper" not in j.byname:
        add_uptime(j, j.ms - rnd.choice([0, 5, 61000, 10 ** 10]))
    return j


def go(ctx, scens):
    for a in range(0, len(scens), 400):
        conform(ctx, scens[a:a + 400])
        if ctx.violations or ctx.late():
            break


def worlds(ctx, cls, n, what):
    def make(i):
        rnd = ctx.rnd(what, i)
        return cls(report_world(rnd, i, cls is Marked).encode(), EVERY, "%s, world %d" % (what, i))
    return ctx.parallel(make, range(n))


def c26(ctx):
    ctx.assumptions += ["columns are counted in characters; what a terminal makes of wide or combining ones is not judged, nor are the values of a summary whose keys have other characters than ASCII"]
    out = ctx.model("MC_Layout", "MC_Layout.cfg" if ctx.quick else "MC_LayoutBig.cfg")
    for v in ("Noheader", "Last", "Rule"):
        ctx.refuted("MC_Layout", "MC_Layout%s.cfg" % v, "Invariant LinesUp is violated")
    tables = [json.loads(t) for t in sorted(set(printed(out, "TABLE")))]
    ctx.notes["tables_from_model"] = len(tables)
    some = ctx.rnd("tables").sample(tables, min(len(tables), 150 if ctx.quick else 6000))
    scens = [Laid(table_world(ctx.rnd("table", n), t).encode(), EVERY[:2], "table of the model %d" % n) for n, t in enumerate(some)]
    go(ctx, scens + worlds(ctx, Laid, 120 if ctx.quick else 10000, "layout"))


def c27(ctx):
    ctx.model("MC_Markup", "MC_Markup.cfg" if ctx.quick else "MC_MarkupBig.cfg")
    ctx.model("MC_Markup", "MC_MarkupDrop.cfg")
    for v in ("Branch", "Row", "Escape"):
        ctx.refuted("MC_Markup", "MC_Markup%s.cfg" % v, "Invariant Accepted is violated")
    go(ctx, worlds(ctx, Marked, 160 if ctx.quick else 12000, "markup"))
