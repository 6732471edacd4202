"""Observations of the real program: runs the CLI and reads its reports."""
import html.parser
import os
import re
import subprocess

ANSI = re.compile(rb"\x1b\[[0-9;]*m")
HANG = 124


def run(cli, args, timeout=60, cwd=None, stdin=None, env=None):
    """(exit status, stdout, stderr); a run that does not end has status HANG"""
    try:
        p = subprocess.run([cli] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd,
                           stdin=subprocess.DEVNULL, env=env)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return HANG, e.stdout or b"", e.stderr or b""


def bl(b):
    return list(b.encode("utf-8") if isinstance(b, str) else b)


ROW = re.compile(rb"^(.*?)\s*\|\s*(-?\d+) \((-?[^()|%]*)%\) \|\s*(\S+) \((-?[^()|%]*)%\) \|\s*$", re.S)
HROW = re.compile(r"^(\S+) \((-?[^()|%]*)%\)$", re.S)


def parse_objects(out):
    """rows [name, count, count %, size, size %], totals [count, size], marker"""
    lines = out.split(b"\n")
    totals, rows, marker, state = [b"", b""], [], "none", 0
    for ln in lines:
        if state < 2 and ln.startswith(b"Instances: "):
            totals[0], state = ln[11:].strip(), 1
        elif state < 2 and ln.startswith(b"Total Size: "):
            totals[1] = ln[12:].strip()
        elif state < 2 and ln.startswith(b"Class Name"):
            c, s = "Count ↓".encode() in ln, "Size ↓".encode() in ln
            marker, state = {(1, 0): "count", (0, 1): "size"}.get((c, s), "none"), 2
        elif state == 2 and re.fullmatch(rb"-+", ln):
            state = 3
        elif ln.strip():
            m = ROW.match(ln)
            rows.append([bl(g) for g in m.groups()] if m and state == 3 else [bl(ln), [], [], [], []])
    return dict(rows=rows, totals=[bl(t) for t in totals], marker=marker)


SECTIONS = ("Environment", "Heap", "System", "Properties")


def parse_summary(out):
    """sections [(name, [line])] in order; blank lines are dropped"""
    secs, cur = [], None
    for ln in out.split(b"\n"):
        if ln.startswith(b"- ") and ln[2:].decode("utf-8", "replace") in SECTIONS:
            cur = []
            secs.append((ln[2:].decode(), cur))
        elif ln.strip():
            if cur is None:
                cur = []
                secs.append(("?", cur))
            cur.append(ln.strip())
    return secs


def section(secs, name):
    ls = [s for n, s in secs if n == name]
    return [bl(x) for x in ls[0]] if len(ls) == 1 else ([] if not ls else [bl("duplicate section")])


def parse_threads(out):
    """lines [level, text]"""
    lines = []
    for ln in out.split(b"\n"):
        if not ln.strip():
            continue
        s = ln.strip()
        lines.append([0 if ln[:1] not in (b" ", b"\t") else 2 if s.startswith(b"local ") else 1, bl(s)])
    return lines


class Html(html.parser.HTMLParser):
    """text of table rows, and of the thread paragraphs, plus every tag seen"""

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.rows, self.cell, self.cells = [], None, None
        self.paras, self.para = [], None
        self.tags, self.h3 = [], None
        self.head = True

    def handle_starttag(self, tag, attrs):
        self.tags.append((tag, tuple(k for k, _ in attrs)))
        if tag == "body":
            self.head = False
        if tag == "tr":
            self.cells = []
        elif tag in ("td", "th"):
            self.cell = ""
        elif tag == "p":
            self.para = [dict(attrs).get("class", ""), ""]

    def handle_endtag(self, tag):
        if tag in ("td", "th") and self.cell is not None and self.cells is not None:
            self.cells.append(self.cell)
            self.cell = None
        elif tag == "tr" and self.cells is not None:
            self.rows.append(self.cells)
            self.cells = None
        elif tag == "p" and self.para is not None:
            self.paras.append(self.para)
            self.para = None

    def handle_data(self, d):
        if self.cell is not None:
            self.cell += d
        if self.para is not None:
            self.para[1] += d


def parse_html(out):
    h = Html()
    h.feed(out.decode("utf-8", "replace"))
    h.close()
    return h


def strip(s):
    return s.strip(" \t\n\r\f\v")


def html_objects(out):
    h = parse_html(out)
    rows, totals, marker = [], [[], []], "none"
    for r in h.rows:
        if len(r) == 2 and r[0] == "Instances":
            totals[0] = bl(strip(r[1]))
        elif len(r) == 2 and r[0] == "Total Size":
            totals[1] = bl(strip(r[1]))
        elif len(r) == 3 and r[0] == "Class Name" and marker == "none":
            marker = {(True, False): "count", (False, True): "size"}.get(("↓" in r[1], "↓" in r[2]), "none")
        else:
            a, b = (HROW.match(strip(x)) for x in r[1:3]) if len(r) == 3 else (None, None)
            if a and b:
                rows.append([bl(strip(r[0])), bl(a.group(1)), bl(a.group(2)), bl(b.group(1)), bl(b.group(2))])
            else:
                rows.append([bl("|".join(r)), [], [], [], []])
    return dict(rows=rows, totals=totals, marker=marker)


def html_summary(out):
    h = parse_html(out)
    secs = []
    for r in h.rows:
        if len(r) == 1:
            secs.append(dict(name=r[0], pairs=[]))
        elif len(r) == 2 and not secs and r == ["Property", "Value"]:
            pass
        elif secs:
            secs[-1]["pairs"].append([bl(c) for c in r])
        else:
            secs.append(dict(name="?", pairs=[[bl(c) for c in r]]))
    return secs


def html_threads(out):
    h = parse_html(out)
    lvl = {"thread-description": 0, "one": 1, "two": 2}
    return [[lvl.get(c, 9), bl(strip(t))] for c, t in h.paras]
