"""The machinery shared by all checks: building the code under test, running
scenarios on it, validating what was observed with TLC, reporting."""
import base64
import json
import os
import queue
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

import tlc

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
ENV = dict(os.environ, HOME="/root", LANG="C.UTF-8", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod",
           GOCACHE=os.environ.get("VERIF_GOCACHE", "/root/.cache/go-build"), GOMODCACHE="/root/go/pkg/mod",
           PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
HANG = 124
CPUS = os.cpu_count() or 4


class Error(Exception):
    """the check itself failed; no answer"""


class Driver:
    """one process of the driver of the real code"""

    def __init__(self, path):
        self.path, self.p, self.lock = path, None, threading.Lock()

    def start(self):
        self.p = subprocess.Popen([self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV)

    def stop(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p = None

    def ask(self, req, timeout=60):
        """answer, or {"died": status} / {"hang": True}"""
        with self.lock:
            if self.p is None:
                self.start()
            res = {}
            t = threading.Timer(timeout, lambda: (res.setdefault("hang", True), self.p.kill()))
            t.start()
            try:
                self.p.stdin.write(json.dumps(req).encode() + b"\n")
                self.p.stdin.flush()
                line = self.p.stdout.readline()
            except BrokenPipeError:
                line = b""
            finally:
                t.cancel()
            if not line.endswith(b"\n"):
                rc = self.p.wait()
                self.p = None
                return {"hang": True} if res.get("hang") else {"died": rc}
            r = json.loads(line)
            if "error" in r:
                raise Error("driver: %s" % r["error"])
            return r


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="neojhat-verif-")
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes, self.violations, self.known = [], {}, [], []
        self.assumptions = []
        self.cli = os.path.join(self.tmp, "neojhat")
        self.driver_path = os.path.join(self.tmp, "driver")
        self._drivers = queue.Queue()
        self._all = []
        self._n = 0
        self.lock = threading.Lock()

    def rnd(self, *what):
        return random.Random("%s/%s/%s" % (self.seed, self.pid, "/".join(map(str, what))))

    # building -----------------------------------------------------------------
    def build(self, driver=False, race=False):
        def go(out, *args):
            p = subprocess.run(["go", "build", "-buildvcs=false", "-o", out, *args], cwd=REPO, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                raise Error("build failed: " + p.stdout.decode(errors="replace")[-3000:])
        go(self.cli, "./cmd/neojhat")
        if driver:
            ov = os.path.join(self.tmp, "overlay.json")
            d = os.path.join(VERIF, "driver")
            json.dump({"Replace": {REPO + "/internal/verifdriver/" + f: os.path.join(d, f) for f in os.listdir(d) if f.endswith(".go")}}, open(ov, "w"))
            go(self.driver_path, "-overlay", ov, "./internal/verifdriver")
            for _ in range(CPUS):
                dr = Driver(self.driver_path)
                self._all.append(dr)
                self._drivers.put(dr)

    def ask(self, req, timeout=60):
        d = self._drivers.get()
        try:
            return d.ask(req, timeout)
        finally:
            self._drivers.put(d)

    def close(self):
        for d in self._all:
            d.stop()
        shutil.rmtree(self.tmp, ignore_errors=True)

    def dir(self):
        with self.lock:
            self._n += 1
            n = self._n
        d = os.path.join(self.tmp, "w%d" % n)
        os.makedirs(d)
        return d

    # TLC ----------------------------------------------------------------------
    def model(self, module, cfg=None, workers=CPUS, heap="8g", timeout=800, files=None, extra=(), expect=None):
        """checks a model; any error of TLC is an error of the check, not of the code"""
        out = self.tlc(module, cfg, workers, heap, timeout, files, extra)
        if "No error has been found" not in out or (expect and expect not in out):
            raise Error("model %s: %s" % (cfg or module, out[-4000:]))
        return out

    def refuted(self, module, cfg, what, workers=CPUS, heap="4g", timeout=300):
        """a model of a program that is wrong: TLC has to find that `what` fails"""
        out = self.tlc(module, cfg, workers, heap, timeout)
        if not re.search(what, out):
            raise Error("model %s ought to be refuted: %s" % (cfg, out[-2000:]))
        self.notes.setdefault("models_refuted", []).append(cfg[:-4])

    def tlc(self, module, cfg=None, workers=1, heap="3g", timeout=800, files=None, extra=()):
        rc, out = tlc.tlc(self.dir(), module, cfg, heap, timeout, workers, extra, files)
        d, g = tlc.stats(out)
        with self.lock:
            self.states += d
            self.transitions += g
        return out

    # scenarios ----------------------------------------------------------------
    def parallel(self, fn, items, n=CPUS):
        with ThreadPoolExecutor(n) as ex:
            return list(ex.map(fn, items))

    def validate(self, module, scens, shards=CPUS, heap="3g", timeout=800, cfg=None):
        """trace validation: one line per scenario, split over several runs of TLC;
        returns [(scenario number, observation number, verdict)] of everything that is not ok"""
        if not scens:
            return []
        order = sorted(range(len(scens)), key=lambda i: -len(scens[i]))
        parts = [[] for _ in range(min(shards, len(scens)))]
        load = [0] * len(parts)
        for i in order:
            k = load.index(min(load))
            parts[k].append(i)
            load[k] += len(scens[i]) + 500

        def one(part):
            out = self.tlc(module, cfg, 1, heap, timeout, {"trace.ndjson": "".join(scens[i] + "\n" for i in part)})
            if not re.search(r'<<"DONE", %d>>' % len(part), out) or "No error has been found" not in out:
                raise Error("TLC did not consume the trace: " + "\n".join(out[:out.find("State 1:") if "State 1:" in out else None].split("\n")[-60:]) + out[-1500:])
            res = []
            for v in map(json.loads, printed(out, "VERDICT")):
                res.append((part[v["l"] - 1], v["k"] - 1, v["v"]))
            return res
        bad = sum(self.parallel(one, parts), [])
        self.traces += len(scens)
        return sorted(bad, key=lambda b: b[:2])

    def late(self):
        """a thorough check ends after some 13 minutes"""
        return time.time() - self.t0 > 700

    # reporting ----------------------------------------------------------------
    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def violation(self, what, replay):
        """replay: a JSON value, with files as {"name": bytes}"""
        n = len(self.violations) + 1
        d = os.path.join(VERIF, "out", "replay", "%s-%s-%d-%d" % (self.pid, self.tier, self.seed, n))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        files = replay.pop("files", {})
        for name, data in files.items():
            with open(os.path.join(d, name), "wb") as f:
                f.write(data)
        replay["what"] = what
        replay["property"] = self.pid
        with open(os.path.join(d, "scenario.json"), "w") as f:
            json.dump(replay, f, indent=1, default=repr)
        self.violations.append(what)
        print("%s: %s" % (self.pid, what))
        print("VIOLATION property=%s replay=%s" % (self.pid, d), flush=True)

    def evidence(self):
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples or ["none"])
        cov.update(self.notes)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def printed(out, what):
    """the strings TLC printed as <<what, string>>; long tuples are wrapped"""
    res = [json.loads('"' + m.group(1) + '"') for m in re.finditer(r'<<\s*"%s",\s*"((?:[^"\\]|\\.)*)"\s*>>' % what, out)]
    if len(res) != len(re.findall(r'<<\s*"%s"' % what, out)):
        raise Error("cannot read what TLC printed: " + out[-4000:])
    return res


def text_of(v):
    """readable form of verdicts: byte lists as text"""
    if isinstance(v, list):
        if v and all(isinstance(x, int) and 0 <= x < 256 for x in v):
            b = bytes(v)
            return b.decode("utf-8", "replace") if all(x >= 32 or x == 10 for x in b) else "0x" + b.hex()
        return [text_of(x) for x in v]
    if isinstance(v, dict):
        return {k: text_of(x) for k, x in v.items()}
    return v
