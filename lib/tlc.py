"""Running TLC."""
import json
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
JARS = "/opt/veriftools/tla"


class Failed(Exception):
    pass


def tlc(work, module, cfg=None, heap="2g", timeout=600, workers=1, extra=(), files=None):
    """runs TLC on a copy of the specification in the directory `work`; returns its output"""
    os.makedirs(work, exist_ok=True)
    for f in os.listdir(SPEC):
        if f.endswith((".tla", ".cfg")):
            shutil.copy(os.path.join(SPEC, f), work)
    for name, text in (files or {}).items():
        with open(os.path.join(work, name), "w") as o:
            o.write(text)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss256m", "-Djava.io.tmpdir=" + work,
           "-cp", JARS + "/tla2tools.jar:" + JARS + "/CommunityModules-deps.jar", "tlc2.TLC",
           "-workers", str(workers), "-config", cfg or module + ".cfg", "-metadir", os.path.join(work, "states"), "-nowarning",
           *extra, module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired as e:
        raise Failed("TLC did not finish %s in %ss: %s" % (module, timeout, (e.stdout or b"")[-600:]))
    shutil.rmtree(os.path.join(work, "states"), ignore_errors=True)
    return p.returncode, p.stdout


STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def stats(out):
    m = STATS.findall(out)
    return (int(m[-1][1]), int(m[-1][0])) if m else (0, 0)
