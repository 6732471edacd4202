#!/usr/bin/env python3
"""seedtest.py ID [quick|thorough|none]: does the planted bug count, and does the check of its property catch it?
Works on a copy of /repo; the check is run on the copy (VERIF_REPO)."""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "7f4119a"
ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local")


def sh(cmd, cwd, timeout=900, env=ENV):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
    return p.returncode, p.stdout.decode(errors="replace")


def tests(cwd):
    rc, out = sh("go vet ./... && go test -count=1 -v ./...", cwd)
    return {m.group(1) for m in re.finditer(r"^\s*--- PASS: (\S+)", out, re.M)}, rc, out


def main():
    sid, tier = sys.argv[1], (sys.argv + ["quick"])[2]
    d = os.path.join(V, "seeded", sid)
    meta = json.load(open(d + "/meta.json"))
    tmp = tempfile.mkdtemp(prefix="seed-")
    try:
        r = tmp + "/repo"
        shutil.copytree("/repo", r, symlinks=True)
        # original lines?
        rc, out = sh("git apply --check %s/patch.diff" % d, r)
        if rc:
            return print(sid, "does not apply", out)
        orig = 0
        f = None
        for ln in open(d + "/patch.diff"):
            if ln.startswith("--- a/"):
                f = ln[6:].strip()
            m = re.match(r"@@ -(\d+)", ln)
            if m:
                n = int(m.group(1)) - 1
            elif f and ln[0] in " -" and not ln.startswith("---"):
                n += 1
                if ln[0] == "-" and ln[1:].strip():
                    orig += "^" in sh("git blame -s -L %d,%d %s..HEAD -- %s" % (n, n, BASE, f), r)[1][:1]
        before, _, _ = tests(r)
        demo = tmp + "/demo"
        shutil.copytree(d, demo)
        for x in os.listdir(demo):
            if x.endswith((".diff", ".patch")) or x == "meta.json":
                os.unlink(os.path.join(demo, x))
        a, ao = sh("bash %s/demo.sh" % demo, r, 300)
        sh("git apply %s/patch.diff" % d, r)
        rc, out = sh("go build ./...", r)
        after, trc, tout = tests(r)
        b, bo = sh("bash %s/demo.sh" % demo, r, 300)
        ok = orig > 0 and rc == 0 and after >= before and a == 0 and b != 0
        print("%s: %s  (original lines %d, build %d, tests lost %s, demo %d -> %d)" % (sid, "COUNTS" if ok else "DOES NOT COUNT", orig, rc, sorted(before - after), a, b), flush=True)
        if not ok:
            print(out[-1000:], ao[-1500:], bo[-1500:])
        if tier != "none":
            pid = meta["property"]
            rc, out = sh("python3 run.py %s %s" % (pid, tier), V, 3600, dict(ENV, VERIF_REPO=r, VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
            print("%s: check %s exit %d: %s" % (sid, pid, rc, "CAUGHT" if rc == 1 and "VIOLATION property=%s " % pid in out else "MISSED" if rc == 0 else "NO ANSWER"))
            print("   " + "\n   ".join(x[:300] for x in out.strip().split("\n")[-4:]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


main()
