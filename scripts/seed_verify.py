#!/usr/bin/env python3
"""Try planted bugs: seed_verify.py [--no-test] [--no-check] [-j N] ID...

For each /verif/seeded/ID: copy /repo to a scratch directory, run demo.sh (must
pass), apply patch.diff, build, run the stable tests, run demo.sh (must fail),
run the property's check against the patched copy (should fail)."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open("/opt/vp/BASELINE.json"))


def stable():
    for k in ("stable", "passed", "tests", "pass"):
        if k in BASE:
            return set(BASE[k])
    raise SystemExit("BASELINE keys: %s" % list(BASE))


def sh(cmd, cwd=None, env=None, timeout=1200):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def one(sid, test, check):
    sd = V + "/seeded/" + sid
    meta = json.load(open(sd + "/meta.json"))
    top = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    repo = top + "/repo"
    res = {"id": sid, "property": meta["property"]}
    try:
        subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
        for n in ("build", "test"):
            t = open("/opt/vp/%s.sh" % n).read().replace("/repo", repo).replace("/opt/vp/build.sh", top + "/build.sh")
            open(top + "/%s.sh" % n, "w").write(t)
        dd = top + "/d"
        shutil.copytree(sd, dd)
        for f in ("patch.diff", "meta.json"):
            os.unlink(dd + "/" + f)
        rc, out = sh(["bash", top + "/build.sh"])
        assert rc == 0, out
        res["clean"], co = sh(["bash", dd + "/demo.sh"], cwd=repo, timeout=300)
        rc, out = sh(["git", "apply", sd + "/patch.diff"], cwd=repo)
        res["applies"] = rc
        # which removed lines are not the original repository's?
        rc, bl = sh(["git", "diff", "-U0"], cwd=repo)
        foreign = 0
        removed = 0
        for m in re.finditer(r"^--- a/(\S+)\n\+\+\+.*\n((?:(?!^diff).*\n)*)", bl, re.M):
            for h in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", m.group(2), re.M):
                n = int(h.group(2) or 1)
                for ln in range(int(h.group(1)), int(h.group(1)) + n):
                    removed += 1
                    _, b = sh(["git", "blame", "-s", "-L", "%d,%d" % (ln, ln), "HEAD", "--", m.group(1)], cwd=repo)
                    if not b.startswith("^") and "7addd7a" not in b:
                        foreign += 1
        res["removed"], res["foreign"] = removed, foreign
        rc, out = sh(["bash", top + "/build.sh"])
        res["build"] = rc
        if rc:
            res["log"] = out[-600:]
            return res
        if test:
            for _ in range(2):
                sh(["bash", top + "/test.sh", top + "/out.json"])
                o = json.load(open(top + "/out.json"))
                passed = set(o.get("passed", o.get("pass", [])))
                miss = sorted(stable() - passed)
                if not miss:
                    break
            res["tests_missing"] = miss[:6]
        res["patched"], po = sh(["bash", dd + "/demo.sh"], cwd=repo, timeout=300)
        if res["clean"] or not res["patched"]:
            res["log"] = "CLEAN:" + co[-400:] + "PATCHED:" + po[-400:]
        if check:
            env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick")
            for p in [meta["property"]] + meta.get("also", []):
                rc, out = sh([V + "/check", p], cwd=V, env=env)
                v = [l for l in out.splitlines() if l.startswith("VIOLATION")]
                res["check " + p] = "CAUGHT" if rc == 1 and v and "property=%s " % p in v[0] else "missed rc=%d %s" % (rc, out[-300:] if rc else "")
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return res


def main():
    a = sys.argv[1:]
    test, check, j = True, True, 2
    ids = []
    while a:
        x = a.pop(0)
        if x == "--no-test": test = False
        elif x == "--no-check": check = False
        elif x == "-j": j = int(a.pop(0))
        else: ids.append(x)
    ids = ids or sorted(os.listdir(V + "/seeded"))
    with ThreadPoolExecutor(j) as ex:
        for r in ex.map(lambda i: one(i, test, check), ids):
            ok = r.get("clean") == 0 and r.get("applies") == 0 and r.get("build") == 0 and r.get("patched") and not r.get("tests_missing") and not r.get("foreign") and r.get("removed")
            print("OK " if ok else "BAD", json.dumps(r), flush=True)


main()
