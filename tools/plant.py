#!/usr/bin/env python3
"""Verify planted bugs: for each /verif/seeded/<id>, patch applies to /repo, changes original lines only, builds, keeps the
stable tests, demo.sh is 0 without and nonzero with it; then run the property's check on it. Usage: plant.py [--nocheck] [id...]"""
import subprocess, sys, os, json, re, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = "/repo"; BASE = subprocess.check_output(["git", "-C", R, "rev-list", "--max-parents=0", "HEAD"], text=True).split()[0]
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
def orig_only(patch):
    """every removed line must come from the base commit; at least one removed or the insertion sits next to one"""
    bad = []; removed = 0; f = None
    for l in open(patch):
        if l.startswith("--- a/"): f = l[6:].strip(); bl = sh("git", "-C", R, "blame", "-s", "-l", "HEAD", "--", f).stdout.splitlines()
        elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("---") or l.startswith("+++") or l.startswith("diff") or l.startswith("index"): pass
        elif l.startswith("-"):
            removed += 1
            if not bl[n-1].lstrip("^").startswith(BASE[:30]): bad.append((f, n, l.strip()))
            n += 1
        elif l.startswith(" "): n += 1
    return bad, removed
def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]; check = "--nocheck" not in sys.argv
    ids = args or sorted(os.listdir(V + "/seeded"))
    for i in ids:
        d = f"{V}/seeded/{i}"; m = json.load(open(d + "/meta.json")); msg = []
        assert not sh("git", "-C", R, "status", "--porcelain").stdout.strip(), "/repo not clean"
        bad, removed = orig_only(d + "/patch.diff")
        if bad: msg.append(f"NOT-ORIGINAL {bad}")
        if not removed: msg.append("NOTHING-REMOVED")
        tmp = "/tmp/pl/" + i; shutil.rmtree(tmp, ignore_errors=True); shutil.copytree(d, tmp)
        for x in os.listdir(tmp):
            if x.endswith((".diff", ".patch")) or x == "meta.json": os.remove(tmp + "/" + x)
        d0 = sh("timeout", "300", "bash", tmp + "/demo.sh", cwd=R)
        if d0.returncode: msg.append("DEMO-FAILS-CLEAN " + d0.stdout[-300:] + d0.stderr[-300:])
        ap = sh("git", "-C", R, "apply", d + "/patch.diff")
        if ap.returncode: msg.append("NO-APPLY " + ap.stderr)
        else:
            try:
                b = sh("bash", "/opt/vp/build.sh")
                if b.returncode: msg.append("NO-BUILD " + b.stderr[-300:])
                t = sh("bash", "/opt/vp/test.sh", "/tmp/pl/t.json"); res = json.load(open("/tmp/pl/t.json")); stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
                lost = [s for s in stable if s not in res.get("passed", res)] if "passed" in res else [s for s in stable if res.get(s) != "PASS" and res.get("results", res).get(s) not in ("PASS", "passed", True)]
                if lost: msg.append(f"TESTS-LOST {lost}")
                d1 = sh("timeout", "300", "bash", tmp + "/demo.sh", cwd=R)
                if d1.returncode == 0: msg.append("DEMO-PASSES-WITH-BUG " + d1.stdout[-300:])
                if check:
                    c = sh("python3", V + "/check.py", m["property"], cwd=V)
                    v = re.search(r"violation: [^\n]*", c.stdout); msg.append(("CAUGHT " if c.returncode == 1 and f"VIOLATION property={m['property']} " in c.stdout else f"MISSED rc={c.returncode} ") + (v.group(0)[:140] if v else c.stdout[-150:]))
            finally:
                sh("git", "-C", R, "checkout", "--", ".")
        shutil.rmtree(tmp, ignore_errors=True)
        print(i, m["property"], "|", " ; ".join(msg), flush=True)
    sh("bash", "/opt/vp/build.sh")
main()
