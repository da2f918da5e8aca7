#!/usr/bin/env python3
"""The checks have to stay quiet on code that behaves the same. tools/quiet/*.diff are rewrites that keep the behaviour
(helpers extracted, loops rewritten, statements reordered, layouts changed). They are applied in as few groups as they
compose to a scratch copy of /repo, and every check runs on each group.
  quiet.py [--seeds 1,2] [--props C01,C02] [--single] [NAME...]     (--single: one diff at a time)"""
import subprocess, sys, os, glob, shutil, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = "/repo"; S = "/tmp/quiet"
sys.path.insert(0, V)
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
def opt(n, d):
    for i, a in enumerate(sys.argv):
        if a == n: return sys.argv[i + 1]
    return d
def main():
    from props import PROPS
    seeds = opt("--seeds", "1").split(","); props = opt("--props", "").split(",") if opt("--props", "") else sorted(PROPS)
    D = opt("--dir", V + "/tools/quiet"); skip = {opt(x, None) for x in ("--seeds", "--props", "--dir")}
    names = [a for a in sys.argv[1:] if not a.startswith("--") and a not in skip] or sorted(os.path.basename(x)[:-5] for x in glob.glob(D + "/*.diff"))
    left = list(names); bad = 0
    while left:
        shutil.rmtree(S, ignore_errors=True); os.makedirs(S)
        subprocess.check_call(f"git -C {R} archive HEAD | tar -x -C {S}", shell=True); sh("git", "init", "-q", S)
        got, rest = [], []
        for n in left:
            if ("--single" not in sys.argv or not got) and sh("git", "-C", S, "apply", f"{D}/{n}.diff").returncode == 0: got.append(n)
            else: rest.append(n)
        if not got: print("DO NOT APPLY:", rest); bad += 1; break
        left = rest
        print("group:", " ".join(got), flush=True)
        for p in props:
            for s in seeds:
                c = sh("python3", V + "/check.py", p, cwd=V, env=dict(os.environ, HARBOL_REPO=S, VERIF_SEED=s, VERIF_TIER="quick"))
                if c.returncode:
                    bad += 1; v = re.search(r"violation: [^\n]*", c.stdout)
                    print(f"  ALARM {p} seed {s} rc={c.returncode} {(v.group(0) if v else c.stdout[-300:] + c.stderr[-300:])[:400]}", flush=True)
    shutil.rmtree(S, ignore_errors=True)
    print("alarms:", bad); return bad > 0
sys.exit(main())
