#!/usr/bin/env python3
"""One seed is one execution: the event log of every run is the same whatever process executes it, in whatever company and however busy the
machine is.

  determinism.py [runs] [seed...]   for every scenario: runs 0..runs-1 in one process, then in 8 processes at a time that each execute
                                    a different slice, starting elsewhere, under a different environment; compares the hashes of all event logs
"""
import os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import build as B
def hashes(exe, sc, seed, first, n, env=None):
    r = subprocess.run([exe, "hashes", sc, str(seed), str(first), str(n)], capture_output=True, text=True, env=dict(os.environ, **(env or {})), cwd="/" if env else V)
    if r.returncode: raise SystemExit(f"{sc} seed {seed}: exit {r.returncode} {r.stdout[-300:]}{r.stderr[-300:]}")
    return r.stdout.split("\n")[:-1]
def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 400; seeds = [int(x) for x in sys.argv[2:]] or [1, 2, 3]
    exe = B.build(); names = subprocess.run([exe, "list"], capture_output=True, text=True).stdout; names = [l.split()[0] for l in names.splitlines()]; bad = 0
    for sc in names:
        for seed in seeds:
            whole = hashes(exe, sc, seed, 0, n); k = 8; cuts = [n * i // k for i in range(k + 1)]
            with ThreadPoolExecutor(8) as ex:
                parts = list(ex.map(lambda i: hashes(exe, sc, seed, cuts[i], cuts[i + 1] - cuts[i], {"JUNK": "x" * (i * 997), "MALLOC_PERTURB_": str(i * 31)}), range(k)))
            sliced = [l for p in parts for l in p]; diff = sum(a != b for a, b in zip(whole, sliced)) + abs(len(whole) - len(sliced)); bad += diff
            print(f"{sc} seed {seed}: {len(whole)} runs, {len(set(whole))} distinct event logs, {diff} differ", flush=True)
    print("deterministic" if not bad else f"{bad} runs differ"); return bool(bad)
if __name__ == "__main__": sys.exit(main())
