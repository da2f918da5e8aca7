#!/usr/bin/env python3
"""Library basic blocks no quick batch reaches. Usage: coverage.py [seed]. Reads the batches' coverage tables; prints per function the
share of blocks reached and the source lines of the blocks that were not."""
import os, re, subprocess, sys, tempfile, collections
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
import build as B
from props import PROPS
exe = B.build(); seed = sys.argv[1] if len(sys.argv) > 1 else "1"
tmp = tempfile.mkdtemp(); tab = tmp + "/tab"
for pr in sorted(PROPS):
    for sc in PROPS[pr]["scenarios"]:
        n = max(200, sc["quick"] // 10)
        ps = [subprocess.Popen([exe, "batch", sc["name"], seed, "0", str(n), "40", str(w), "8", tab, tmp, "240", "1"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) for w in range(8)]
        for p in ps: p.wait()
cov = open(tab, "rb").read()[2 * (1 << 20) * 8:][:1 << 16]
d = subprocess.run(["objdump", "-d", "--no-show-raw-insn", exe], capture_output=True, text=True).stdout.splitlines()
sites = []; want = False; fn = None
for l in d:
    m = re.match(r"^[0-9a-f]+ <(.*)>:", l)
    if m: fn = m.group(1); want = False; continue
    m = re.match(r"^\s+([0-9a-f]+):\s", l)
    if not m: continue
    a = int(m.group(1), 16)
    if want: sites.append((a, fn)); want = False
    if "call" in l and "<__sanitizer_cov_trace_pc>" in l: want = True
loc = subprocess.run(["addr2line", "-e", exe], input="\n".join(hex(a - 1) for a, _ in sites), capture_output=True, text=True).stdout.splitlines()
tot = collections.Counter(); hit = collections.Counter(); miss = collections.defaultdict(list)
for (a, f), where in zip(sites, loc):
    h = ((a * 0x9E3779B1) % (1 << 64) >> 7) & 0xFFFF
    src = where.split(" ")[0]; key = (os.path.basename(src.split(":")[0]), f); tot[key] += 1
    if cov[h]: hit[key] += 1
    else: miss[key].append(int(src.split(":")[-1]) if src.split(":")[-1].isdigit() else 0)
for k in sorted(tot):
    if miss[k]: print(f"{k[0]:28s} {k[1]:48s} {hit[k]}/{tot[k]} unreached lines {sorted(set(miss[k]))}")
print("blocks", sum(hit.values()), "of", sum(tot.values()))
subprocess.run(["rm", "-r", tmp])
