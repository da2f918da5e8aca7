#!/usr/bin/env python3
"""Makes each local variable of the library static (assigned where it was initialised), one at a time: hidden state shared between
threads and between calls, which the thread scenario has to notice wherever the variable lives across a preemption point.

  staticize.py OUT.jsonl [file...]
"""
import json, os, re, sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
import mutate as M
M.OPT = "-O0"
TY = r"(?:(?:struct|union|enum) \w+|size_t|ssize_t|u?int\w*_t|floatmax_t|float\w*|double|int|char|bool|ptrdiff_t|FILE|void|va_list|unsigned)"
def muts(text):
    for n, l in enumerate(text.split("\n")):
        m = re.match(r"^(\t+)(" + TY + r")((?: const)?(?: ?\*(?:(?:const)?(?: ?restrict)?)?)*\s*)(const\s+)?(\**)(\w+)((?:\[[^\]]*\])*) = (.+);(.*)$", l)
        if m and "static" not in l and "," not in re.sub(r"\([^()]*\)|\{[^}]*\}", "", m.group(8)):
            ind, ty, q, _, st, name, dim, init, _ = m.groups(); stars = (q + st).count("*"); cst = " const" if q.strip().startswith("const") and stars else ""
            if dim: nl = f"{ind}static {ty}{cst} {'*' * stars}{name}{dim}; memset({name}, 0, sizeof {name});" if re.match(r"\{ ?0? ?\}|\"\"", init) else None
            elif init.startswith("{"): nl = f"{ind}static {ty}{cst} {'*' * stars}{name}; {name} = ( {ty}{cst} {'*' * stars})" + init + ";"
            else: nl = f"{ind}static {ty}{cst} {'*' * stars}{name}; {name} = {init};"
            if nl: yield n, f"static {name}", nl
        m = re.match(r"^(\t+)(" + TY + r")(\s+)(\w+)((?:\[[^\]]*\])?);$", l)
        if m: yield n, f"static {m.group(4)}", f"{m.group(1)}static {m.group(2)} {m.group(4)}{m.group(5)};"
def main():
    out = sys.argv[1]; M.setup(); work = []
    for f in sys.argv[2:] or [x for x in M.SC if "tinydir" not in x]:
        text = open(f"{M.B.REPO}/{f}").read(); ls = text.split("\n")
        for n, k, nl in muts(text): work.append({"file": f, "line": n + 1, "kind": k, "old": ls[n], "new": nl})
    print(len(work), flush=True); q = Queue(); [q.put(i) for i in range(M.W)]; fo = open(out, "w")
    def one(d):
        w = q.get()
        try:
            exe = M.make(w, d["file"], d["line"] - 1, d["new"]); d["res"] = "nobuild" if exe is None else M.batch(exe, "threads", int(os.environ.get("RUNS", "8000")), 60, w)
        except Exception as e: d["res"] = f"error {e}"
        finally: q.put(w)
        fo.write(json.dumps(d) + "\n"); fo.flush(); return d["res"]
    with ThreadPoolExecutor(M.W) as ex: r = list(ex.map(one, work))
    print("unnoticed", sum(x is None for x in r), "of", sum(x != "nobuild" for x in r))
if __name__ == "__main__": main()
