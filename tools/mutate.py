#!/usr/bin/env python3
"""Mutation testing of the checks: small syntactic changes to the library, each decided by the scenarios of its file with a reduced
budget, survivors then with the full quick budget. Reports what no scenario notices: equivalent changes, or gaps to close.

  mutate.py OUT.jsonl [file...]     OUT.jsonl gets one line per mutant; rerunning skips those already there
  mutate.py --again OUT.jsonl       full quick budget for the survivors in OUT.jsonl; writes OUT.jsonl.again
"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import build as B
from props import PROPS
OPT = "-O1"
W = int(os.environ.get("VERIF_WORKERS", "8")); S = os.environ.get("MUT_SCRATCH", "/tmp/mut")
SC = {"map/map.c": ["map"], "array/array.c": ["array"], "deque/deque.c": ["deque"], "tree/tree.c": ["tree"], "tuple/tuple.c": ["tuple"], "variant/variant.c": ["tuple"],
      "str/str.c": ["string"], "bytebuffer/bytebuffer.c": ["bytebuf"], "lex/lex.c": ["lex", "cfgparse"], "math/math_parser.c": ["math"], "math/math_parser.h": ["math"],
      "cfg/cfg.c": ["cfgset", "cfgio", "cfgparse"], "msg_span/msg_span.c": ["msg"], "msg_sys/msg_sys.c": ["msg"], "plugins/plugins.c": ["plugin", "plugdir"], "plugins/tinydir.h": ["plugdir"],
      "allocators/objpool/objpool.c": ["objpool"], "allocators/region/region.c": ["arena", "mempool"], "allocators/bistack/bistack.c": ["arena"], "allocators/mempool/mempool.c": ["mempool"],
      "harbol_common_includes.h": ["bufs", "ingest", "arena", "plugin"]}
TOT = {s["name"]: s["quick"] for p in PROPS.values() for s in p["scenarios"]}
REL = [(r"(?<![<>=\-!])<(?![<=])", "<="), (r"(?<!<)<=", "<"), (r"(?<![<>=\-])>(?![>=])", ">="), (r"(?<!>)>=", ">"), ("==", "!="), ("!=", "=="), ("&&", "||"), (r"\|\|", "&&"),
       (r"(?<=[\w\)\]]) \+ (?=[\w\(])", " - "), (r"(?<=[\w\)\]]) - (?=[\w\(])", " + "), (r"(?<=[\w\)\]]) \* (?=[\w\(])", " + "), (r"\+1\b", "+0"), (r"\+ 1\b", "+ 0"), (r"-1\b", "-0"), (r"- 1\b", "- 0"),
       (r"\+\+", "--"), (r"--(?!-)", "++"), (r"\+=", "-="), (r"-=", "+="), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bbreak;", ";"), (r"\bcontinue;", ";"), (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])([1-9]\d*)(?![\w.])", lambda m: str(int(m.group(1)) + 1)),
       (r"\bSIZE_MAX\b", "0"), (r"\bNULL\b(?=\))", None)]
def mutants(text):
    """(line, kind, new line)"""
    out = []; incom = False
    for n, l in enumerate(text.split("\n")):
        s = l.strip()
        if incom:
            if "*/" in s: incom = False
            continue
        if s.startswith("/*"):
            incom = "*/" not in s; continue
        if not s or s.startswith(("//", "#", "*")) or "HARBOL_EXPORT" in s or s.startswith("static inline") or "NO_NULL" in s and s.endswith("{"): continue
        code = l.split("///")[0].split("//")[0] if '"' not in l else l
        spans = [m.span() for m in re.finditer(r'"(\\.|[^"\\])*"|\'(\\.|[^\'\\])*\'', code)]
        for rx, rep in REL:
            if rep is None: continue
            for m in re.finditer(rx, code):
                if any(a <= m.start() < b for a, b in spans): continue
                nl = l[:m.start()] + (rep(m) if callable(rep) else rep) + l[m.end():]
                if nl != l: out.append((n, f"{m.group(0).strip()}@{m.start()}", nl))
        m = re.match(r"^(\s*(?:\} else )?if\( )(.*)( \)(?: \{)?)$", l)
        if m: out.append((n, "negate", m.group(1) + "!(" + m.group(2) + ")" + m.group(3)))
        if re.match(r"^\s*[\w\->\.\[\]\*\(\)&, ]+(=|\+=|-=|\|=|\()[^{}]*;$", l) and not re.match(r"^\s*(return|struct|union|enum|const|size_t|ssize_t|char|bool|int\w*|uint\w*|float\w*|static|FILE|void|else|for|while|do|typedef|Harbol\w+|goto|case)\b", l): out.append((n, "delete", re.match(r"^\s*", l).group(0) + ";"))
        m = re.match(r"^(\s*)return ?\(?(.+?)\)?;$", l)
        if m and "||" not in l and "&&" not in l and m.group(2) not in ("true", "false") and "NULL" != m.group(2): out.append((n, "return0", m.group(1) + "return 0;"))
    seen = set(); r = []
    for n, k, nl in out:
        if (n, nl) not in seen: seen.add((n, nl)); r.append((n, k, nl))
    return r
def compile_to(src, o, kind, tree):
    if kind == "sim": cmd = [B.CC] + B.SIMFLAGS + ["-I", tree, "-I", V + "/sim", "-c", src, "-o", o]
    else: cmd = [B.CC, OPT] + B.LIBFLAGS + (["-I", tree, "-I", V + "/sim"] if kind == "shim" else []) + ["-c", src, "-o", o]
    if subprocess.run(cmd, capture_output=True).returncode: return False
    if kind != "sim": subprocess.run(["objcopy", "--redefine-syms=" + S + "/redef.txt", "--rename-section", ".bss=harbolbss", "--rename-section", ".data=harboldata", "--rename-section", ".data.rel=harboldata", "--rename-section", ".data.rel.local=harboldata", o], check=True)
    return True
def libs(): return [os.path.relpath(p, B.REPO) for p in B.lib_sources()]
def simsrcs(): return sorted(f for f in os.listdir(V + "/sim") if f.endswith(".c"))
def setup():
    os.makedirs(S, exist_ok=True)
    with open(S + "/redef.txt", "w") as f:
        for s in B.REDEF + B.ALIAS: f.write(f"{s} sim_{s}\n")
    for w in range(W):
        t = f"{S}/w{w}"; shutil.rmtree(t, ignore_errors=True); shutil.copytree(B.REPO, t + "/repo", ignore=shutil.ignore_patterns(".git", "*.o", "*.a", "_build")); os.makedirs(t + "/o")
    t = f"{S}/w0"
    jobs = [(f"{t}/repo/{p}", f"{S}/base_{p.replace('/', '_')}.o", "lib") for p in libs()] + [(f"{V}/sim/{p}", f"{S}/base_sim_{p}.o", "shim" if p.startswith("shim") else "sim") for p in simsrcs()]
    with ThreadPoolExecutor(W) as ex: assert all(ex.map(lambda j: compile_to(j[0], j[1], j[2], t + "/repo"), jobs))
def make(w, f, n, nl):
    t = f"{S}/w{w}"; p = f"{t}/repo/{f}"; old = open(p).read(); ls = old.split("\n"); ls[n] = nl; exe = f"{t}/sim"
    try:
        open(p, "w").write("\n".join(ls))
        ch = [x for x in libs() if x == f] if f.endswith(".c") else libs(); objs = []
        for x in libs():
            o = f"{S}/base_{x.replace('/', '_')}.o"
            if x in ch:
                if not f.endswith(".c") and os.path.basename(f) == "math_parser.h" and x not in ("math/math_parser.c", "cfg/cfg.c"): pass
                elif os.path.basename(f) == "tinydir.h" and x != "plugins/plugins.c": pass
                else:
                    o = f"{t}/o/{x.replace('/', '_')}.o"
                    if not compile_to(f"{t}/repo/{x}", o, "lib", t + "/repo"): return None
            objs.append(o)
        for x in simsrcs():
            o = f"{S}/base_sim_{x}.o"
            if not f.endswith(".c") and x.startswith("shim") and "common" in f:
                o = f"{t}/o/{x}.o"
                if not compile_to(f"{V}/sim/{x}", o, "shim", t + "/repo"): return None
            if f == "math/math_parser.h" and x in ("sc_math.c", "sc_threads.c"):
                o = f"{t}/o/{x}.o"
                if not compile_to(f"{V}/sim/{x}", o, "sim", t + "/repo"): return None
            objs.append(o)
        if subprocess.run([B.CC, "-fsanitize=address", "-o", exe] + objs + ["-lm", "-lpthread"], capture_output=True).returncode: return None
        return exe
    finally: open(p, "w").write(old)
def batch(exe, sc, total, cap, w, seed=1):
    tmp = tempfile.mkdtemp(prefix="mb", dir=S)
    try:
        r = subprocess.run(["timeout", str(cap + 60), exe, "batch", sc, str(seed), "0", str(total), "40", "0", "1", tmp + "/t.tab", tmp, str(cap), "1"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        for l in r.stdout.decode(errors="replace").splitlines():
            try: d = json.loads(l)
            except ValueError: return "garbled"
            if "violation" in d: return d["violation"]
        return None if r.returncode == 0 else f"exit {r.returncode}"
    finally: shutil.rmtree(tmp, ignore_errors=True)
def tests_pass(w, f, n, nl):
    t = f"{S}/w{w}/full"; shutil.rmtree(t, ignore_errors=True)
def main():
    again = sys.argv[1] == "--again"; out = sys.argv[2] if again else sys.argv[1]
    setup(); work = []
    if again:
        work = [json.loads(l) for l in open(out)]; work = [d for d in work if d["res"] is None]
        out += ".again"
    else:
        files = sys.argv[2:] or list(SC)
        done = {(d["file"], d["line"], d["new"]) for d in map(json.loads, open(out))} if os.path.exists(out) else set()
        for f in files:
            text = open(f"{B.REPO}/{f}").read(); ls = text.split("\n")
            for n, k, nl in mutants(text):
                if (f, n + 1, nl) not in done: work.append({"file": f, "line": n + 1, "kind": k, "old": ls[n], "new": nl})
    print(len(work), "mutants", flush=True)
    q = Queue(); [q.put(i) for i in range(W)]; fo = open(out, "a")
    def one(d):
        w = q.get()
        try:
            exe = make(w, d["file"], d["line"] - 1, d["new"])
            if exe is None: d["res"] = "nobuild"
            else:
                d["res"] = None
                for sc in SC[d["file"]]:
                    r = batch(exe, sc, TOT[sc] // int(os.environ.get("MUT_DIV", "1")) if again else max(1500, TOT[sc] // 12), 240 if again else 15, w, 1)
                    if r: d["res"] = f"{sc}: {r}"; break
        except Exception as e: d["res"] = f"error {e}"
        finally: q.put(w)
        fo.write(json.dumps(d) + "\n"); fo.flush()
        return d["res"]
    with ThreadPoolExecutor(W) as ex: res = list(ex.map(one, work))
    print("survived", sum(r is None for r in res), "of", sum(r != "nobuild" for r in res))
if __name__ == "__main__": main()
