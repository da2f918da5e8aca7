#!/usr/bin/env python3
"""Build the simulator from /repo's current working tree.

Every library source under /repo (test programs excluded) is compiled with
AddressSanitizer and basic-block tracing, and its references to libc's
allocator, stdio opens/closes, directory, loader, clock and randomness
functions are renamed to the simulator's seams with objcopy, so the code under
test is the real code and nothing in /repo needs to change."""
import glob, hashlib, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("HARBOL_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
CC = "gcc"

REDEF = """malloc calloc realloc free reallocarray aligned_alloc posix_memalign strdup strndup asprintf vasprintf
malloc_usable_size fopen fclose freopen remove rename access fileno stat lstat fstat time clock clock_gettime
gettimeofday srand rand random opendir readdir closedir rewinddir getcwd realpath dlopen dlsym dlclose dlerror
stderr stdout""".split()
ALIAS = """fopen64 freopen64 stat64 lstat64 fstat64 readdir64 unlink srandom cfree""".split()

LIBFLAGS = ["-std=c99", "-g", "-w", "-U_FORTIFY_SOURCE", "-fno-omit-frame-pointer",
            "-fsanitize=address", "-fsanitize-coverage=trace-pc", "-ftrivial-auto-var-init=pattern", "-fno-common",
            "-fno-builtin-malloc", "-fno-builtin-calloc", "-fno-builtin-realloc", "-fno-builtin-free", "-fno-builtin-strdup", "-fno-builtin-strndup"]
SIMFLAGS = ["-std=gnu11", "-D_GNU_SOURCE=1", "-O1", "-g", "-w", "-U_FORTIFY_SOURCE", "-fno-omit-frame-pointer", "-fsanitize=address"]


def lib_sources():
    out = []
    for pat in ("*.c", "*/*.c", "*/*/*.c"):
        for p in sorted(glob.glob(os.path.join(REPO, pat))):
            b = os.path.basename(p)
            if b.startswith("test_") or "/plugins/test" in p or "/_build/" in p:
                continue
            if os.path.basename(os.path.dirname(p)).startswith("test"):
                continue
            out.append(p)
    return out


def tree_hash(opt):
    h = hashlib.sha256(opt.encode())
    files = []
    for root, ds, fs in os.walk(REPO):
        ds[:] = sorted(d for d in ds if d not in (".git", "_build"))
        for f in sorted(fs):
            if f.endswith((".c", ".h")):
                files.append(os.path.join(root, f))
    for f in files + sorted(glob.glob(HERE + "/sim/*.[chd]*")) + [os.path.abspath(__file__)]:
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:20]


def run(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write(" ".join(cmd) + "\n" + r.stdout + r.stderr)
        raise SystemExit(3)


def build(opt="-O1"):
    """-O1, or -O0 where every access to a variable in the source has to be one in the run (the thread scenario)"""
    key = tree_hash(opt)
    out = os.path.join(BUILD, key)
    exe = os.path.join(out, "sim")
    if os.path.exists(exe):
        return exe
    os.makedirs(out, exist_ok=True)
    redef = os.path.join(out, "redef.txt")
    with open(redef, "w") as f:
        for s in REDEF + ALIAS:
            f.write(f"{s} sim_{s}\n")
    objs, jobs = [], []
    pid = os.getpid()
    for i, src in enumerate(lib_sources()):
        o = os.path.join(out, f"lib{i}_{os.path.basename(src)}.{pid}.o")
        objs.append(o)
        jobs.append(("lib", src, o))
    for src in sorted(glob.glob(HERE + "/sim/*.c")):
        o = os.path.join(out, f"sim_{os.path.basename(src)}.{pid}.o")
        objs.append(o)
        jobs.append(("shim" if os.path.basename(src).startswith("shim") else "sim", src, o))

    def one(j):
        kind, src, o = j
        if kind in ("lib", "shim"):   # shims instantiate the library's header-only functions
            run([CC, opt] + LIBFLAGS + (["-I", REPO, "-I", HERE + "/sim"] if kind == "shim" else []) + ["-c", src, "-o", o])
            # seams, and the library's own writable globals gathered so that each run starts from a fresh process image
            run(["objcopy", "--redefine-syms=" + redef, "--rename-section", ".bss=harbolbss", "--rename-section", ".data=harboldata",
                 "--rename-section", ".data.rel=harboldata", "--rename-section", ".data.rel.local=harboldata", o])
        else:
            run([CC] + SIMFLAGS + ["-I", REPO, "-I", HERE + "/sim", "-c", src, "-o", o])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, jobs))
    tmp = exe + f".{pid}"
    run([CC, "-fsanitize=address", "-o", tmp] + objs + ["-lm", "-lpthread"])
    os.replace(tmp, exe)
    for o in objs:
        os.unlink(o)
    # keep the cache small: drop older builds
    for d in os.listdir(BUILD):
        p = os.path.join(BUILD, d)
        if d != key and len(d) == 20 and os.path.isdir(p) and os.path.getmtime(p) < os.path.getmtime(exe) - 3600:
            for f in os.listdir(p):
                try: os.unlink(os.path.join(p, f))
                except OSError: pass
            try: os.rmdir(p)
            except OSError: pass
    return exe


if __name__ == "__main__":
    print(build())
