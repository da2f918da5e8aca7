"""mk(id, property, file, [(old,new)...], needs, breaks, demo_c): write /verif/seeded/<id>. demo_c is a C program; exit 0 = property holds."""
import os, subprocess, json, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# run in /repo after the build: compiles the demonstration with the library's own sources and runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD; t=$(mktemp -d); trap 'rm -r "$t"' EXIT
srcs=$(ls */*.c allocators/*/*.c | grep -v '/test_' | sed "s|^|$repo/|")
gcc -std=gnu11 -g -O1 -w -fsanitize=address -fno-omit-frame-pointer @FLAGS@ -I"$repo" "$here/demo.c" $srcs -o "$t/demo" -lm -ldl -lpthread || { echo "demo does not build"; exit 0; }
cd "$t" && ASAN_OPTIONS=detect_leaks=1:allocator_may_return_null=1 timeout -k 5 @TO@ ./demo > out.txt 2>&1; rc=$?
tail -5 out.txt; exit $rc
'''
WRAP = "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc"
FAULT = r'''
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
static long fail_at; /* 1 = next allocation fails */
static int hit(void) { return fail_at > 0 && --fail_at == 0; }
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
void *__wrap_malloc(size_t n) { return hit() ? NULL : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { return hit() ? NULL : __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { return hit() ? NULL : __real_realloc(p, n); }
'''
def mk(id, prop, edits, needs, breaks, demo, fault=False, flags="", to=100):
    d = f"{V}/seeded/{id}"; os.makedirs(d, exist_ok=True)
    saved = {}
    try:
        for f, old, new in edits:
            p = "/repo/" + f; s = open(p).read(); saved.setdefault(p, s)
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", "/repo", "diff"], text=True)
    finally:
        for p, s in saved.items(): open(p, "w").write(s)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.c", "w").write((FAULT if fault else "") + demo)
    open(d + "/demo.sh", "w").write(DEMO.replace("@FLAGS@", (WRAP if fault else "") + " " + flags).replace("@TO@", str(to)))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
