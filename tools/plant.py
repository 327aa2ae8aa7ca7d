#!/usr/bin/env python3
"""Plant a bug: apply edits in a scratch copy of /repo, write seeded/<id>/{patch.diff,meta.json,demo.sh,demo.cpp},
run the demo on the unchanged tree (expects 0) and on the changed one (expects nonzero).
Usage: plant.py ID    with seeded/<id>/meta.json, demo.cpp (or demo.sh) and patch.diff already there: only verifies.
As a module: plant(id, property, needs, breaks, [(file, old, new)...], demo_cpp, flags)"""
import json, os, subprocess, sys, shutil, tempfile
ROOT = "/verif/seeded"
DEMO = '''#!/bin/bash
# Run with cwd = the repository.  Exit 0: the property holds in this demonstration; nonzero: it does not.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
CXX=$(command -v clang++-20 || command -v clang++)
F="-std=c++20 -DNDEBUG -DHXLIBS_ENABLE_SSL -DHXLIBS_ENABLE_DB_SQLITE3 -Iinclude -Ilib/liburing/include"
%s$CXX $F %s "$D/demo.cpp" %s -o "$T/demo" %s || { echo "demo does not compile"; exit 0; }
cd "$T" && timeout 60 ./demo
'''
def demo_sh(flags, net):
    pre = '$CXX -x c++ $F -w -c lib/liburing/liburing.cpp -o "$T/uring.o" || exit 0\n' if net else ''
    return DEMO % (pre, flags, '"$T/uring.o"' if net else '', '-lssl -lcrypto -lsqlite3 -lpthread' if net else '-lssl -lcrypto -lpthread')
def verify(id):
    d = f"{ROOT}/{id}"
    wt = tempfile.mkdtemp(prefix="plant", dir="/tmp")
    try:
        subprocess.run(f"cd /repo && git archive HEAD | tar x -C {wt} && cd {wt} && git init -q . ", shell=True, check=True)
        dd = tempfile.mkdtemp(prefix="demo", dir="/tmp")
        for f in os.listdir(d):
            if not f.endswith((".diff", ".patch")) and f != "meta.json": shutil.copy(f"{d}/{f}", dd)
        r0 = subprocess.run(["bash", f"{dd}/demo.sh"], cwd=wt, capture_output=True, text=True)
        subprocess.run(["git", "apply", f"{d}/patch.diff"], cwd=wt, check=True)
        r1 = subprocess.run(["bash", f"{dd}/demo.sh"], cwd=wt, capture_output=True, text=True)
        shutil.rmtree(dd)
    finally:
        shutil.rmtree(wt)
    ok = r0.returncode == 0 and r1.returncode != 0 and "does not compile" not in r0.stdout + r1.stdout
    print(("OK  " if ok else "BAD ") + id, "unchanged:", r0.returncode, r0.stdout[-200:].strip(), "| changed:", r1.returncode, r1.stdout[-200:].strip())
    if not ok: print(r0.stderr[-1500:], r1.stderr[-1500:])
    return ok
def plant(id, prop, needs, breaks, edits, demo, flags="-O0", net=False):
    d = f"{ROOT}/{id}"; os.makedirs(d, exist_ok=True)
    diff = ""
    files = {}
    for f, o, n in edits:
        s = files.get(f) or open(f"/repo/{f}", encoding="utf-8").read()
        assert s.count(o) == 1, (id, f, s.count(o), o)
        files[f] = s.replace(o, n)
    wt = tempfile.mkdtemp(prefix="plant", dir="/tmp")
    for f, s in files.items():
        for side, txt in (("a", open(f"/repo/{f}", encoding="utf-8").read()), ("b", s)):
            os.makedirs(os.path.dirname(f"{wt}/{side}/{f}"), exist_ok=True); open(f"{wt}/{side}/{f}", "w", encoding="utf-8").write(txt)
        diff += subprocess.run(["git", "diff", "--no-index", "--no-prefix", f"a/{f}", f"b/{f}"], cwd=wt, capture_output=True, text=True).stdout
    shutil.rmtree(wt)
    open(f"{d}/patch.diff", "w", encoding="utf-8").write(diff)
    if demo is not None: open(f"{d}/demo.cpp", "w").write(demo)
    open(f"{d}/demo.sh", "w").write(demo_sh(flags, net))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    return verify(id)
if __name__ == "__main__":
    for i in sys.argv[1:]: verify(i)
