#!/usr/bin/env python3
"""Mutation testing of the checks: small changes to single lines of the anchored files, each run against the quick checks of the
properties anchored there, in scratch copies of /repo.  usage: mutate.py OUT.jsonl SEED PER_FILE [JOBS] [FILE_SUBSTRING...]"""
import json, os, random, re, shutil, subprocess, sys, threading, queue
out, seed, per = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]); jobs = int(sys.argv[4]) if len(sys.argv) > 4 else 3; only = sys.argv[5:]
props = {}
for l in open("/verif/properties.jsonl"):
    p = json.loads(l)
    for f in p["anchors"]["files"]: props.setdefault(f, []).append(p["id"])
claimed = {c["property"] if "property" in c else c.get("id") for c in json.load(open("/verif/MANIFEST.json"))["checks"]}
R = random.Random(seed)
OPS = [(r" < ", [" <= "]), (r" <= ", [" < "]), (r" > ", [" >= "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]), (r" && (?!noexcept|\{|requires)", [" || "]), (r" \|\| ", [" && "]),
       (r" \+ 1\b", ["", " + 2"]), (r" - 1\b", ["", " - 2"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r" \+= ", [" = "]), (r"\+\+", ["--"]), (r" - ", [" + "]), (r" \+ ", [" - "]),
       (r"\bif \((?!constexpr)", ["if (!("]), (r"(?<![\w.'\"])(\d+)(?![\w.'\"])", ["N"]), (r"\bstd::move\((\w+)\)", ["M"]), (r"^(\s+)([\w.>\-:\[\]*]+\(.*\)|[\w.>\-:\[\]*]+ [+\-|&^]?= .*|return|break|continue|\+\+\w+|--\w+);\s*$", ["DEL"]),
       (r"'(.)'", ["C"]), (r"0x([0-9a-fA-F]+)", ["H"]), (r" & ", [" | "]), (r" << ", [" >> "]), (r" >> ", [" << "]), (r"\bstd::min\b", ["std::max"]), (r"\bsize\(\)", ["size() - 1"])]
def mutants(f):
    src = open("/repo/" + f, encoding="utf-8").read().split("\n"); res = []; comment = False; win = depth = 0
    for n, l in enumerate(src):
        s = l.strip()
        if s.startswith("#if") and ("WIN" in s or "_MSC" in s): win = depth + 1
        if s.startswith("#if"): depth += 1
        if s.startswith(("#else", "#elif")) and win == depth: win = 0
        if s.startswith("#elif") and "WIN" in s: win = depth
        if s.startswith("#endif"):
            if win == depth: win = 0
            depth -= 1
        if win: continue
        if s.startswith("/*"): comment = True
        if comment:
            if "*/" in s: comment = False
            continue
        if not s or s.startswith(("//", "#", "*", "template", "requires", "using", "static_assert", "namespace", "concept", "friend", "typename")): continue
        code = l.split("//")[0]
        for pat, reps in OPS:
            for m in re.finditer(pat, code):
                for r in reps:
                    if r == "N": new = code[:m.start()] + str(int(m.group(1)) + 1) + code[m.end():]
                    elif r == "H": new = code[:m.start()] + hex(int(m.group(1), 16) ^ 1) + code[m.end():]
                    elif r == "M": continue
                    elif r == "C": new = code[:m.start()] + "'" + chr(ord(m.group(1)) ^ 1) + "'" + code[m.end():] if m.group(1) not in "\\'" and ord(m.group(1)) < 127 and chr(ord(m.group(1)) ^ 1) not in "\\'" else None
                    elif r == "DEL": new = m.group(1) + ";"
                    elif r == "if (!(":
                        k, d = m.end(), 1
                        while k < len(code) and d: d += {"(": 1, ")": -1}.get(code[k], 0); k += 1
                        new = code[:m.start()] + "if (!(" + code[m.end():k] + ")" + code[k:] if not d else None
                    else: new = code[:m.start()] + r + code[m.end():]
                    if new and new != code: res.append((n, l, new))
    return res
work = queue.Queue(); files = sorted(f for f in props if not only or any(o in f for o in only))
done = set()
if os.path.exists(out): done = {(json.loads(l)["file"], json.loads(l)["line"], json.loads(l)["new"]) for l in open(out)}
todo = []
for f in files:
    ms = mutants(f); R.shuffle(ms); lines = set(); k = 0
    for m in ms:
        if k >= per: break
        if m[0] in lines: continue
        lines.add(m[0]); k += 1; todo.append((f, m))
R.shuffle(todo)
for t in todo:
    if (t[0], t[1][0] + 1, t[1][2].strip()) not in done: work.put(t)
print(len(todo), "mutants", flush=True)
lock = threading.Lock()
def worker(k):
    wt, vv = f"/tmp/mut/r{k}", f"/tmp/mut/v{k}"
    for d in (wt, vv): shutil.rmtree(d, ignore_errors=True)
    os.makedirs(wt); subprocess.run(f"cd /repo && git archive HEAD include lib | tar x -C {wt}", shell=True, check=True)
    os.makedirs(vv); subprocess.run(f"cd /verif && git archive HEAD | tar x -C {vv}; cp -a /verif/build {vv}/build 2>/dev/null; rm -f {vv}/build/*.bin", shell=True)
    while True:
        try: f, (n, old, new) = work.get_nowait()
        except queue.Empty: return
        path = f"{wt}/{f}"; src = open(path, encoding="utf-8").read(); ls = src.split("\n"); assert ls[n] == old; ls[n] = new
        open(path, "w", encoding="utf-8").write("\n".join(ls)); verdict = "survived"; by = ""
        for p in props[f]:
            if p not in claimed: continue
            try:
                r = subprocess.run(["bash", f"{vv}/run.sh", p, "quick"], env=dict(os.environ, PBT_REPO=wt, VERIF_SEED="1", VERIF_TIER="quick"), capture_output=True, text=True, errors="replace", timeout=400); o = r.stdout + r.stderr
            except subprocess.TimeoutExpired: verdict, by = "timeout", p; break
            if "VIOLATION" in o: verdict, by = "killed", p; break
            if "harness build failed" in o: verdict, by = "nobuild", p; break
            if r.returncode: verdict, by = f"rc{r.returncode}", p; break
        open(path, "w", encoding="utf-8").write(src)
        with lock:
            with open(out, "a") as h: h.write(json.dumps({"file": f, "line": n + 1, "old": old.strip(), "new": new.strip(), "verdict": verdict, "by": by}, ensure_ascii=False) + "\n")
        shutil.rmtree(f"{vv}/replays", ignore_errors=True)
ts = [threading.Thread(target=worker, args=(k,)) for k in range(jobs)]
[t.start() for t in ts]; [t.join() for t in ts]
