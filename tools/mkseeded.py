#!/usr/bin/env python3
"""Writes seeded/<id>/ from the definitions in tools/seeds/*.seed.

usage: mkseeded.py [-t] [ID...]     -t: also check each one in a scratch copy

A definition is a Python file setting: property, needs, breaks, edits (list of
(file, old, new)), imports (list), demo (Go source), race (bool, optional).
"""
import glob, json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seeds = os.path.join(here, "tools", "seeds")
args = sys.argv[1:]
test = "-t" in args
ids = [a for a in args if a not in ("-t", "-v")]
common = open(seeds + "/common_test.go.txt").read()
demosh = open(seeds + "/demo.sh.txt").read()

def run(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

for f in sorted(glob.glob(seeds + "/*.seed")):
    i = os.path.basename(f)[:-5]
    if ids and i not in ids:
        continue
    d = {}
    exec(open(f).read(), d)
    wt = tempfile.mkdtemp(prefix="seed-")
    try:
        run(f"git -C /repo archive HEAD | tar x -C {wt} && cd {wt} && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x")
        for file, old, new in d["edits"]:
            p = os.path.join(wt, file)
            s = open(p).read()
            if s.count(old) != 1:
                print(i, "BAD EDIT", file, s.count(old)); sys.exit(1)
            open(p, "w").write(s.replace(old, new))
        diff = run(f"cd {wt} && git diff").stdout
        o = os.path.join(here, "seeded", i)
        os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(diff)
        open(o + "/demo.sh", "w").write(demosh.replace("@RACE@", "-race" if d.get("race") else ""))
        open(o + "/common_test.go.txt", "w").write(common)
        imps = "\n".join("\t" + x for x in d["imports"])
        open(o + "/demo_test.go.txt", "w").write(f"package verifdemo\n\nimport (\n{imps}\n)\n\n{d['demo'].strip()}\n")
        json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(o + "/meta.json", "w"), indent=1)
        if test:
            # Applied to /repo and undone, as the build and test scripts use it.
            g = run(f"cd /repo && bash {o}/demo.sh")
            a = run(f"git -C /repo apply {o}/patch.diff")
            try:
                t = run("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seed-tests.json")
                b = run(f"cd /repo && bash {o}/demo.sh")
            finally:
                run("git -C /repo checkout -- .")
            passed = set(json.load(open("/tmp/seed-tests.json"))["passed"])
            lost = [x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"] if x not in passed]
            print(f"{i} ({d['property']}): apply {a.returncode}; tests {'pass' if not lost else 'FAIL'}; demo with patch {b.returncode}, without {g.returncode}", flush=True)
            for x in lost[:5]: print("  lost", x[:200])
            if b.returncode == 0 or "build failed" in b.stdout: print(b.stdout[-1000:])
            elif "-v" in args: print(b.stdout[:600])
            if g.returncode: print(g.stdout[-1000:])
    finally:
        shutil.rmtree(wt)
