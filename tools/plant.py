#!/usr/bin/env python3
"""Development helper: confirm planted bugs in a scratch clone of /repo and store them in seeded/.

Usage: plant.py BATCH.py [ID...]      BATCH.py defines BUGS, a list of dicts with
  id, property, needs, what, edits=[(file, old, new), ...], demo (C++ source), flags (optional)
"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/sb"; R = S + "/repo"; B = S + "/b"
SH = '''#!/bin/bash
# exit 0: behaves as documented; run in the root of the repository
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
g++ -std=c++14 %s -Iinclude -I_build/include "$d/demo.cc" src/*.cc -o "$t/demo" -pthread || exit 3
timeout 120 "$t/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def build():
    if not os.path.isdir(B):
        r = sh(f"meson setup {B} {R} --buildtype=debugoptimized --wrap-mode=nodownload -Dwerror=false -Ddocs=false"); assert r.returncode == 0, r.stdout
    return sh(f"ninja -C {B} all")
def main():
    ns = {}; exec(open(sys.argv[1]).read(), ns); only = sys.argv[2:]
    if not os.path.isdir(R): sh(f"git clone -q /repo {R}")
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for b in ns["BUGS"]:
        if only and b["id"] not in only: continue
        sh(f"git -C {R} fetch -q && git -C {R} reset -q --hard origin/HEAD && git -C {R} clean -fdq")
        bad = None
        for f, old, new in b["edits"]:
            s = open(f"{R}/{f}").read()
            if s.count(old) != 1: bad = f"{f}: text occurs {s.count(old)} times"; break
            open(f"{R}/{f}", "w").write(s.replace(old, new))
        if bad: print(b["id"], "EDIT", bad); continue
        r = build()
        if r.returncode: print(b["id"], "BUILD", r.stdout[-1500:]); continue
        sh(f"python3 /opt/vp/run_catch.py {B}/tests/libgul-test {S}/rep {S}/t.json")
        t = json.load(open(S + "/t.json")); fails = [x for x in base if x not in set(t["passed"])] if base else t["failed"]
        if fails: print(b["id"], "TESTS FAIL", fails[:5]); continue
        d = f"{V}/seeded/{b['id']}"; tmp = S + "/demo"; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        open(tmp + "/demo.cc", "w").write(b["demo"]); open(tmp + "/demo.sh", "w").write(SH % b.get("flags", "-O1")); os.chmod(tmp + "/demo.sh", 0o755)
        good = sh(f"bash {tmp}/demo.sh", cwd="/repo"); broken = sh(f"bash {tmp}/demo.sh", cwd=R)
        if good.returncode != 0: print(b["id"], "DEMO FAILS ON GOOD TREE", good.returncode, good.stdout[-1500:]); continue
        if broken.returncode == 0 or broken.returncode == 3: print(b["id"], "DEMO DOES NOT FAIL", broken.returncode, broken.stdout[-800:]); continue
        shutil.rmtree(d, ignore_errors=True); shutil.copytree(tmp, d)
        open(d + "/patch.diff", "w").write(sh(f"git -C {R} diff").stdout)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(d + "/meta.json", "w"), indent=1)
        # does the check of the property notice it?
        c = sh(f"GUL_REPO={R} python3 {V}/run.py {b['property']} quick")
        print(b["id"], "planted;", "CAUGHT" if c.returncode == 1 and "VIOLATION property=" + b["property"] in c.stdout else f"MISSED rc={c.returncode}", "|", c.stdout.strip().splitlines()[0][:160] if c.stdout.strip() else "")
        sys.stdout.flush()
main()
