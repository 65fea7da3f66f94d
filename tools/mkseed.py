#!/usr/bin/env python3
"""mkseed.py SPEC.py [ID...]: makes /verif/seeded/ID from a list SEEDS of dicts(id, property, edits=[(file, old, new)], demo, needs, breaks).
Each is confirmed in a scratch copy of /repo: it builds, passes the stable tests, and the demo fails with it and passes without."""
import json, os, shutil, subprocess, sys, tempfile
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
DEMO = '''#!/bin/bash
# exit 0: the property holds on this input; nonzero: it does not
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -r -- "$t"' EXIT
g++-14 -std=c++20 -w -O1 -g -fsanitize=address,undefined -fno-sanitize-recover=all -I sources "$d/demo.cpp" -o "$t/demo" || exit 2
timeout 60 "$t/demo"
'''
HEAD = '''#include "pyincpp.hpp"
#include <iostream>
#include <sstream>
using namespace pyincpp;
#define EXPECT(c) do { if (!(c)) { std::cerr << "failed: " #c "\\n"; return 1; } } while (0)
template <typename T> std::string str(const T& x) { std::ostringstream o; o << x; return o.str(); }
int main()
{
'''
ns = {}
exec(open(sys.argv[1]).read(), ns)
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
os.system("bash /opt/vp/build.sh >/dev/null 2>&1")
for s in ns["SEEDS"]:
    if sys.argv[2:] and s["id"] not in sys.argv[2:]:
        continue
    try:
        for f, a, b in s["edits"]:
            p = "/repo/sources/" + f
            t = open(p, newline="").read()
            a, b = a.replace("\n", "\r\n"), b.replace("\n", "\r\n")
            if t.count(a) != 1:
                print(s["id"], "EDIT", t.count(a), "matches:", a[:60]); break
            open(p, "w", newline="").write(t.replace(a, b))
        else:
            diff = subprocess.run(["git", "-C", "/repo", "diff", "--", "sources"], stdout=subprocess.PIPE).stdout
            d = os.path.join(OUT, s["id"])
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "wb").write(diff)
            open(d + "/demo.sh", "w").write(DEMO)
            os.chmod(d + "/demo.sh", 0o755)
            open(d + "/demo.cpp", "w").write(HEAD + s["demo"].strip("\n") + "\n    return 0;\n}\n")
            json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
            b = subprocess.run(["bash", "/opt/vp/build.sh"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if b.returncode:
                print(s["id"], "DOES NOT BUILD", b.stdout[-600:]); continue
            try:
                subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/seedt.json"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
                miss = [x for x in base if x not in json.load(open("/tmp/seedt.json"))["passed"]]
            except subprocess.TimeoutExpired:
                miss = ["timeout"]
            bad = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
            good = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            ok = not miss and bad.returncode not in (0, 2) and good.returncode == 0
            print(s["id"], "OK" if ok else "REJECTED", "" if not miss else "tests: %s" % miss[:4], "demo with:", bad.returncode, "without:", good.returncode, "" if ok else (bad.stdout + good.stdout)[-300:], flush=True)
            if not ok:
                shutil.rmtree(d)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
os.system("bash /opt/vp/build.sh >/dev/null 2>&1")
