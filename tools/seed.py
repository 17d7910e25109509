#!/usr/bin/env python3
"""Create and validate a planted change: seed.py <spec.py>...   (spec defines ID, PROP, EDITS=[(file, old, new)], DEMO, NEEDS, WHAT)"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# exit 0: behaves as stated; non-zero: it does not
d="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
g++ -std=c++11 -O1 -Isrc "$d/demo.cpp" src/*.cpp -o "$t/demo" || exit 99
timeout 120 "$t/demo"
'''


def run(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def one(sp):
    g = {}
    exec(open(sp).read(), g)
    out = os.path.join(V, "seeded", g["ID"])
    w = tempfile.mkdtemp(prefix="seed_")
    try:
        r = os.path.join(w, "r")
        subprocess.check_call(["git", "clone", "-q", "/repo", r])
        os.makedirs(out, exist_ok=True)
        open(out + "/demo.cpp", "w").write(g["DEMO"])
        open(out + "/demo.sh", "w").write(SH)
        os.chmod(out + "/demo.sh", 0o755)
        base = run(["bash", out + "/demo.sh"], r)
        for f, old, new in g["EDITS"]:
            p = os.path.join(r, f)
            s = open(p).read()
            assert s.count(old) == 1, (sp, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = run(["git", "diff"], r).stdout
        open(out + "/patch.diff", "w").write(diff)
        json.dump(dict(property=g["PROP"], needs=g["NEEDS"], what_it_breaks=g["WHAT"]), open(out + "/meta.json", "w"), indent=1)
        bad = run(["bash", out + "/demo.sh"], r)
        env = dict(os.environ, QLIBS_REPO=r)
        c = subprocess.run([sys.executable, os.path.join(V, "engine/check.py"), g["PROP"], "quick"], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        print("%-28s %s base=%d patched=%d check=%d %s" % (g["ID"], g["PROP"], base.returncode, bad.returncode, c.returncode,
              "" if base.returncode == 0 and bad.returncode not in (0, 99) else "INVALID " + base.stdout[-300:] + bad.stdout[-300:]))
        if c.returncode != 1:
            print("   MISSED:", c.stdout[-400:])
    finally:
        shutil.rmtree(w, ignore_errors=True)


for a in sys.argv[1:]:
    one(a)
