#!/usr/bin/env python3
"""mkseed.py NAME PROP FILE <<< {"old":..., "new":..., "needs":..., "breaks":..., "demo": ..., "ext": "cpp"|"sh"} : writes one planted change"""
import json, os, subprocess, sys
DEMO = r'''#!/bin/bash
# run with cwd = the repository, after its build
here=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d); trap '/bin/rm -rf "$T"' EXIT
export LC_ALL=C.UTF-8
g++ -std=gnu++17 -w -I"$R" -I"$R/_build" -I"$R/_build/TameParse" "$here/demo.cpp" -L"$R/_build/TameParse/.libs" -lTameParse -Wl,-rpath,"$R/_build/TameParse/.libs" -o "$T/demo" || exit 2
cd "$T" && timeout 60 ./demo
'''
def seed(name, prop, edits, needs, breaks, demo, sh=None, files=None):
    d = os.path.join("/verif/seeded", name); os.makedirs(d, exist_ok=True)
    w = "/tmp/mkseed"; subprocess.run("rm -rf /tmp/mkseed && mkdir -p /tmp/mkseed && git -C /repo archive HEAD | tar -x -C /tmp/mkseed && cd /tmp/mkseed && git init -q . && git add -A && git -c user.email=a@b -c user.name=a commit -qm base", shell=True, check=True)
    for f, old, new in edits:
        p = os.path.join(w, f); s = open(p).read(); assert s.count(old) == 1, (name, f, s.count(old)); open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=w, stdout=subprocess.PIPE, check=True).stdout
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(sh or DEMO)
    if demo: open(os.path.join(d, "demo.cpp"), "w").write(demo)
    for k, v in (files or {}).items(): open(os.path.join(d, k), "w").write(v)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    subprocess.run(["rm", "-rf", "/tmp/mkseed"])
