#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE  < spec   (development helper)
Makes seeded/ID from a python replacement applied to /repo's FILE and a demo program. Spec on stdin: python dict with
old, new (or edits: [(file, old, new)...]), needs, breaks, demo (C++ source), env (optional, for the demo)."""
import json, os, subprocess, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
DEMO = """#!/bin/bash
# exit 0: behaves as it should
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d) || exit 9
trap 'rm -rf "$T"' EXIT
clang++ -std=gnu++20 -O1 -w -fno-access-control -DFMT_SHARED -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -DSPDLOG_SHARED_LIB -I"$R/include" \\
  "$D/demo.cpp" "$R/_build/libshiguredo-mp4.a" -lspdlog -lfmt -o "$T/demo" || exit 9
cd "$T" || exit 9
%stimeout 120 ./demo
"""


def make(id, prop, edits, needs, breaks, demo, env="", script=None, extra=None):
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    patch = b""
    for f in sorted({e[0] for e in edits}):
        src = open("/repo/" + f).read()
        new = src
        for ff, o, n in edits:
            if ff == f:
                assert new.count(o) == 1, (id, f, new.count(o), o)
                new = new.replace(o, n)
        tmp = "/tmp/mkseed"
        os.makedirs(tmp, exist_ok=True)
        open(tmp + "/a", "w").write(src)
        open(tmp + "/b", "w").write(new)
        r = subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, tmp + "/a", tmp + "/b"], stdout=subprocess.PIPE)
        patch += r.stdout
    open(d + "/patch.diff", "wb").write(patch)
    open(d + "/demo.sh", "w").write(script or DEMO % env)
    os.chmod(d + "/demo.sh", 0o755)
    if demo:
        open(d + "/demo.cpp", "w").write(demo.lstrip())
    for k, v in (extra or {}).items():
        open(d + "/" + k, "w").write(v)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
