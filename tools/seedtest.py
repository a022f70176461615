#!/usr/bin/env python3
"""seedtest.py [--no-check] [ID ...]: confirms planted bugs in a scratch copy of /repo and runs their checks against it.

Scratch copy: /tmp/seed/repo (kept between runs; remove when done)."""
import json, os, subprocess, sys, time
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
S = "/tmp/seed/repo"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def build():
    r = sh("ninja -C %s/_build" % S)
    return r.returncode == 0, r.stdout.decode(errors="replace")[-1500:]


def setup():
    os.makedirs("/tmp/seed", exist_ok=True)
    sh("mkdir -p %s && rsync -a --delete --exclude _build /repo/ %s/ 2>/dev/null || (cp -a /repo/. %s/)" % (S, S, S))
    if not os.path.exists(S + "/_build/.configured"):
        sh("rm -rf %s/_build" % S)
        r = sh("cmake -S {0} -B {0}/_build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DWITH_TEST=YES -DWITH_CLI=YES "
               "-DCPM_LOCAL_PACKAGES_ONLY=ON -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DCMAKE_MODULE_PATH=/opt/vp/cmake "
               "-DBoost_DIR=/usr/lib/x86_64-linux-gnu/cmake/Boost-1.83.0".format(S))
        assert r.returncode == 0, r.stdout.decode()
        open(S + "/_build/.configured", "w").close()


def tests():
    bad = []
    for t in ("mp4_test", "bitio/bitio_test", "endian/endian_test", "time/time_test", "track/track_test"):
        if sh("timeout 120 %s/_build/test/%s" % (S, t), cwd=S + "/_build/test").returncode:
            bad.append(t)
    return bad


def foreign_lines(patch):
    """removed lines that are not lines of the original repository"""
    bad, f, n = [], None, 0
    base = sh(["git", "rev-list", "--max-parents=0", "HEAD"], cwd="/repo").stdout.decode().split()[0][:8]
    for l in open(patch, errors="replace"):
        if l.startswith("--- a/"):
            f = l[6:].split("\t")[0].strip()
        elif l.startswith("@@"):
            n = int(l.split()[1].split(",")[0][1:])
        elif l.startswith("+"):
            pass
        elif f:
            if l.startswith("-"):
                o = sh(["git", "blame", "-L", "%d,%d" % (n, n), "--", f], cwd="/repo").stdout.decode()
                if base[:7] not in o.split()[0]:
                    bad.append("%s:%d %s" % (f, n, o.strip()[:20]))
            n += 1
    return bad


def reset():
    sh("git checkout -q -- . && git clean -fdq -e _build", cwd=S)


def main():
    args = sys.argv[1:]
    nocheck = "--no-check" in args
    tier = "quick"
    ids = [a for a in args if not a.startswith("--")]
    base = os.path.join(V, "seeded")
    if not ids:
        ids = sorted(os.listdir(base))
    setup()
    reset()
    ok, out = build()
    assert ok, out
    print("clean tests:", tests() or "ok", flush=True)
    demos_dir = "/tmp/seed/demo"
    for i in ids:
        d = os.path.join(base, i)
        meta = json.load(open(d + "/meta.json"))
        sh("rm -rf %s; mkdir -p %s; cp %s/* %s/; rm -f %s/*.diff %s/meta.json" % (demos_dir, demos_dir, d, demos_dir, demos_dir, demos_dir))
        reset()
        ok, out = build()
        t = time.time()
        clean = sh("timeout 300 bash %s/demo.sh" % demos_dir, cwd=S)
        r = sh(["git", "apply", os.path.abspath(d + "/patch.diff")], cwd=S)
        if r.returncode:
            print(i, "PATCH DOES NOT APPLY", r.stdout.decode()); continue
        ok, out = build()
        if not ok:
            print(i, "DOES NOT BUILD", out); reset(); continue
        bad = tests()
        buggy = sh("timeout 300 bash %s/demo.sh" % demos_dir, cwd=S)
        valid = clean.returncode == 0 and buggy.returncode != 0 and not bad
        line = "%-28s %s %s" % (i, meta["property"], "valid" if valid else "INVALID(clean=%s buggy=%s tests=%s)" % (clean.returncode, buggy.returncode, bad))
        if not valid:
            line += "\n" + clean.stdout.decode(errors="replace")[-800:] + "\n--\n" + buggy.stdout.decode(errors="replace")[-500:]
        if foreign_lines(d + "/patch.diff"):
            line += "  NOT ORIGINAL LINES " + str(foreign_lines(d + "/patch.diff"))
        if not nocheck:
            t = time.time()
            try:
                c = sh(["python3", V + "/check.py", meta["property"], tier, "--repo", S])
                o = c.stdout.decode(errors="replace")
            except KeyError:
                o = "no check"
            line += "  " + ("CAUGHT" if c.returncode == 1 and "VIOLATION property=%s " % meta["property"] in o else "MISSED rc=%d %s" % (c.returncode, o[-300:])) + " %.0fs" % (time.time() - t)
            v = [l for l in o.splitlines() if l.startswith("  ")]
            if v:
                line += " | " + v[0].strip()[:110]
        print(line, flush=True)
        reset()
    sh("rm -rf " + demos_dir)


main()
