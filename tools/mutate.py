#!/usr/bin/env python3
"""Development only: makes small changes to the library, one at a time, and lists those no check notices.

mutate.py FILE... [--jobs N] [--out F] [--every K]     (files relative to /repo, e.g. src/box/elst.cpp)
Everything happens below /tmp/mut; /repo is only read.
"""
import os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
import check as C

ROOT, REPO = "/tmp/mut", os.environ.get("MUT_REPO", "/repo")
MUX = [("P06", "mux"), ("P05", "mux"), ("P07", "mux"), ("P03", "mux"), ("P04", "mux"), ("P22", "mux"), ("P01", "mux"), ("P02", "mux"), ("P21", "mux"), ("P08", "mux"), ("P35", "mux"), ("P29", "own"), ("P36", "mux")]


def checks_for(f):
    b = os.path.basename(f)
    if f.startswith("src/box/"):
        l = [("P12", "codec"), ("P13", "codec"), ("P30", "codec"), ("P31", "codec"), ("P33", "codec"), ("P34", "limits")]
        if b in ("esds.cpp",): l.append(("P14", "codec"))
        l += [("P19", "codec"), ("P27", "core"), ("P05", "mux"), ("P06", "mux"), ("P03", "mux")]
        return l
    if f.endswith("h264.cpp"): return [("P23", "h264"), ("P24", "h264")] + MUX
    if f.endswith("track/track.cpp"): return [("P09", "core")] + MUX
    if f.startswith(("src/track", "src/writer")): return MUX
    if f.endswith("box_info.cpp"): return [("P10", "core"), ("P17", "reader"), ("P05", "mux"), ("P21", "mux"), ("P29", "own")]
    if f.endswith("box_header.cpp"): return [("P11", "core"), ("P10", "core"), ("P31", "codec"), ("P05", "mux"), ("P07", "mux"), ("P21", "mux"), ("P18", "reader"), ("P29", "own")]
    if f.endswith("src/box.cpp"): return [("P26", "core"), ("P11", "core"), ("P10", "core"), ("P12", "codec"), ("P13", "codec"), ("P27", "core"), ("P31", "codec"), ("P29", "own"), ("P18", "reader")]
    if "box_map" in f or "box_type" in f: return [("P27", "core"), ("P26", "core"), ("P17", "reader"), ("P18", "reader")]
    if "reader/" in f and "bitio" not in f: return [("P17", "reader"), ("P20", "reader"), ("P31", "codec"), ("P18", "reader"), ("P29", "own")]
    if "bitio" in f or "endian" in f: return [("P15", "bitio"), ("P16", "bitio"), ("P31", "codec"), ("P13", "codec"), ("P34", "limits")]
    if "time" in f: return [("P25", "core")] + MUX
    if "stream" in f: return [("P13", "codec"), ("P31", "codec"), ("P19", "codec")]
    return []


def kinds_of(f):
    if not f.startswith("src/box/"): return None
    s = open(os.path.join(REPO, f)).read()
    ks = re.findall(r'BoxType\("(....)"\)', s)
    if "sample_entry" in f or "container" in f: return None
    return ",".join(ks) or None


def strip(lines):
    """Marks the lines that may be changed: no comments, includes, declarations of usings, logging or error reporting."""
    ok, in_throw = [], False
    for l in lines:
        t = l.strip()
        bad = in_throw or not t or t.startswith(("//", "#", "using ", "namespace", "}", "public", "private")) or "spdlog::" in t or "static_assert" in t
        if t.startswith("throw ") or "spdlog::" in t:
            in_throw = True
            bad = bad or not t.startswith("throw ")
            if t.startswith("throw "): bad = True
        if in_throw and t.endswith(";"): in_throw = False
        ok.append(not bad)
    return ok


REL = [(" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "),
       (" && ", " || "), (" || ", " && "), (" + ", " - "), (" - ", " + "), (" * ", " + "), (" / ", " * "), (" & ", " | "), (" | ", " & "),
       (" >> ", " << "), (" += ", " = "), (" |= ", " = "), (" &= ", " = "), ("true", "false"), ("false", "true"), (" % ", " / ")]


def mutants(f):
    lines = open(os.path.join(REPO, f)).read().split("\n")
    ok = strip(lines)
    out = []
    for i, l in enumerate(lines):
        if not ok[i]: continue
        code = l
        spans = [(m.start(), m.end()) for m in re.finditer(r'"(?:[^"\\]|\\.)*"', code)]
        inside = lambda p: any(a <= p < b for a, b in spans)
        for a, b in REL:
            for m in re.finditer(re.escape(a), code):
                if inside(m.start()): continue
                if a == " < " and "template" in code: continue
                out.append((i, code[:m.start()] + b + code[m.end():]))
        for m in re.finditer(r'(?<![\w.:"])(0x[0-9a-fA-F]+|\d+)(?![\w."])', code):
            if inside(m.start()): continue
            v = int(m.group(1), 0)
            for w in {v + 1, v - 1} if v > 0 else {1}:
                r = hex(w) if m.group(1).startswith("0x") else str(w)
                out.append((i, code[:m.start()] + r + code[m.end():]))
        t = code.strip()
        m = re.match(r'^(\s*)(?:\} else )?if \((.*)\) \{$', code)
        if m:
            for v in ("true", "false"):
                out.append((i, code.replace("if (" + m.group(2) + ") {", "if (" + v + ") {")))
        elif t.endswith(";") and not re.match(r'^(return|const|auto|break|case|static|std::\w+(<.*>)? \w+;|std::\w+(<.*>)? \w+ =|\w+ \w+;|\w+ \w+ =|if|for|while|delete)', t) and t.count("(") == t.count(")") and (i == 0 or lines[i - 1].strip().endswith((";", "{", "}", ":", ""))):
            out.append((i, ";"))
        elif t.startswith(("return ",)) and t.endswith(";"):
            m = re.match(r'^(\s*)return (.+);$', code)
            if m and m.group(2) in ("true", "false"): pass
    seen, res = set(), []
    for i, n in out:
        if (i, n) in seen or n == lines[i]: continue
        seen.add((i, n)); res.append((i, lines[i], n))
    return lines, res


BASE = {}


def prepare(needed):
    os.makedirs(ROOT, exist_ok=True)
    for src, flavour in needed:
        cfg = {"src": src + ".cpp", "flavour": flavour}
        flags = C.BASE + C.FLAVOURS[flavour] + ["-I" + REPO + "/include"]
        bdir = ROOT + "/base/" + flavour
        os.makedirs(bdir, exist_ok=True)
        pch = bdir + "/pch.pch"
        if not os.path.exists(pch):
            C.run_cc(["clang++"] + flags + ["-x", "c++-header", V + "/harness/pch.hpp", "-fpch-instantiate-templates", "-o", pch])
        libs = []
        for d, ds, fs in os.walk(REPO + "/src"):
            if "cli" in ds: ds.remove("cli")
            libs += [os.path.join(d, x) for x in sorted(fs) if x.endswith(".cpp")]
        def comp(s):
            o = bdir + "/" + os.path.relpath(s, REPO).replace("/", "_") + ".o"
            if not os.path.exists(o):
                C.run_cc(["clang++"] + flags + ["-include-pch", pch, "-c", s, "-o", o])
            return o
        with ThreadPoolExecutor(8) as ex:
            objs = dict(zip([os.path.relpath(s, REPO) for s in libs], ex.map(comp, libs)))
        h = bdir + "/h_" + src + ".o"
        C.run_cc(["clang++"] + flags + ["-include-pch", pch, "-I" + V + "/harness", "-c", V + "/harness/" + src + ".cpp", "-o", h])
        BASE[(src, flavour)] = (flags, pch, objs, h)


def flavour_of(p): return C.CHECKS[p].get("flavour", "plain")


def one(job):
    k, f, i, old, new, lines, cs, kinds = job
    w = "%s/w%s" % (ROOT, k)
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    try:
        src = w + "/" + os.path.basename(f)
        open(src, "w").write("\n".join(lines[:i] + [new] + lines[i + 1:]))
        exes, objs_done = {}, {}
        for p, h in cs:
            fl = flavour_of(p)
            flags, pch, objs, ho = BASE[(h, fl)]
            if fl not in objs_done:
                o = w + "/m_%s.o" % fl
                r = subprocess.run(["clang++"] + flags + ["-I" + os.path.dirname(os.path.join(REPO, f)), "-include-pch", pch, "-c", src, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if r.returncode: return ("nocompile", "")
                objs_done[fl] = o
            if (h, fl) not in exes:
                e = w + "/x_%s_%s" % (h, fl)
                C.run_cc(["clang++"] + C.FLAVOURS[fl] + ["-fuse-ld=lld", "-pthread", "-rdynamic", objs_done[fl], ho] + [x for n, x in objs.items() if n != f] + ["-lspdlog", "-lfmt", "-o", e])
                exes[(h, fl)] = e
            env = C.child_env({}, w)
            env["MC_STOP"] = "1"
            if kinds and h == "codec": env["MC_KINDS"] = kinds
            env.update(C.CHECKS[p].get("env", {}))
            out = w + "/out"
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            env["MC_SCRATCH"] = out
            try:
                r = subprocess.run([exes[(h, fl)], "--prop", p, "--tier", "quick", "--shard", "0", "--nshards", "1", "--out", out], cwd=out, env=env,
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=900)
                rc, err = r.returncode, r.stderr.decode(errors="replace")
            except subprocess.TimeoutExpired:
                rc, err = "timeout", ""
            if rc != 0:
                fl = [x for x in err.splitlines() if x.startswith("FAIL")]
                return ("killed", "%s rc=%s %s" % (p, rc, fl[0][:150] if fl else ""))
        return ("SURVIVED", "")
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    args, files, jobs, outp, every = sys.argv[1:], [], 8, "/tmp/mut.log", 1
    while args:
        a = args.pop(0)
        if a == "--jobs": jobs = int(args.pop(0))
        elif a == "--out": outp = args.pop(0)
        elif a == "--every": every = int(args.pop(0))
        else: files.append(a)
    work, needed = [], set()
    for f in files:
        cs = checks_for(f)
        if not cs: continue
        for p, h in cs: needed.add((h, flavour_of(p)))
        lines, ms = mutants(f)
        ks = kinds_of(f)
        for n, (i, old, new) in enumerate(ms):
            if n % every: continue
            work.append((len(work), f, i, old, new, lines, cs, ks))
    print("%d mutants" % len(work), flush=True)
    prepare(sorted(needed))
    tot = {}
    log = open(outp, "a")
    t0 = time.time()
    with ThreadPoolExecutor(jobs) as ex:
        for job, (v, what) in zip(work, ex.map(one, work)):
            tot[v] = tot.get(v, 0) + 1
            log.write("%s %s:%d | %s -> %s | %s\n" % (v, job[1], job[2] + 1, job[3].strip(), job[4].strip(), what))
            log.flush()
    print(tot, "%.0fs" % (time.time() - t0))


main()
