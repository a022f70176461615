#!/usr/bin/env python3
"""check.py <property> [quick|thorough] : builds the harness against /repo's working tree, explores, judges, reports.

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. Exit 2: could not run.
--only N       run a single case (the number a replay file names) and print what it does
--repo DIR     use another source tree than /repo (development only)
"""
import array, hashlib, json, os, shutil, signal, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from checks import CHECKS

NPROC = min(8, os.cpu_count() or 1)
DEF = ["-DFMT_SHARED", "-DSPDLOG_COMPILED_LIB", "-DSPDLOG_FMT_EXTERNAL", "-DSPDLOG_SHARED_LIB", "-DNDEBUG"]
FLAVOURS = {
    "plain": ["-O1", "-D_GLIBCXX_ASSERTIONS"],
    "asan": ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
}
BASE = ["-std=gnu++20", "-w", "-pthread"] + DEF


def sh(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree_hash(root, suffixes):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(suffixes):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b"\0" + read(p) + b"\0")
    return h.hexdigest()


class BuildError(Exception):
    pass


def run_cc(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout.decode(errors="replace")[-6000:])


def compile_obj(cmd_prefix, src, key, bdir):
    out = os.path.join(bdir, key + ".o")
    if not os.path.exists(out):
        tmp = "%s.%d.tmp" % (out, os.getpid())
        run_cc(["clang++"] + cmd_prefix + ["-c", src, "-o", tmp])
        os.rename(tmp, out)
    return out


def build(cfg, repo):
    flavour = cfg.get("flavour", "plain")
    flags = BASE + FLAVOURS[flavour] + ["-I" + repo + "/include"]
    bdir = os.path.join(V, "build", flavour)
    os.makedirs(bdir, exist_ok=True)
    hdr = tree_hash(repo + "/include", (".hpp", ".h"))
    fl = " ".join(BASE + FLAVOURS[flavour])
    pch_src = os.path.join(V, "harness", "pch.hpp")
    pch = os.path.join(bdir, sh(fl, read(pch_src)) + ".pch")
    if not os.path.exists(pch):
        tmp = "%s.%d.tmp" % (pch, os.getpid())
        run_cc(["clang++"] + flags + ["-x", "c++-header", pch_src, "-fpch-instantiate-templates", "-o", tmp])
        os.rename(tmp, pch)
    jobs = []
    hs = os.path.join(V, "harness", cfg["src"])
    hkey = sh(fl, hdr, tree_hash(V + "/harness", (".hpp",)), cfg["src"], read(hs))
    jobs.append((flags + ["-include-pch", pch, "-I" + V + "/harness"], hs, "h" + hkey))
    libsrc = []
    for d, ds, fs in os.walk(repo + "/src"):
        ds.sort()
        if "cli" in ds:
            ds.remove("cli")
        # a header next to a source file counts as a dependency of everything
        for f in sorted(fs):
            if f.endswith(".cpp"):
                libsrc.append(os.path.join(d, f))
    srch = tree_hash(repo + "/src", (".hpp", ".h", ".ipp", ".inc"))
    for s in libsrc:
        rel = os.path.relpath(s, repo)
        jobs.append((flags + ["-include-pch", pch], s, "l" + sh(fl, hdr, srch, rel, read(s))))
    with ThreadPoolExecutor(NPROC) as ex:
        objs = list(ex.map(lambda j: compile_obj(*j, bdir), jobs))
    exe = os.path.join(bdir, "x" + sh(*[os.path.basename(o) for o in objs]))
    if not os.path.exists(exe):
        tmp = "%s.%d.tmp" % (exe, os.getpid())
        run_cc(["clang++"] + FLAVOURS[flavour] + ["-pthread", "-rdynamic"] + objs +
               ["-lspdlog", "-lfmt", "-o", tmp])
        os.rename(tmp, exe)
    extra = {}
    if cfg.get("cli"):
        cdir = bdir
        cs = repo + "/src/cli/mp4-tool.cpp"
        o = compile_obj(flags + ["-include-pch", pch], cs, "c" + sh(fl, hdr, srch, read(cs)), cdir)
        tool = os.path.join(cdir, "t" + sh(*[os.path.basename(x) for x in objs[1:] + [o]]))
        if not os.path.exists(tool):
            tmp = "%s.%d.tmp" % (tool, os.getpid())
            run_cc(["clang++"] + FLAVOURS[flavour] + ["-pthread", o] + objs[1:] + ["-lspdlog", "-lfmt", "-o", tmp])
            os.rename(tmp, tool)
        extra["MC_TOOL"] = tool
    return exe, extra


def child_env(extra, scratch):
    e = dict(os.environ)
    e.update(extra)
    e["MC_SCRATCH"] = scratch
    e["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=0:"
                         "max_allocation_size_mb=256:detect_stack_use_after_return=0:handle_abort=1:malloc_context_size=5")
    e["TSAN_OPTIONS"] = ("exitcode=0:halt_on_error=0:report_signal_unsafe=0:history_size=7:io_sync=0:symbolize=0:"
                         "suppress_equal_stacks=0:suppress_equal_addresses=0:atexit_sleep_ms=0")
    e["TZ"] = "XST+7:15"  # nothing the library does depends on the local time zone
    return e


def launch(exe, cfg, prop, tier, out, env, shard, nshards, only=None, budget=None):
    cmd = [exe, "--prop", prop, "--tier", tier, "--shard", str(shard), "--nshards", str(nshards), "--out", out]
    if only is not None:
        cmd += ["--only", str(only)]
    if budget:
        cmd += ["--budget", str(budget)]
    err = open(os.path.join(out, "err.%d" % shard), "wb")
    so = open(os.path.join(out, "stdout.%d" % shard), "wb")
    return subprocess.Popen(cmd, stdout=so, stderr=err, env=env, cwd=out, start_new_session=True)


def collect(out, shard, rc):
    """Result of one shard process: dict, with a violation added if it died."""
    res = None
    p = os.path.join(out, "res.%d" % shard)
    if rc in (0, 10) and os.path.exists(p):
        res = json.load(open(p))
    if res is None:
        cur, phase = 0, ""
        try:
            b = read(os.path.join(out, "cur.%d" % shard))
            cur = struct.unpack("<Q", b[:8])[0]
            phase = b[16:128].split(b"\0")[0].decode(errors="replace")
        except Exception:
            pass
        err = read(os.path.join(out, "err.%d" % shard)).decode(errors="replace")
        kind = "hang" if rc == 42 else "timeout" if rc == "timeout" else "crash"
        detail = "exit status %s" % rc
        for line in err.splitlines():
            if "ERROR: AddressSanitizer" in line or "terminate called" in line or "what():" in line or "Assertion" in line:
                detail += "; " + line.strip()[:300]
        res = {"cases": 0, "ran": 0, "transitions": 0, "traces": 0, "evals": 0, "nontrivial": 0, "exhaustive": False,
               "counters": {}, "samples": [], "died": True,
               "violations": [{"idx": cur, "key": kind + (":" + phase if phase else ""), "count": 1,
                               "msg": detail, "desc": err[-3000:]}]}
    return res


def run_shards(exe, cfg, prop, tier, env, nshards, tmo, only=None, budget=None, keep=None):
    out = tempfile.mkdtemp(prefix="mc-%s-" % prop, dir=scratch_root())
    try:
        e = dict(env)
        e["MC_SCRATCH"] = out
        procs = [launch(exe, cfg, prop, tier, out, e, i, nshards, only, budget) for i in range(nshards)]
        end = time.time() + tmo
        rcs = []
        for pr in procs:
            try:
                rcs.append(pr.wait(max(1, end - time.time())))
            except subprocess.TimeoutExpired:
                try:
                    os.killpg(pr.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                pr.wait()
                rcs.append("timeout")
        rs = [collect(out, i, rc) for i, rc in enumerate(rcs)]
        sets = {}
        for name in ("states", "outcomes"):
            s = set()
            for i in range(nshards):
                p = os.path.join(out, "%s.%d" % (name, i))
                if os.path.exists(p):
                    a = array.array("Q")
                    b = read(p)
                    a.frombytes(b[: len(b) // 8 * 8])
                    s.update(a)
            sets[name] = len(s)
        so = b"".join(read(os.path.join(out, "stdout.%d" % i)) for i in range(nshards))
        return rs, sets, so
    finally:
        shutil.rmtree(out, ignore_errors=True)


def scratch_root():
    d = os.path.join(V, "build", "scratch")
    os.makedirs(d, exist_ok=True)
    return d


def load_known():
    """known_findings.jsonl: {"property": .., "key": .., "what": ..} lines suppress; {"fixed": ...} lines do not."""
    known = {}
    p = os.path.join(V, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                d = json.loads(l)
                if "key" in d:
                    known[(d["property"], d["key"])] = d["what"]
    return known


def main():
    args = sys.argv[1:]
    repo, only = "/repo", None
    pos = []
    while args:
        a = args.pop(0)
        if a == "--repo":
            repo = args.pop(0)
        elif a == "--only":
            only = int(args.pop(0))
        else:
            pos.append(a)
    prop = pos[0]
    tier = pos[1] if len(pos) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = CHECKS[prop]
    t0 = time.time()
    try:
        exe, extra = build(cfg, repo)
    except BuildError as e:
        print("ERROR: build failed\n%s" % e)
        return 2
    tb = time.time() - t0
    env = child_env(extra, scratch_root())
    env.update(cfg.get("env", {}))
    if only is not None:
        rs, sets, so = run_shards(exe, cfg, prop, tier, env, 1, 900, only)
        for v in rs[0]["violations"]:
            print("case %d: %s\n  %s\n  %s" % (v["idx"], v["key"], v["msg"], v["desc"]))
        print("violations: %d" % len(rs[0]["violations"]))
        return 1 if rs[0]["violations"] else 0
    n = cfg.get("nshards", NPROC)
    budget = cfg.get("budget", {}).get(tier, 500 if tier == "quick" else 5400)
    rs, sets, _ = run_shards(exe, cfg, prop, tier, env, n, budget + 200, None, budget)
    known = load_known()
    viol = {}
    for i, r in enumerate(rs):
        for v in r["violations"]:
            v["shard"] = i
            viol.setdefault(v["key"], []).append(v)
    known_hit, real, unconfirmed = [], [], []
    t_confirm = time.time()
    for key in sorted(viol):
        vs = viol[key]
        if (prop, key) in known:
            known_hit.append(key)
            continue
        if len(real) >= 12:
            real.append(vs[0])
            continue
        v = vs[0]
        # replay before report: the same single case must fail again
        ok = False
        for attempt in range(2):
            r2, _, _ = run_shards(exe, cfg, prop, tier, env, 1, 300, v["idx"]) if v["idx"] else ([{"violations": []}], 0, 0)
            if r2[0]["violations"]:
                ok = True
                v["confirmed"] = "single case"
                if v["key"].startswith(("crash", "hang", "timeout")):
                    v["desc"] = r2[0]["violations"][0]["desc"] or v["desc"]
                break
        if not ok:
            # behaviour that depends on what ran before in the process: repeat the whole shard
            r2, _, _ = run_shards(exe, cfg, prop, tier, env, n, budget + 200, None, budget)
            if any(x["key"] == key for r in r2 for x in r["violations"]):
                ok = True
                v["confirmed"] = "whole exploration repeated"
        (real if ok else unconfirmed).append(v)
        if time.time() - t_confirm > 240 and real:
            break
    for key in known_hit:
        print("KNOWN-FINDING: property=%s %s" % (prop, known[(prop, key)]))
    for v in unconfirmed:
        print("NOTE: not reproduced, not reported: %s %s" % (v["key"], v["msg"][:200]))
    rdir = os.path.join(V, "build", "replay")
    os.makedirs(rdir, exist_ok=True)
    for k, v in enumerate(real):
        path = os.path.join(rdir, "%s-%d.json" % (prop, k))
        json.dump({"property": prop, "tier": tier, "case": v["idx"], "key": v["key"], "message": v["msg"],
                   "description": v["desc"], "confirmed": v.get("confirmed"),
                   "replay": "python3 check.py %s %s --only %d" % (prop, tier, v["idx"])}, open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s (x%d): %s" % (v["key"], v["count"], v["msg"][:400]))
    tot = lambda k: sum(r[k] for r in rs)
    counters = {}
    for r in rs:
        for k, x in r["counters"].items():
            counters[k] = counters.get(k, 0) + x
    samples = [s for r in rs for s in r["samples"]]
    samples = samples[:: max(1, len(samples) // 12)][:12]
    exhaustive = all(r["exhaustive"] for r in rs)
    cov = {"cases": tot("ran"), "distinct_outcomes": sets["outcomes"], "samples": samples, "exhaustive": exhaustive,
           "counters": counters, "bounds": cfg["bounds"][tier] if isinstance(cfg["bounds"], dict) else cfg["bounds"],
           "build_s": round(tb, 1)}
    if cfg["level"] == "model_checking":
        cov.update(states=sets["states"], transitions=tot("transitions"), traces_validated_against_impl=tot("traces"),
                   conformance=cfg.get("conformance", "every trace is executed on the real code and compared with the reference model at every observation point"))
    else:
        cov.update(evaluations=tot("evals"), distinct_nontrivial=tot("nontrivial"), rule=cfg["rule"])
    # a run that explored next to nothing decides nothing
    vac = [k for k in ("states", "transitions", "traces_validated_against_impl", "evaluations", "distinct_nontrivial")
           if k in cov and cov[k] < cfg.get("floor", 10)]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": cfg["level"], "coverage": cov,
          "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(real)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %s; %d cases, %s, build %.1fs, total %.1fs" % (
        prop, tier, "VIOLATED" if real else "held", cov["cases"],
        ", ".join("%s=%s" % (k, cov[k]) for k in ("states", "transitions", "traces_validated_against_impl", "evaluations", "distinct_nontrivial") if k in cov),
        tb, time.time() - t0))
    if real:
        return 1
    if vac:
        print("ERROR: vacuous run: %s" % vac)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
