#!/usr/bin/env python3
"""Build the harness of one property against /repo's working tree and explore it.

usage: run.py <property> [quick|thorough]     explore, write evidence/<property>.json
       run.py --replay <file>                 re-run a recorded violation
       run.py --warm                          build the libraries once (setup)

Exit 0: the property held on everything explored.  Exit 1 and a line
"VIOLATION property=<id> replay=<path>": it does not.  Exit 2: the check itself
could not run (e.g. the tree does not compile).
"""
import hashlib, json, os, shutil, struct, subprocess, sys, tempfile, time, glob
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("QK_REPO", "/repo")
SRC = os.path.join(REPO, "src")
H = os.path.join(HERE, "harness")
NPROC = 8

sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

COMMON = ["-I" + SRC, "-w", "-fno-omit-frame-pointer"]
VARIANTS = {
    # memory errors, uninitialised stack and heap reads become visible failures
    "asan": ["-O1", "-g1", "-fsanitize=address", "-D_GLIBCXX_SANITIZE_VECTOR=1", "-D_QK_RANGE_CHECK_=1",
             "-ftrivial-auto-var-init=pattern"],
    # the optimised build without range checks
    "opt": ["-O3", "-march=native", "-ffp-contract=off"],
    # plain build with range checks
    "dbg": ["-O1", "-D_QK_RANGE_CHECK_=1", "-ftrivial-auto-var-init=pattern"],
    # the program as build.sh makes it (for the packaged simulations)
    "plain": ["-O2", "-D_QK_RANGE_CHECK_=1"],
    # OpenMP build under the checker's own runtime: every access of a parallel region reports to it
    "mcomp": ["-O0", "-g1", "-fopenmp", "-fsanitize=thread", "-DQK_SHIM=1"],
    # serial build whose accesses report to the checker, for threads of the user's own
    "mthr": ["-O0", "-g1", "-include", os.path.join(HERE, "harness", "strings_here.h"), "-fsanitize=thread", "-DQK_SHIM=1"],
    # OpenMP build with the real runtime
    "omp": ["-O2", "-fopenmp"],
}
LINK = {"asan": ["-fsanitize=address"], "opt": [], "dbg": [], "plain": [], "mcomp": ["-pthread"], "mthr": ["-pthread"], "omp": ["-fopenmp"]}
ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=97:max_malloc_fill_size=268435456:"
                       "malloc_fill_byte=253:detect_stack_use_after_return=0:allocator_may_return_null=0:"
                       "quarantine_size_mb=32:print_legend=0:handle_segv=1")
ENV["OMP_NUM_THREADS"] = "8"
ENV["OMP_WAIT_POLICY"] = "passive"


def log(*a):
    print(*a, flush=True)


def sources(with_examples):
    out = []
    for root, dirs, files in os.walk(SRC):
        rel = os.path.relpath(root, SRC)
        if not with_examples and (rel == "example" or rel.startswith("example" + os.sep)):
            continue
        for f in sorted(files):
            if f.endswith((".cpp", ".cc", ".cxx")) and not (rel == "." and f == "main.cpp"):
                out.append(os.path.join(root, f))
    return sorted(out)


def tree_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(SRC):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(os.path.relpath(p, SRC).encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()


def compile_many(jobs):
    """jobs: list of argv. Returns list of (argv, stderr) that failed."""
    bad = []

    def one(cmd):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            bad.append((cmd, r.stdout))
    with ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(one, jobs))
    return bad


class BuildError(Exception):
    pass


def build_lib(variant, with_examples, extra=()):
    """Archive of all of /repo/src for one variant, cached by content."""
    flags = ["-std=c++11"] + COMMON + VARIANTS[variant] + list(extra)
    key = hashlib.sha256((tree_hash() + repr(flags) + str(with_examples)).encode()).hexdigest()[:24]
    cache = os.path.join(HERE, ".cache")
    lib = os.path.join(cache, key + ".a")
    if os.path.exists(lib):
        os.utime(lib)
        return lib
    os.makedirs(cache, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=cache)
    try:
        jobs, objs = [], []
        for i, s in enumerate(sources(with_examples)):
            o = os.path.join(tmp, "%03d.o" % i)
            objs.append(o)
            jobs.append(["g++"] + flags + ["-c", s, "-o", o])
        bad = compile_many(jobs)
        if bad:
            raise BuildError("\n".join(" ".join(c) + "\n" + e for c, e in bad[:3]))
        t = os.path.join(tmp, "lib.a")
        subprocess.run(["ar", "crs", t] + objs, check=True)
        os.rename(t, lib)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    libs = sorted(glob.glob(os.path.join(cache, "*.a")), key=os.path.getmtime)
    for old in libs[:-12]:
        os.unlink(old)
    return lib


def build_harness(work, cfg, variant):
    lib = build_lib(variant, cfg.get("examples", False), cfg.get("repo_flags", ()))
    flags = ["-std=c++17"] + COMMON + VARIANTS[variant] + ["-I" + H] + list(cfg.get("flags", ()))
    objs, jobs = [], []
    for s in ["mc.cpp"] + cfg["src"]:
        o = os.path.join(work, variant + "_" + s.replace("/", "_") + ".o")
        objs.append(o)
        jobs.append(["g++"] + flags + ["-c", os.path.join(H, s), "-o", o])
    for s in cfg.get("runtime", {}).get(variant, ()):      # never instrumented
        o = os.path.join(work, variant + "_rt_" + s + ".o")
        objs.append(o)
        jobs.append(["g++", "-std=c++17", "-O2", "-w", "-fno-builtin", "-fno-tree-loop-distribute-patterns", "-I" + H,
                     "-c", os.path.join(H, s), "-o", o])
    bad = compile_many(jobs)
    if bad:
        raise BuildError("\n".join(" ".join(c) + "\n" + e for c, e in bad[:3]))
    exe = os.path.join(work, "h_" + variant)
    cmd = ["g++"] + LINK[variant] + ["-o", exe] + objs + [lib] + list(cfg.get("link", ()))
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout)
    return exe


def read_status(p):
    try:
        with open(p, "rb") as f:
            b = f.read()
        ex, depth = struct.unpack_from("<QI", b, 0)
        depth = min(depth, 4000)
        return ex, list(struct.unpack_from("<%di" % depth, b, 12))
    except Exception:
        return 0, []


def clean_dir(d):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d, exist_ok=True)


def single(exe, prop, tier, path, scratch, timeout):
    """Run one choice sequence alone. Returns (kind, text): kind in held/violated/crash/hang/error."""
    clean_dir(scratch)
    try:
        r = subprocess.run([exe, "--prop", prop, "--tier", tier, "--scratch", scratch, "--replay", ",".join(map(str, path))],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=ENV, cwd=scratch)
    except subprocess.TimeoutExpired as e:
        return "hang", (e.stdout or b"").decode("utf8", "replace")[-4000:]
    txt = r.stdout.decode("utf8", "replace")
    if r.returncode == 0:
        return "held", txt
    if r.returncode == 1:
        return "violated", txt
    if r.returncode == 3:
        return "error", txt
    return "crash", "exit status %d\n" % r.returncode + txt


def shard_prefix(exe, prop, tier, shard, nshards, upto, scratch, timeout):
    clean_dir(scratch)
    try:
        r = subprocess.run([exe, "--prop", prop, "--tier", tier, "--scratch", scratch, "--shards", str(nshards),
                            "--shard", str(shard), "--max-exec", str(upto)],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=ENV, cwd=scratch)
    except subprocess.TimeoutExpired as e:
        return "hang", (e.stdout or b"").decode("utf8", "replace")[-4000:]
    txt = r.stdout.decode("utf8", "replace")[-8000:]
    return ({0: "held", 1: "violated", 3: "error"}.get(r.returncode, "crash"), txt)


def explore(exe, prop, tier, work, stall, nshards):
    """Run all shards; returns (results, failure or None)."""
    seen = os.path.join(work, "seen")    # shared by all workers and builds: states are counted once
    procs = []
    for i in range(nshards):
        sd = os.path.join(work, "s%d" % i)
        clean_dir(sd)
        st, out = os.path.join(work, "st%d" % i), os.path.join(work, "out%d" % i)
        for p in (st, out):
            if os.path.exists(p):
                os.unlink(p)
        lf = open(os.path.join(work, "log%d" % i), "wb")
        p = subprocess.Popen([exe, "--prop", prop, "--tier", tier, "--shards", str(nshards), "--shard", str(i), "--scratch", sd,
                              "--status", st, "--seen", seen, "--out", out],
                             stdout=lf, stderr=subprocess.STDOUT, env=ENV, cwd=sd)
        procs.append([p, st, out, 0, time.time()])
    failure = None
    pending = set(range(nshards))
    while pending and not failure:
        time.sleep(0.05)
        for i in sorted(pending):
            p, st, out, last, t = procs[i]
            rc = p.poll()
            ex, path = read_status(st)
            if rc is None:
                if ex != last:
                    procs[i][3], procs[i][4] = ex, time.time()
                elif time.time() - t > stall:
                    p.kill()
                    p.wait()
                    failure = ("hang", i, ex, path, "no progress for %d s" % stall)
                    break
                continue
            pending.discard(i)
            if rc == 0:
                continue
            with open(os.path.join(work, "log%d" % i), "rb") as f:
                txt = f.read()[-6000:].decode("utf8", "replace")
            if rc == 1 and os.path.exists(out):
                with open(out) as f:
                    d = json.load(f)
                path = [int(x) for x in d["path"].split(",") if x]
                failure = ("violated", i, d["executions"], path, d["msg"])
            elif rc == 3:
                failure = ("error", i, ex, path, txt)
            else:
                failure = ("crash", i, ex + 1, path, "exit status %d\n%s" % (rc, txt))
            break
    for p in procs:
        if p[0].poll() is None:
            p[0].kill()
            p[0].wait()
    res = []
    for p in procs:
        if os.path.exists(p[2]):
            with open(p[2]) as f:
                res.append(json.load(f))
    return res, failure


def confirm(exe, prop, tier, failure, work, nshards):
    """Replay before report. Returns (replay dict, text) or (None, reason)."""
    kind, shard, ex, path, msg = failure
    sc = os.path.join(work, "replay")
    if kind == "error":
        return None, "harness error: " + msg
    k, txt = single(exe, prop, tier, path, sc, 300)
    if k in ("violated", "crash", "hang"):
        return {"mode": "path", "path": path, "kind": k}, txt
    if k == "error":
        return None, txt
    # the failure depends on earlier executions in the same process (e.g. hidden static state)
    if kind == "hang":
        return None, "stalled worker could not be reproduced alone"
    k, txt = shard_prefix(exe, prop, tier, shard, nshards, ex, sc, 600)
    if k in ("violated", "crash"):
        return {"mode": "prefix", "shard": shard, "shards": nshards, "executions": ex, "kind": k}, txt
    return None, "failure did not reproduce: " + msg


# A failure that a harness recognises as a listed finding is accepted; the list is handed over in QK_KNOWN.
def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: property=%s " % prop):
                out.append(l.strip()[len("known: "):])
    return out


def write_evidence(prop, tier, cfg, cov, wall, violations):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": cfg["level"],
          "coverage": cov, "assumptions": cfg.get("assumptions", []), "wall_s": round(wall, 2), "violations": violations}
    p = os.path.join(HERE, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)


def report(prop, tier, replay, text):
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s.json" % prop)
    replay.update({"property": prop, "tier": tier, "trace": text[-12000:]})
    with open(p, "w") as f:
        json.dump(replay, f, indent=1)
    log(text[-6000:])
    log("VIOLATION property=%s replay=%s" % (prop, p))


def precheck(work, cfg):
    """Translation units that have to compile (observable behaviour at build level)."""
    for name in cfg.get("must_compile", ()):
        src = os.path.join(H, name)
        r = subprocess.run(["g++", "-std=c++11"] + COMMON + ["-fsyntax-only", src], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            # every header it includes must be usable alone, otherwise the tree itself does not compile
            for l in open(src):
                if l.startswith("#include \""):
                    q = subprocess.run(["g++", "-std=c++11"] + COMMON + ["-fsyntax-only", "-x", "c++", "-"],
                                       input=l, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    if q.returncode:
                        raise BuildError(q.stdout)
            return {"mode": "compile", "file": src, "kind": "compile"}, r.stdout
    return None


def main():
    a = sys.argv[1:]
    if a and a[0] == "--warm":
        for v, ex, fl in sorted({(v, c.get("examples", False), tuple(c.get("repo_flags", ()))) for c in CHECKS.values()
                                 for v in c["variants"]}):
            build_lib(v, ex, fl)
        return 0
    if a and a[0] == "--replay":
        return do_replay(a[1])
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    cfg = CHECKS[prop]
    t0 = time.time()
    ENV["QK_KNOWN"] = "\n".join(known_findings(prop))
    os.makedirs(os.path.join(HERE, ".work"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + "-", dir=os.path.join(HERE, ".work"))
    try:
        return check(prop, tier, cfg, work, t0)
    except BuildError as e:
        log("build failed:\n" + str(e)[:6000])
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(prop, tier, cfg, work, t0):
    pre = precheck(work, cfg)
    if pre:
        write_evidence(prop, tier, cfg, coverage(cfg, [], False), time.time() - t0, 1)
        report(prop, tier, pre[0], pre[1])
        return 1
    if "runner" in cfg:
        import importlib
        mod = importlib.import_module(cfg["runner"])
        cov, bad = mod.run(prop, tier, cfg, work, sys.modules[__name__])
        write_evidence(prop, tier, cfg, cov, time.time() - t0, 1 if bad else 0)
        if bad:
            report(prop, tier, bad[0], bad[1])
            return 1
    allres, per_variant = [], {}
    nshards = cfg.get("shards", NPROC)
    for variant in cfg["variants"] if "src" in cfg else []:
        tb = time.time()
        exe = build_harness(work, cfg, variant)
        te = time.time()
        res, failure = explore(exe, prop, tier, work, cfg.get("stall", 90), nshards)
        if failure:
            rep, text = confirm(exe, prop, tier, failure, work, nshards)
            if rep is None:
                log("check error:", text)
                return 2
            rep["variant"] = variant
            write_evidence(prop, tier, cfg, coverage(cfg, allres + res, False), time.time() - t0, 1)
            report(prop, tier, rep, "%s: %s\n%s" % (failure[0], failure[4][:3000], text))
            return 1
        if len(res) != nshards:
            log("check error: a worker left no result")
            return 2
        per_variant[variant] = sum(r["executions"] for r in res)
        allres += res
        log("%s %s: %d executions, %d states, %d transitions (build %.1f s, exploration %.1f s)" % (
            prop, variant, per_variant[variant], sum(r["states"] for r in res), sum(r["transitions"] for r in res), te - tb,
            time.time() - te))
    if "src" in cfg:
        cov = coverage(cfg, allres, not any(r["capped"] for r in allres))
        cov["executions_per_build"] = per_variant
        if sum(per_variant.values()) < cfg.get("min_executions", 2):
            log("check error: vacuous exploration")
            return 2
        write_evidence(prop, tier, cfg, cov, time.time() - t0, 0)
    for k in known_findings(prop):
        log("KNOWN-FINDING: " + k)
    log("%s held (%s, %.1f s)" % (prop, tier, time.time() - t0))
    return 0


def coverage(cfg, res, exhaustive):
    nv = max(1, len(cfg.get("variants", [1])))
    samples = []
    for r in res[:4]:
        samples += r["samples"][:2]
    ex = sum(r["executions"] for r in res)
    states = sum(r["states"] for r in res)
    trans = sum(r["transitions"] for r in res)
    if cfg["level"] == "fault_enumeration":
        return {"evaluations": ex, "distinct_nontrivial": states, "rule": cfg["rule"], "samples": samples[:6],
                "transitions": trans, "exhaustive": exhaustive, "bounds": cfg.get("bounds", "")}
    return {"states": states, "transitions": trans, "traces_validated_against_impl": ex, "samples": samples[:6],
            "exhaustive": exhaustive, "bounds": cfg.get("bounds", ""),
            "how_validated": "every explored execution runs the real code of /repo in lockstep with the reference model"}


def do_replay(f):
    d = json.load(open(f))
    prop, tier = d["property"], d["tier"]
    ENV["QK_KNOWN"] = "\n".join(known_findings(prop))
    cfg = CHECKS[prop]
    os.makedirs(os.path.join(HERE, ".work"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + "-", dir=os.path.join(HERE, ".work"))
    try:
        if d["mode"] == "compile":
            return 1 if precheck(work, cfg) else 0
        if d["mode"] == "runner":
            log(d["trace"])
            return 1
        exe = build_harness(work, cfg, d["variant"])
        sc = os.path.join(work, "replay")
        if d["mode"] == "path":
            k, txt = single(exe, prop, tier, d["path"], sc, 300)
        else:
            k, txt = shard_prefix(exe, prop, tier, d["shard"], d["shards"], d["executions"], sc, 600)
        log(txt)
        log(k)
        return 0 if k == "held" else 1
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
