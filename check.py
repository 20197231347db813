#!/usr/bin/env python3
"""Driver of the runtime monitors.

  check.py C01                 run the check of property C01 (tier and seed from the environment)
  check.py C01 --case N --backend boost   replay one case

Builds the library from /repo's current working tree (its own CMake files, static
library, with sanitizers), links the monitor of the property (harness/<id>.cpp) against
it, runs all its cases on both matrix back ends in parallel shards, and writes
evidence/<id>.json.  Exit 0: held on everything explored; 1: violation; 2: the check
itself failed (no verdict).
"""
import argparse, concurrent.futures as cf, fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "orocos_bfl")
BUILD = os.path.join(VERIF, "build")
BACKENDS = ("boost", "eigen")
COMMON = ["-g1", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined",
          "-fno-sanitize-recover=all"]
VARIANTS = {
    # the default: all undefined memory is poisoned with recognisable garbage
    "san": ["-O1", "-ftrivial-auto-var-init=pattern"] + COMMON,
    # for the differential run: undefined automatic variables are zero
    "san0": ["-O1", "-ftrivial-auto-var-init=zero"] + COMMON,
    # the flags the library ships with (assertions on), no sanitizer
    "plain": ["-O2", "-g1"],
}
WRAP = ["-Wl,--wrap=_ZN3BFL5runifEv", "-Wl,--wrap=_ZN3BFL5runifERKdS1_", "-Wl,--wrap=_ZN3BFL5rnormERKdS1_"]
ASAN = "abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=1:strict_init_order=1:allocator_may_return_null=0" \
       ":malloc_fill_byte=%d:max_malloc_fill_size=1000000000:max_free_fill_size=4096:free_fill_byte=%d:quarantine_size_mb=64"


class Error(Exception):
    pass


def tree_hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        if os.path.isfile(p):
            files = [p]
        else:
            files = []
            for d, ds, fs in os.walk(p):
                ds[:] = sorted(x for x in ds if x not in (".git", "_build"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode())
            try:
                h.update(open(f, "rb").read())
            except OSError:
                pass
    return h.hexdigest()[:16]


def sh(cmd, log, env=None, timeout=900):
    with open(log, "ab") as l:
        l.write((" ".join(cmd) + "\n").encode())
        l.flush()
        try:
            r = subprocess.run(cmd, stdout=l, stderr=l, stdin=subprocess.DEVNULL, env=env, timeout=timeout)
        except subprocess.TimeoutExpired:
            return 124
    return r.returncode


def prune(keep):
    """bound the size of the build cache"""
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD)]
        ds = sorted((d for d in ds if os.path.isdir(d)), key=os.path.getmtime)
        for d in ds[:-keep]:
            if time.time() - os.path.getmtime(d) > 1800:
                shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


def build_lib(backend, variant, ginac=False):
    flags = VARIANTS[variant]
    h = tree_hash([SRC], " ".join(flags) + backend + str(ginac) + REPO)
    d = os.path.join(BUILD, "lib-%s-%s%s-%s" % (backend, variant, "-ginac" if ginac else "", h))
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        lib = os.path.join(d, "src", "liborocos-bfl.a")
        if not os.path.exists(os.path.join(d, "done")):
            log = os.path.join(d, "build.log")
            env = dict(os.environ, CC="gcc", CXX="g++")
            rc = sh(["cmake", "-S", SRC, "-B", d, "-G", "Ninja", "-DMATRIX_LIB=" + backend,
                     "-DGINAC_SUPPORT=" + ("ON" if ginac else "OFF"), "-DBUILD_TESTS=OFF", "-DBUILD_EXAMPLES=OFF",
                     "-DLIBRARY_TYPE=static", "-DCMAKE_BUILD_TYPE=None", "-Wno-dev",
                     "-DCMAKE_CXX_FLAGS=" + " ".join(flags)], log, env)
            rc = rc or sh(["ninja", "-C", d, "orocos-bfl"], log, env)
            if rc or not os.path.exists(lib):
                raise Error("building the library failed, see " + log + "\n" + open(log, errors="replace").read()[-3000:])
            open(os.path.join(d, "done"), "w").close()
        os.utime(d)
    return d, h


def includes(libdir, backend):
    r = ["-I" + os.path.join(SRC, "src"), "-I" + os.path.join(libdir, "src", "wrappers", "matrix"),
         "-I" + os.path.join(SRC, "src", "wrappers", "matrix")]
    if backend == "eigen":
        r.append("-I/usr/include/eigen3")
    return r


def build_harness(name, backend, variant, ginac=False, wrap=True):
    libdir, lh = build_lib(backend, variant, ginac)
    src = os.path.join(VERIF, "harness", name + ".cpp")
    flags = ["-std=c++11"] + VARIANTS[variant] + ["-w"] + (["-DBACKEND_" + backend.upper()])
    h = tree_hash([os.path.join(VERIF, "harness")], " ".join(flags) + lh)
    d = os.path.join(BUILD, "bin-%s-%s-%s-%s" % (name, backend, variant, h))
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, name)
    with open(os.path.join(d, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(d, "done")):
            log = os.path.join(d, "build.log")
            cmd = ["g++"] + flags + includes(libdir, backend) + [src, "-o", exe] + WRAP + \
                  [os.path.join(libdir, "src", "liborocos-bfl.a")] + (["-lginac", "-lcln"] if ginac else []) + ["-lm"]
            if sh(cmd, log):
                raise Error("building the monitor failed, see " + log + "\n" + open(log, errors="replace").read()[-3000:])
            open(os.path.join(d, "done"), "w").close()
        os.utime(d)
    return exe


def san_summary(err):
    """stable key of a crash: kind of report and the library function it happened in"""
    kind = "abort"
    m = re.search(r"ERROR: AddressSanitizer: ([A-Za-z0-9_-]+)", err)
    if m:
        kind = "asan-" + m.group(1)
    m2 = re.search(r"runtime error: (.*)", err)
    if m2:
        kind = "ubsan-" + re.sub(r"[^A-Za-z]+", "-", re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", "", m2.group(1))).strip("-")[:40]
    m3 = re.search(r"Assertion [`'](.*?)' failed", err)
    if m3:
        kind = "assert"
    where = ""
    for l in err.splitlines():
        m = re.search(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?)(:\d+)", l)
        if m and "/orocos_bfl/" in m.group(2):
            where = os.path.basename(m.group(2))
            break
    if not where:
        m = re.search(r"(\w+\.(?:cpp|h)):\d+: .*Assertion", err)
        if m:
            where = m.group(1)
    return "crash:" + kind + (":" + where if where else "")


def run_shard(exe, seed, tier, shard, shards, work, tag, fills=(190, 85), extra=(), only=None, timeout=840):
    out = os.path.join(work, tag + ".json")
    prog = os.path.join(work, tag + ".prog")
    errf = os.path.join(work, tag + ".err")
    res = {"fails": [], "parts": [], "inconclusive": []}
    start = 0
    t_end = time.time() + timeout
    env = dict(os.environ, ASAN_OPTIONS=ASAN % fills, UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1")
    for attempt in range(8):
        for f in (out, prog):
            if os.path.exists(f):
                os.unlink(f)
        cmd = [exe, "--seed", str(seed), "--tier", tier, "--shards", str(shards), "--shard", str(shard),
               "--start", str(start), "--out", out, "--progress", prog] + list(extra)
        if only is not None:
            cmd += ["--case", str(only)]
        rc = None
        with open(errf, "wb") as e:
            try:
                rc = subprocess.run(cmd, stdout=e, stderr=e, stdin=subprocess.DEVNULL, env=env, cwd=work,
                                    timeout=max(5, t_end - time.time())).returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
        if os.path.exists(out):
            try:
                j = json.load(open(out))
                res["parts"].append(j)
                res["fails"] += j["fails"]
                return res
            except ValueError:
                pass
        try:
            case = int(open(prog).read().split()[0])
        except (OSError, ValueError, IndexError):
            raise Error("the monitor did not start (%s): %s" % (rc, open(errf, errors="replace").read()[-2000:]))
        err = open(errf, errors="replace").read()
        if rc == "timeout":
            # does this one case hang?  run it alone with a generous limit
            try:
                subprocess.run(cmd[:cmd.index("--start")] + ["--out", out + ".h", "--case", str(case)], env=env, cwd=work,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
                res["inconclusive"].append("watchdog fired at case %d, which terminates when run alone" % case)
            except subprocess.TimeoutExpired:
                res["fails"].append({"key": "hang", "msg": "case %d does not terminate within 60 s" % case, "case": case, "log": ""})
            return res
        key = san_summary(err)
        if rc is not None and not isinstance(rc, str) and rc >= 0 and key == "crash:abort":
            key = "crash:exit"
        i = max(0, min([x for x in (err.find("ERROR: AddressSanitizer"), err.find("runtime error"), err.find("Assertion")) if x >= 0] or [len(err) - 3000]) - 200)
        res["fails"].append({"key": key, "msg": "exit status %s" % rc, "case": case, "log": err[i:i + 4000]})
        if only is not None:
            return res
        start = case + 1
    return res


def known_findings(prop):
    r = {}
    try:
        for l in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                r[m.group(2)] = m.group(3)
    except OSError:
        pass
    return r


def merge(parts_by_tag):
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "observed": {}}
    dist = set()
    rule = ""
    for tag, j in parts_by_tag:
        cov["evaluations"] += j["evaluations"]
        rule = j["rule"] or rule
        b = tag.split("-")[0]
        for x in j["distinct"]:
            dist.add((b, x))
        for k, v in j["counts"].items():
            cov["observed"][k] = cov["observed"].get(k, 0) + v
        if len(cov["samples"]) < 3 and j["samples"]:
            cov["samples"].append(tag + " " + j["samples"][0])
    cov["distinct_nontrivial"] = len(dist)
    cov["rule"] = rule
    return cov


def compare_traces(tr, backends):
    """differential oracle: same results with other contents of undefined memory (bit by bit),
    and on the other back end (up to rounding)"""
    fails, cnt = [], {"traces_compared_between_memory_fills": 0, "traces_compared_between_back_ends": 0, "chaotic_programs_not_compared": 0}
    for b in backends:
        t1, t2 = tr.get((b, "san"), {}), tr.get((b, "san0"), {})
        bad = sorted((k for k in set(t1) | set(t2) if (t1.get(k) or [0])[:2] != (t2.get(k) or [0])[:2]), key=int)
        cnt["traces_compared_between_memory_fills"] += len(t1)
        if bad:
            fails.append({"key": "depends-on-undefined-memory", "backend": b, "variant": "san+san0", "case": int(bad[0]), "log": "",
                          "msg": "%d cases give different results when undefined memory has other contents: %s" % (len(bad), bad[:10])})
    if len(backends) == 2:
        t1, t2 = tr.get((backends[0], "san"), {}), tr.get((backends[1], "san"), {})
        bad, worst, per = [], 0.0, {}
        for k in sorted(set(t1) & set(t2), key=int):
            (_, n1, s1, v1), (_, n2, s2, v2) = t1[k], t2[k]
            tol = 1e-8 + 1000 * max(s1, s2)   # sensitivity of the program to perturbations of 1e-13
            if tol > 1e-2:
                cnt["chaotic_programs_not_compared"] += 1
                continue
            cnt["traces_compared_between_back_ends"] += 1
            if n1 != n2:
                bad.append((k, "%d and %d results" % (n1, n2)))
                continue
            for i, (x, y) in enumerate(zip(v1, v2)):
                if isinstance(x, str) or isinstance(y, str):
                    if x != y:
                        bad.append((k, "result %d: %s and %s" % (i, x, y)))
                        break
                    continue
                sc = 1e-6 + max(abs(z) for z in v1[max(0, i - 12):i + 13] if not isinstance(z, str))
                worst = max(worst, abs(x - y) / sc)
                per[k] = max(per.get(k, 0), abs(x - y) / sc / tol)
                if abs(x - y) > tol * sc:
                    bad.append((k, "result %d: %.17g and %.17g" % (i, x, y)))
                    break
        if os.environ.get("VERIF_DEBUG"):
            print("largest relative difference between back ends", worst, len(bad), bad[:20], sorted(((v, k) for k, v in per.items()), reverse=True)[:25])
        if bad:
            fails.append({"key": "back-ends-disagree", "backend": backends[1], "variant": "san", "case": int(bad[0][0]), "log": "\n".join("case %s: %s" % x for x in bad[:50]),
                          "msg": "%d cases give different results on the two back ends, first case %s, %s" % (len(bad), bad[0][0], bad[0][1])})
    return fails, cnt


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--case", type=int)
    ap.add_argument("--backend")
    ap.add_argument("--tier")
    ap.add_argument("--seed", type=int)
    a = ap.parse_args()
    prop = a.prop
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    tier = "thorough" if tier == "thorough" else "quick"
    try:
        seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED") or "1")
    except ValueError:
        seed = 1
    t0 = time.time()
    cfg = json.load(open(os.path.join(VERIF, "harness", "config.json"))).get(prop, {})
    harness = cfg.get("harness", prop.lower())
    ginac = cfg.get("ginac", False)
    backends = [b for b in cfg.get("backends", BACKENDS) if a.backend in (None, b)]
    shards = cfg.get("shards", 4)
    diff = cfg.get("differential", False)
    os.makedirs(BUILD, exist_ok=True)
    work = os.path.join(BUILD, "work-%s-%d" % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    results = []
    try:
        with cf.ThreadPoolExecutor(8) as ex:
            variants = ["san", "san0"] if diff else ["san"]
            exes = dict(zip([(b, v) for b in backends for v in variants],
                            ex.map(lambda bv: build_harness(harness, bv[0], bv[1], ginac), [(b, v) for b in backends for v in variants])))
            tb = time.time() - t0
            jobs = []
            for b in backends:
                for v in variants:
                    fills = (190, 85) if v == "san" else (0, 0)
                    if a.case is not None:
                        jobs.append((b, v, 0, ex.submit(run_shard, exes[b, v], seed, tier, 0, 1, work, "%s-%s-%d" % (b, v, 0), fills, (), a.case)))
                    else:
                        for s in range(shards):
                            jobs.append((b, v, s, ex.submit(run_shard, exes[b, v], seed, tier, s, shards, work, "%s-%s-%d" % (b, v, s), fills)))
            for b, v, s, f in jobs:
                results.append(("%s-%s-%d" % (b, v, s), b, v, s, f.result()))
        parts = [(tag, j) for tag, b, v, s, r in results for j in r["parts"]]
        fails = []
        for tag, b, v, s, r in results:
            for x in r["fails"]:
                fails.append(dict(x, backend=b, variant=v))
        ndiff = {}
        if diff and not fails:
            tr = {}
            for tag, b, v, s, r in results:
                for j in r["parts"]:
                    tr.setdefault((b, v), {}).update(j.get("trace") or {})
            fails, ndiff = compare_traces(tr, backends)
        cov = merge(parts)
        cov["observed"].update(ndiff)
        cov["known_findings_seen"] = 0
        inconclusive = [x for _, _, _, _, r in results for x in r["inconclusive"]]
        known = known_findings(prop)
        new, seen = [], {}
        for x in fails:
            if x["key"] in known or (x["backend"] + ":" + x["key"]) in known:
                k = x["key"] if x["key"] in known else x["backend"] + ":" + x["key"]
                seen[k] = x
            else:
                new.append(x)
        for k in sorted(seen):
            print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
        cov["known_findings_seen"] = len(seen)
        if a.case is not None:
            for x in fails:
                print(json.dumps(x, indent=1))
            print("case %d: %s" % (a.case, "FAILED" if fails else "held"))
            return 1 if new else 0
        if cov["evaluations"] == 0 or cov["distinct_nontrivial"] < 2 or cov["observed"].get("monitor_assertions", 0) == 0:
            if not new:
                raise Error("the monitors observed nothing: %s" % json.dumps(cov)[:500])
        if cfg.get("require") and not new:
            missing = [k for k in cfg["require"] if not cov["observed"].get(k)]
            if missing:
                raise Error("the workload never reached: " + ", ".join(missing))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
              "assumptions": cfg.get("assumptions", []) + ["both matrix back ends are built from the current tree with gcc, ASan and UBSan (reports fatal), library assertions on"],
              "wall_s": round(time.time() - t0, 2), "violations": len(new)}
        cov["build_s"] = round(tb, 2)
        cov["matrix_backends"] = list(backends)
        if inconclusive:
            cov["inconclusive"] = inconclusive
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
        if new:
            rd = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            done = set()
            for x in new:
                k = x["key"]
                if k in done:
                    continue
                done.add(k)
                p = os.path.join(rd, "%s-%s.txt" % (prop, re.sub(r"[^A-Za-z0-9_.-]+", "_", k)[:80]))
                with open(p, "w") as f:
                    f.write("property: %s\nviolation: %s\nback end: %s\nseed: %d  tier: %s  case: %s\n" % (prop, k, x["backend"], seed, tier, x["case"]))
                    f.write("replay: cd /verif && python3 check.py %s --seed %d --tier %s --backend %s --case %s\n\n" % (prop, seed, tier, x["backend"], x["case"]))
                    f.write("%s\n\n%s\n" % (x["msg"], x["log"]))
                print("%s [%s, case %s]: %s" % (k, x["backend"], x["case"], x["msg"][:300]))
                print("VIOLATION property=%s replay=%s" % (prop, p))
            return 1
        if inconclusive:
            raise Error("inconclusive: " + "; ".join(inconclusive))
        print("%s held: %d executions, %d distinct non-trivial, %d monitor assertions, %.1f s (build %.1f s)" % (
            prop, cov["evaluations"], cov["distinct_nontrivial"], cov["observed"].get("monitor_assertions", 0), time.time() - t0, tb))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
        prune(60)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Error as e:
        print("check error:", e, file=sys.stderr)
        sys.exit(2)
