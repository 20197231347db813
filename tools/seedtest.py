#!/usr/bin/env python3
"""Confirm planted bugs in a scratch copy of /repo and run the checks against them.
  seedtest.py ID...           (development tool; no check uses it)
For each: builds, runs the stable tests, runs the demo with and without the change and the
quick check of its property (and with --all every check) with VERIF_REPO=<scratch copy>."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = "/tmp/sc"
def run(c, **k):
    return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def script(name):
    s = open("/opt/vp/" + name).read().replace("/repo", SC).replace("/opt/vp/build.sh", "/tmp/sc-build.sh")
    open("/tmp/sc-" + name, "w").write(s)
def prepare():
    if not os.path.isdir(SC):
        run(["cp", "-a", "/repo", SC]); shutil.rmtree(SC + "/_build", ignore_errors=True)
    run("git -C %s checkout -q -- . && git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (SC, SC, SC))
    for n in ("build.sh", "test.sh"): script(n)
def build(): return run("bash /tmp/sc-build.sh")
def demo(i): return run("bash %s/seeded/%s/demo.sh" % (V, i), cwd=SC)
def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    if not ids: ids = sorted(os.listdir(V + "/seeded"))
    prepare()
    base = json.load(open("/opt/vp/BASELINE.json")); k = [x for x in base if isinstance(base[x], list)]
    stable = set(base.get("stable") or base[k[0]])
    r = build()
    if r.returncode: print(r.stdout[-2000:]); return
    ok0 = {i: demo(i) for i in ids}
    for i in ids:
        m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
        line = "%-28s %s demo0=%d" % (i, m["property"], ok0[i].returncode)
        if ok0[i].returncode: line += " " + ok0[i].stdout[-600:]
        a = run("git -C %s apply %s/seeded/%s/patch.diff" % (SC, V, i))
        if a.returncode: print(line, "DOES NOT APPLY", a.stdout); continue
        try:
            b = build()
            if b.returncode: print(line, "DOES NOT BUILD", b.stdout[-1500:]); continue
            if "--notest" not in sys.argv:
                run("bash /tmp/sc-test.sh /tmp/sc-o.json"); o = json.load(open("/tmp/sc-o.json"))
                pa = o.get("passed") or [t for t, v in o.items() if v in ("pass", "passed", True)]
                line += " tests=%s" % ("ok" if not stable - set(pa) else sorted(stable - set(pa)))
            d = demo(i); line += " demo1=%d" % d.returncode
            if "-v" in sys.argv: line += " " + d.stdout[-300:]
            have = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
            for p in (have if "--all" in sys.argv else [m["property"]]):
                if p not in have: line += " (no check)"; continue
                c = run([sys.executable, V + "/check.py", p], env=dict(os.environ, VERIF_REPO=SC, VERIF_TIER="quick", VERIF_SEED="1"))
                v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
                if c.returncode == 1 and v: line += "  %s:CAUGHT" % p + (" [%s]" % v[0][-60:] if "--all" not in sys.argv else "")
                elif c.returncode == 0: line += "" if "--all" in sys.argv else "  %s:MISSED" % p
                else: line += "  %s:ERROR %d %s" % (p, c.returncode, c.stdout[-500:])
        finally:
            run("git -C %s checkout -q -- ." % SC)
        print(line, flush=True)
        f = V + "/tools/caught.json"
        try: c = json.load(open(f))
        except OSError: c = {}
        if "--all" not in sys.argv: c[i] = "caught by " + m["property"] if ":CAUGHT" in line else "missed"
        json.dump(c, open(f, "w"), indent=1, sort_keys=True)
main()
