#!/usr/bin/env python3
"""trybug.py ID... [--no-tests] [--no-check]: confirms planted bugs in /repo's working tree (which must be clean) and runs their check."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/vp/venv/bin/python3"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def demo(d):
    p = sh("cp -r %s /tmp/demo_run && cd /repo && timeout 300 bash /tmp/demo_run/demo.sh" % d)
    sh("rm -rf /tmp/demo_run")
    return p.returncode, p.stdout[-300:]


assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo not clean"
args = [a for a in sys.argv[1:] if not a.startswith("--")]
sh("bash /opt/vp/build.sh")
clean = {}
for b in args:
    clean[b] = demo(os.path.join(V, "seeded", b))
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
for b in args:
    d = os.path.join(V, "seeded", b)
    meta = json.load(open(d + "/meta.json"))
    print("==", b, meta["property"], "clean demo rc", clean[b][0], "" if clean[b][0] == 0 else clean[b][1], flush=True)
    p = sh("git -C /repo apply %s/patch.diff" % d)
    if p.returncode:
        print("  DOES NOT APPLY", p.stdout)
        continue
    try:
        if "--no-tests" in sys.argv:
            p = sh("bash /opt/vp/build.sh")
            print("  build rc", p.returncode, p.stdout[-500:] if p.returncode else "")
        else:
            p = sh("bash /opt/vp/test.sh /tmp/tb.json")
            r = json.load(open("/tmp/tb.json"))
            miss = stable - set(r["passed"])
            print("  stable tests missing:", len(miss), sorted(miss)[:5], flush=True)
        print("  demo with patch:", demo(d), flush=True)
        if "--no-check" not in sys.argv:
            t = time.time()
            p = sh("cd %s && VERIF_SEED=1 VERIF_TIER=quick timeout 900 %s sim/run.py check %s --tier quick" % (V, PY, meta["property"]))
            last = [l for l in p.stdout.splitlines() if "case" in l or "VIOLATION" in l or "runs=" in l]
            print("  check rc %d in %.0fs" % (p.returncode, time.time() - t), *[l[:300] for l in last], sep="\n     ", flush=True)
    finally:
        sh("git -C /repo checkout -- .")
sh("bash /opt/vp/build.sh")
