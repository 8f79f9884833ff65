#!/usr/bin/env python3
"""Development tool (no check uses it): confirms seeded changes and runs the checks against them.
  plant.py verify ID...   applies, builds, runs the stable tests and the demo; then the demo without the change
  plant.py catch ID...    applies, runs the check of the change's property (quick), undoes
"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def clean():
    return sh("git -C /repo status --porcelain --untracked-files=no").stdout.strip() == ""


def apply(i):
    assert clean(), "/repo is dirty"
    r = sh("git -C /repo apply %s/%s/patch.diff" % (S, i))
    assert r.returncode == 0, r.stdout


def undo():
    sh("git -C /repo checkout -- .")


def demo(i):
    d = sh("mktemp -d").stdout.strip()
    sh("cp %s/%s/* %s; rm -f %s/*.diff %s/meta.json" % (S, i, d, d, d))
    t = time.time()
    r = sh("timeout 300 bash %s/demo.sh" % d, cwd="/repo")
    sh("rm -rf " + d)
    return r.returncode, time.time() - t, r.stdout[-1500:]


def verify(ids):
    ok = True
    for i in ids:
        msgs = []
        apply(i)
        try:
            r = sh("bash /opt/vp/build.sh")
            if r.returncode:
                msgs.append("BUILD FAILS\n" + r.stdout[-3000:])
            else:
                r = sh("bash /opt/vp/test.sh /tmp/plant_out.json")
                got = json.load(open("/tmp/plant_out.json"))
                st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
                passed = set(got.get("passed", []))
                miss = [t for t in st if t not in passed]
                if miss:
                    msgs.append("TESTS FAIL: %s" % miss)
                rc, t, out = demo(i)
                print("%s patched: demo rc=%d %.1fs %s" % (i, rc, t, out.strip()[-300:]))
                if rc == 0:
                    msgs.append("DEMO PASSES WITH THE CHANGE")
        finally:
            undo()
        print(i, "OK" if not msgs else "\n".join(msgs), flush=True)
        ok &= not msgs
    sh("bash /opt/vp/build.sh")
    for i in ids:
        rc, t, out = demo(i)
        print("%s clean: demo rc=%d %.1fs %s" % (i, rc, t, "" if rc == 0 else out), flush=True)
        ok &= rc == 0
    return ok


def catch(ids, props=None):
    for i in ids:
        p = props or json.load(open("%s/%s/meta.json" % (S, i)))["property"]
        apply(i)
        try:
            t = time.time()
            r = sh("timeout 900 python3 check.py --property %s --tier quick" % p, cwd=V)
        finally:
            undo()
        lines = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
        print("%s %s rc=%d %.0fs %s" % (i, p, r.returncode, time.time() - t, "CAUGHT" if r.returncode == 1 and lines else "*** MISSED\n" + r.stdout[-800:]))
        for x in r.stdout.splitlines():
            if x.startswith(("VIOLATION", "  ")) :
                print("    ", x[:220])
        sys.stdout.flush()


if __name__ == "__main__":
    a = sys.argv[2:] or sorted(os.listdir(S))
    if sys.argv[1] == "verify":
        sys.exit(0 if verify(a) else 1)
    if sys.argv[1].startswith("catch"):
        catch(a, sys.argv[1][6:] or None)
