#!/usr/bin/env python3
"""Development tool: are simulated executions exactly repeatable?
  determinism.py [-n N] [--seeds 1,2] [Cxx ...]
Every scenario is executed in two fresh interpreters that differ in string hash seed, number of worker processes and
load; what is compared is every run's schedule hash, steps, outcome and exit status and the bytes of every file left behind."""
import argparse, hashlib, importlib, json, multiprocessing, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib import build as B, core, sim as S


def sig(ctx, v):
    h = []
    for n, r in sorted(ctx.runs.items()):
        h.append((n, "%016x" % r.hash, r.steps, r.outcome, r.rc, sorted(r.faults.items())))
    fs = []
    for root, _, names in os.walk(ctx.base):
        for n in sorted(names):
            if n in ("dst.out", "dst.cfg"):
                continue
            p = os.path.join(root, n)
            if n == "dst.jrn":      # holds inode numbers of the scratch directory
                ino, j = {}, []
                for r in S.parse_journal(open(p, "rb").read()):
                    j.append(r[:2] + (ino.setdefault(r[2], len(ino)),) + r[3:])
                fs.append((n, hashlib.blake2b(repr(j).encode(), digest_size=8).hexdigest()))
                continue
            if os.path.isfile(p) and not os.path.islink(p):
                fs.append((os.path.relpath(p, ctx.base), hashlib.blake2b(open(p, "rb").read(), digest_size=8).hexdigest()))
    return {"runs": h, "files": sorted(fs), "viol": None if v is None else v.cls}


def one(a):
    prop, seed, i, scratch = a
    d = os.path.join(scratch, "w%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    ctx = core.Ctx(d)
    p = importlib.import_module("props." + prop.lower()).PROP
    sc = json.loads(json.dumps(core.scenario_for(p, seed, "quick", i)))
    v = core._attempt(p, sc, ctx)
    return prop, seed, i, sig(ctx, v)


def child(args):
    jobs, w = json.loads(args[0]), int(args[1])
    S.no_aslr()
    scratch = core.scratch_dir()
    try:
        with multiprocessing.get_context("fork").Pool(w) as pool:
            out = list(pool.imap_unordered(one, [(p, s, i, scratch) for p, s, i in jobs], chunksize=1))
    finally:
        import shutil
        shutil.rmtree(scratch, ignore_errors=True)
    print(json.dumps(sorted(out, key=lambda x: x[:3])))


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--child":
        return child(sys.argv[2:])
    ap = argparse.ArgumentParser()
    ap.add_argument("-n", type=int, default=40)
    ap.add_argument("--seeds", default="1,2,3")
    ap.add_argument("props", nargs="*")
    a = ap.parse_args()
    props = a.props or ["C%02d" % k for k in range(1, 19)]
    B.build({"reml", "coresim", "pyext"})
    bad = 0
    for p in props:
        jobs = json.dumps([(p, s, i) for s in a.seeds.split(",") for i in range(a.n)])
        res = []
        for hs, w in (("0", 3), ("4711", 8)):
            r = subprocess.run([sys.executable, os.path.abspath(__file__), "--child", jobs, str(w)], stdout=subprocess.PIPE, env=dict(os.environ, PYTHONHASHSEED=hs), cwd=V)
            res.append(json.loads(r.stdout))
        diff = [(x, y) for x, y in zip(*res) if x != y]
        print("%s: %d scenarios, %d runs, %d differ" % (p, len(res[0]), sum(len(x[3]["runs"]) for x in res[0]), len(diff)), flush=True)
        for x, y in diff[:3]:
            print("  ", x[:3], [k for k in x[3] if x[3][k] != y[3][k]])
            for k in x[3]:
                if x[3][k] != y[3][k]:
                    print("     ", str([q for q in x[3][k] if q not in y[3][k]])[:400], "|", str([q for q in y[3][k] if q not in x[3][k]])[:400])
        bad += len(diff)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
