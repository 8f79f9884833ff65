"""C05: saving a model is atomic under crashes and write failures."""
import json, os, random
from vlib import gen, iofaults as IO, sim as S, train as T
from vlib.core import Prop, Violation


class C05(Prop):
    id = "C05"
    rule = ("A scenario replaces a model file (absent before, an older model, the input model itself, or reached through a symbolic link or sub-directory) with the real "
            "`reml train` or `reml import-model`. After a fault-free run: crashes before, after and in the middle of every I/O operation from the first one that "
            "touches the model on (seeded choice), crashes at random scheduler steps, failing opens, writes, syncs and renames, and power-loss disk images built from the journal of operations "
            "(unsynced data lost, cut or reordered, name operations in order). Every resulting file is compared with the old bytes and the complete new model; then the "
            "command is run again from the crashed state. Non-trivial: a crash, fault or image; distinct by (schedule hash) or image content.")
    quick_n = 3200
    thorough_n = 50000
    assumptions = ["Power-loss model: directory operations reach the disk in order; file data is durable only after fsync/fdatasync of that file; unsynced writes may be lost, torn or reordered.",
                   "A name operation that was not yet durable when power failed may be undone even after the command succeeded; both file versions are accepted then."]

    def scenario(self, rng, tier, i):
        cmd = rng.choice(["train", "train", "import-model"])
        n = rng.choice([0, 1, 3, 8, 20])
        w = gen.workload(rng, n, n, allow_ew=False)
        if rng.random() < .1:  # a model file larger than any one buffer
            w = gen.big_workload(rng, kinds=("long",))
            w["config"]["globalConfig"]["numBits"] = rng.choice([10, 12, 14])
            w["chunks"] = w["chunks"][:3]
        w2 = dict(w, chunks=[gen.example(rng, w["format"], w["kind"], w["meta"]) for _ in range(rng.choice([1, 4, 15]))])
        big = rng.random() < .03
        if big and cmd == "train":  # a training run longer than any interval at which one might save
            w2 = gen.big_workload(rng, kinds=("many",))
            w = dict(w2, chunks=w2["chunks"][:3])
            n = len(w2["chunks"])
        v = T.variant(rng, threads=[0, 0, 1, 2])
        v["preds"] = rng.random() < .3
        s = gen.sched(rng, *gen.est(w2))
        s.pop("clock_step", None)
        prior = rng.choice(["none", "old", "old", "garbage", "self"]) if cmd == "train" else rng.choice(["none", "old", "old"])
        return {"cmd": cmd, "w": w, "w2": w2, "v": v, "prior": prior,
                "place": rng.choice(["plain", "plain", "sub"] + ["link"] * (prior != "none")), "picks": [rng.getrandbits(40) for _ in range(8)], "sims": {"v0": s}}

    def argv(self, sc):
        m = {"plain": T.MODEL, "sub": "sub/model.bin", "link": "link.bin"}[sc["place"]]
        if sc["cmd"] == "train":
            return T.argv(sc["w2"], sc["v"], data="data2", model=m, input_model=m if sc["prior"] == "self" else None)
        return ["import-model", "in.json", "-o", m]

    def reset(self, sc, ctx, old):
        self.path = {"plain": T.MODEL, "sub": "sub/model.bin", "link": "link.bin"}[sc["place"]]
        for n in os.listdir(ctx.dir):
            p = ctx.path(n)
            if n in ("data", "data2", "cfg.json", "in.json", "in.bin", "old.bin", "sub"):
                continue
            if os.path.islink(p) or os.path.isfile(p):
                os.unlink(p)
        d = ctx.path("sub")
        if os.path.isdir(d):
            for n in os.listdir(d):
                os.unlink(os.path.join(d, n))
        else:
            os.mkdir(d)
        if sc["place"] == "link":
            os.symlink(T.MODEL, ctx.path("link.bin"))
        if old is not None:
            ctx.write(self.path, old)

    def execute(self, sc, ctx):
        w = sc["w"]
        T.put(ctx, w)
        ctx.write("data2", gen.data_bytes(sc["w2"]))
        plain = {"seed": 1, "strat": 0}
        dig = T.Digests(ctx)
        os.makedirs(ctx.path("sub"), exist_ok=True)
        r = ctx.reml("prep", T.argv(w, {"threads": 0, "quiet": True, "preds": False}, model="old.bin"), plain)
        if r.rc != 0:
            raise Violation("fault_free_failed", "train: %s %s" % (r.how(), T.tail(r)))
        old = {"none": None, "garbage": b"something else " * 10}.get(sc["prior"], ctx.read("old.bin"))
        if sc["cmd"] == "import-model":
            ref = T.reference(ctx, sc["w2"], "learn", extra=[["nulls", "w"], ["ws", "f", w["config"]], ["nulls", "f"]])
            if ref.extra[0] != ref.extra[2]:
                ctx.probe("history left the finite numbers: not importable")
                return
            r = ctx.reml("prep2", T.argv(sc["w2"], {"threads": 0, "quiet": True, "preds": False}, data="data2", model="in.bin"), plain)
            r = ctx.reml("prep3", ["export-model", "in.bin"], plain)
            if r.rc != 0:
                raise Violation("fault_free_failed", "export-model: %s %s" % (r.how(), T.tail(r)))
            ctx.write("in.json", r.stdout)
        sim = sc["sims"]["v0"]
        base = {k: x for k, x in sim.items() if k not in ("script", "devs", "rules", "crash_step")}
        self.reset(sc, ctx, old)
        r0 = ctx.reml("base", self.argv(sc), dict(base, trace=1, journal=1))
        if r0.outcome != S.OUT_EXITED or r0.rc != 0:
            raise Violation("fault_free_failed", "%s without any fault: %s %s" % (sc["cmd"], r0.how(), T.tail(r0)), "base")
        new = ctx.read(self.path)
        if new is None:
            raise Violation("no_model", "success without a model at the requested path", "base")
        nd = dig.of(new)[:2]
        if nd[0] != "ok":
            raise Violation("no_model", "the model saved without any fault does not load: %s" % nd[1], "base")
        os_ = IO.ops(r0)
        outs = [o for o in os_ if o[1] in "wsnO"]
        firstm = min([o[0] for o in outs if not o[2].startswith(("<", "preds"))], default=0)

        def judge(got, what, simname, exited_ok=False):
            if got == new or (got is not None and got != old and dig.of(got)[:2] == nd):
                return "new"
            if got == old and not exited_ok:
                return "old"
            raise Violation("torn_model" if got != old else "stale_model", "%s: the model path holds %s; before: %s, complete new model: %d bytes" % (
                what, "nothing" if got is None else "%d bytes" % len(got), "nothing" if old is None else "%d bytes" % len(old), len(new)), simname)

        scripted = "script" in sim or "devs" in sim or "crash_step" in sim or "power" in sc
        trials = []
        if scripted:
            trials = [(sim, sc.get("power"))]
        else:
            for seed in sc["picks"]:
                rng = random.Random(seed)
                k = rng.random()
                late = [o for o in os_ if o[0] >= firstm]
                if k < .45 and late:
                    o = rng.choice(late)
                    trials.append((dict(base, devs=[IO.crash(rng, o[0], o[1])]), None))
                elif k < .55:
                    trials.append((dict(base, crash_step=rng.randrange(1, r0.steps + 1)), None))
                elif k < .8 and outs:
                    mine = [o for o in outs if o[0] >= firstm] or outs
                    o = rng.choice(mine)
                    trials.append((dict(base, devs=[IO.dev(rng, o[0], o[1], hard=rng.random() < .8)]), None))
                else:
                    trials.append((dict(base), seed))
        for s, power in trials:
            if not scripted:
                sc["sims"]["v0"] = s
                if power is not None:
                    sc["power"] = power
                else:
                    sc.pop("power", None)
            self.reset(sc, ctx, old)
            ino0 = {}
            real = T.MODEL if sc["place"] == "link" else self.path
            if old is not None:
                ino0[real] = os.stat(ctx.path(self.path)).st_ino
            r = ctx.reml("v0", self.argv(sc), dict(s, journal=1))
            if r.hung():
                raise Violation("hang", "%s, faults %s: %s" % (sc["cmd"], json.dumps(r.faults), r.how()), "v0")
            if power is not None:
                for j in range(12):
                    rng = random.Random("%s.%d" % (power, j))
                    J = r.journal
                    mops = [i for i, e in enumerate(J) if not e[3].startswith(("<", "preds"))]
                    upto = rng.choice([len(J)] + ([rng.randrange(mops[0], len(J) + 1)] * 3 if mops else []))
                    img = IO.power_loss(rng, J, {real: old} if old is not None else {}, ino0, upto)
                    got = img.get(self.path, img.get(real))
                    res = judge(got, "%s, power lost after %d of %d disk operations (image %d)" % (sc["cmd"], upto, len(J), j), "v0")
                    ctx.probe("power loss leaves " + res)
                    ctx.mark("power", r.hash, upto, j, power)
                continue
            got = ctx.read(self.path)
            ok = r.outcome == S.OUT_EXITED and r.rc == 0
            what = "%s (%s), faults %s: %s" % (sc["cmd"], sc["prior"], json.dumps({k: v for k, v in r.faults.items() if k not in ("preempt", "wake_pick", "spurious_wakeup", "thread_stall")}), r.how())
            res = judge(got, what, "v0", exited_ok=ok)
            ctx.probe(("crash" if r.outcome == S.OUT_CRASHED else "success" if ok else "failure") + " leaves " + res)
            if r.outcome == S.OUT_CRASHED and not (sc["prior"] == "self" and res == "new"):
                r2 = ctx.reml("again", self.argv(sc), base)
                if r2.outcome != S.OUT_EXITED or r2.rc != 0:
                    raise Violation("no_recovery", "%s; running the command again: %s %s" % (what, r2.how(), T.tail(r2)), "again")
                got = ctx.read(self.path)
                judge(got, what + "; after running the command again", "again", exited_ok=True)
        if not scripted:
            sc["sims"]["v0"] = sim
            sc.pop("power", None)

    def shrinks(self, sc):
        yield from T.w_shrinks(sc)
        yield from T.w_shrinks(sc, "w2")


PROP = C05()
