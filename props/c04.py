"""C04: outputs are complete or the command reports failure."""
import json
from vlib import gen, iofaults as IO, sim as S, train as T
from vlib.core import Prop, Violation

REDUCTIONS = ["Coin", "CbAdf", "CbExploreAdfGreedy", "CbExploreAdfSoftmax", "CbExploreAdfSquareCb", "ElementwiseInteraction", "Debug"]


class C04(Prop):
    id = "C04"
    rule = ("A scenario is one command of the real binary (train with predictions, model and progress table; export-model; import-model; config new; config check; gen-schema; "
            "gen-completions) with a generated workload. It is first run without faults, then again with the same schedule and a failure (EIO, ENOSPC, EPIPE, failing open, "
            "fsync or rename, transient or permanent) at a seeded output operation, weighted towards the last one on each file, and with absorbed faults only (short and "
            "interrupted writes). Distinct by schedule hash, which covers the fault decisions; non-trivial if a fault was injected.")
    quick_n = 4500
    thorough_n = 50000

    def scenario(self, rng, tier, i):
        cmd = rng.choice(["train"] * 6 + ["export-model"] * 2 + ["import-model"] * 2 + ["config-new", "config-check", "gen-schema", "gen-completions"])
        n = rng.choice([0, 1, 3, 8, 20, 60])
        big = cmd == "train" and rng.random() < .15
        if big:
            w = self.big(rng)
            n = len(w["chunks"])
        else:
            w = gen.workload(rng, n, n, allow_ew=rng.random() < .3)
        v = T.variant(rng, threads=[0, 0, 1, 2, 3])
        v["progress"] = rng.choice([None, "+1", "+3", "*2"])
        if cmd in ("export-model", "import-model") or n == 0:
            v["threads"] = 0
        v["metrics"] = T.metrics_for(w["kind"], w["meta"], rng) if n else None
        v["preds"], v["model"] = big or rng.random() < .85, rng.random() < .7
        s = gen.sched(rng, 40000 + 6000 * n, 300 + 120 * n)
        if cmd != "train":
            s = {"seed": s["seed"], "strat": 0}
        return {"cmd": cmd, "w": w, "v": v, "arg": rng.choice(REDUCTIONS + ["Coin"]), "old": rng.random() < .5,
                "picks": [[rng.getrandbits(40), rng.random() < .25] for _ in range(8)], "sims": {"v0": s}}

    def big(self, rng):
        """a predictions file larger than any one buffer: many lines, or lines of hundreds of actions"""
        if rng.random() < .5:
            c, m = gen.config(rng, "simple", bits=4)
            n = rng.choice([150, 300, 600])
            ch = ["%d |a %s:%s" % (rng.randrange(3), rng.choice(gen.WORDS[:8]), rng.choice([1, .5, 2])) for _ in range(n)]
            return {"config": c, "meta": m, "format": "vw-text", "kind": "simple", "chunks": ch, "final_newline": True}
        c, m = gen.config(rng, "cb", bits=4)
        c["globalConfig"].pop("interactions", None)
        ch = []
        for _ in range(rng.choice([1, 2, 4])):
            k = rng.choice([100, 300, 600])
            lab = rng.randrange(k)
            ch.append("shared |a x\n" + "\n".join(("%d:%s:0.5 " % (j, rng.choice([0, 1, -1])) if j == lab else "") + "|b %s:%s" % (rng.choice(gen.WORDS[:8]), rng.choice([1, .5, 2])) for j in range(k)))
        return {"config": c, "meta": m, "format": "vw-text", "kind": "cb", "chunks": ch, "final_newline": True}

    def argv(self, sc):
        c = sc["cmd"]
        if c == "train":
            return T.argv(sc["w"], sc["v"])
        if c == "export-model":
            return ["export-model", "in.bin"]
        if c == "import-model":
            return ["import-model", "in.json", "-o", T.MODEL]
        if c == "config-new":
            return ["config", "new", sc["arg"]]
        if c == "config-check":
            return ["config", "check", T.CFG]
        if c == "gen-schema":
            return ["gen-schema"]
        return ["gen-completions", "bash" if sc["old"] else "fish"]

    def outputs(self, sc, ctx, r):
        return {"<stdout>": r.stdout, T.PREDS: ctx.read(T.PREDS), T.MODEL: ctx.read(T.MODEL)}

    def clean(self, sc, ctx):
        ctx.rm(T.PREDS)
        if sc["old"]:  # files of an earlier, longer run
            ctx.write(T.PREDS, b"[[0,0.5],[1,0.5]]\n" * 6000)
            ctx.write(T.MODEL, b"old model " * 20)
        else:
            ctx.rm(T.MODEL)

    def execute(self, sc, ctx):
        import random
        w = sc["w"]
        T.put(ctx, w)
        if sc["cmd"] in ("export-model", "import-model"):
            ref = T.reference(ctx, w, "learn", extra=[["nulls", "w"], ["ws", "f", w["config"]], ["nulls", "f"]])
            if ref.extra[0] != ref.extra[2]:
                ctx.probe("history left the finite numbers: not exportable")
                return
            plain = {"seed": 1, "strat": 0}
            r = ctx.reml("prep", T.argv(w, {"threads": 0, "quiet": True, "preds": False}, model="in.bin"), plain)
            if r.rc != 0:
                raise Violation("fault_free_failed", "train: %s %s" % (r.how(), T.tail(r)))
            if sc["cmd"] == "import-model":
                r = ctx.reml("prep2", ["export-model", "in.bin"], plain)
                if r.rc != 0:
                    raise Violation("fault_free_failed", "export-model: %s %s" % (r.how(), T.tail(r)))
                ctx.write("in.json", r.stdout)
        dig = T.Digests(ctx)
        sim = sc["sims"]["v0"]
        base = {k: x for k, x in sim.items() if k not in ("script", "devs", "rules")}
        self.clean(sc, ctx)
        r0 = ctx.reml("base", self.argv(sc), dict(base, trace=1))
        if r0.outcome != S.OUT_EXITED or r0.rc != 0:
            raise Violation("fault_free_failed", "%s without any fault: %s %s" % (sc["cmd"], r0.how(), T.tail(r0)), "base")
        want = self.outputs(sc, ctx, r0)
        if sc["cmd"] == "train":
            if sc["v"]["preds"] and (want[T.PREDS] or b"").count(b"\n") != len(w["chunks"]):
                raise Violation("incomplete_without_fault", "%d prediction lines for %d examples" % ((want[T.PREDS] or b"").count(b"\n"), len(w["chunks"])), "base")
        wm = dig.of(want[T.MODEL])[:2] if want[T.MODEL] and (sc["cmd"] == "import-model" or sc["v"]["model"]) and sc["cmd"] in ("train", "import-model") else None
        outs = [o for o in IO.ops(r0) if o[1] in "wsnO"]
        if "script" in sim or "devs" in sim or "rules" in sim:
            trials = [(sim, sim.get("hard", True))]
        else:
            trials = []
            for seed, soft in sc["picks"]:
                rng = random.Random(seed)
                if soft:
                    trials.append((dict(base, hard=False, rules=[["*", k, rng.choice([.05, .3, .7])] for k in ("write_short", "write_eintr", "open_eintr", "read_short") if rng.random() < .7]), False))
                    continue
                if not outs:
                    continue
                name = rng.choice(sorted({o[2] for o in outs}))
                mine = [o for o in outs if o[2] == name]
                o = mine[-1] if rng.random() < .5 else rng.choice(mine)
                trials.append((dict(base, hard=True, devs=[IO.dev(rng, o[0], o[1])]), True))
        for s, hard in trials:
            if s is not sim:
                sc["sims"]["v0"] = s
            self.clean(sc, ctx)
            r = ctx.reml("v0", self.argv(sc), s)
            what = "%s, faults %s" % (sc["cmd"], json.dumps(r.faults))
            if r.hung():
                raise Violation("hang", "%s: %s" % (what, r.how()), "v0")
            ok = r.outcome == S.OUT_EXITED and r.rc == 0
            if not hard and not ok:
                raise Violation("absorbable_fault_failed", "%s: %s %s" % (what, r.how(), T.tail(r)), "v0")
            if not ok:
                ctx.probe("reported: " + sc["cmd"])
                continue
            ctx.probe("succeeded under faults: " + sc["cmd"])
            got = self.outputs(sc, ctx, r)
            for n in want:
                if n == T.MODEL and wm is not None:
                    if got[n] != want[n] and (not got[n] or dig.of(got[n])[:2] != wm):
                        raise Violation("truncated_model", "%s: success is reported, but the model file (%s bytes, complete: %d) is not complete" % (what, got[n] and len(got[n]), len(want[n])), "v0")
                elif got[n] != want[n]:
                    raise Violation("truncated_" + n.strip("<>").replace(".txt", ""), "%s: success is reported, but %s has %s bytes, not the complete %s" % (what, n, got[n] is not None and len(got[n]), want[n] is not None and len(want[n])), "v0")
            del sc["sims"]["v0"]
            sc["sims"]["v0"] = sim
        sc["sims"]["v0"] = sim

    def shrinks(self, sc):
        yield from T.w_shrinks(sc)


PROP = C04()
