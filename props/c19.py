"""C19: the memory of training is bounded by the queue, not by the data."""
from vlib import gen, sim as S, train as T
from vlib.core import Prop, Violation, list_shrinks


def word(rng, n):
    return "".join(rng.choice("abcdefghijkmnopqrstuvwxyz") for _ in range(n))


def lines(rng, fmt, kind, n, long):
    """n examples with names that do not occur twice; long: bytes of the first name"""
    out = []
    for k in range(n):
        big = word(rng, 40) * (long // 40) if long else ""
        f = "%s%d" % (big, k)
        y = rng.randrange(2)
        if kind == "simple":
            out.append("%d |a %s x y%d" % (y, f, k % 7) if fmt == "vw-text" else gen.dumps({"label": y, "features": {"a": {f: 1, "x": 1}, "b%d" % (k % 5): {"y": 2}}}))
        elif fmt == "vw-text":
            out.append("shared |s %s\n0:%d:0.5 |a x%d\n|a y" % (f, y, k))
        elif fmt == "json":
            out.append(gen.dumps({"label": {"action": 0, "cost": y, "probability": 0.5}, "shared": {"s": {f: 1}}, "actions": [{"a": {"x%d" % k: 1}}, {"a": {"y": 1}}]}))
        else:
            out.append(gen.dumps({"_label_cost": y, "_label_probability": 0.5, "_labelIndex": 0, "_label_Action": 1, "a": [1, 2], "p": [0.5, 0.5], "c": {"s": {f: 1}, "_multi": [{"a": {"x%d" % k: 1}}, {"a": {"y": 1}}]}}))
    return out


class C19(Prop):
    id = "C19"
    rule = ("A scenario is a data file trained by the real `reml train` under seeded schedules, most of which starve one thread (a slow learner, a slow reader, a slow parser), with small queues and the live "
            "heap of the simulated process accounted at every allocation. `fat`: examples of some kilobytes, the peak must stay within what a sequential run needs plus what the queues may hold. `long`: "
            "thousands of tiny examples, the peak must be that of the first tenth of them up to a constant. `lib`: the same for a stream of examples through one workspace, parser and pool of the library. "
            "Non-trivial: a context switch or fault occurred; distinct by schedule hash.")
    quick_n = 1400
    thorough_n = 30000
    assumptions = ["Memory is what the process obtained from the allocator and has not returned; thread stacks and the page cache are not counted.",
                   "Tables of progress rows grow with the rows asked for; periods that give a row per example are left out."]

    def scenario(self, rng, tier, i):
        mode = rng.choice(["fat"] * 5 + ["long"] * 2 + ["lib"])
        kind = rng.choice(["simple", "cb"])
        fmt = rng.choice(["vw-text", "json"] if kind == "simple" else ["vw-text", "json", "dsjson"])
        c, m = gen.config(rng, kind, rng.choice(["Greedy", "Softmax", "SquareCb", "none"]) if kind == "cb" else None, False, rng.choice([4, 6]))
        c["globalConfig"].pop("interactions", None)
        sc = {"mode": mode, "config": c, "meta": m, "format": fmt, "kind": kind, "dseed": rng.getrandbits(32), "sims": {}}
        if mode == "lib":
            sc.update(n=rng.choice([100, 200]), times=rng.choice([10, 20]), op=rng.choice(["predict", "learn", "pl", "pl"]), metrics=T.metrics_for(kind, m, rng))
            return sc
        if mode == "fat":
            sc.update(n=rng.choice([60, 100, 150]), bytes=rng.choice([2000, 3000, 5000]))
        else:
            sc.update(n=rng.choice([300, 400]), times=rng.choice([10, 12]), bytes=0)
        vs = []
        for k in range(4 if mode == "fat" else 2):
            v = T.variant(rng, threads=[1, 1, 2, 3, 4])
            v["queue"] = rng.choice([0, 1, 1, 2, 3, 5] if mode == "fat" else [0, 0, 1, 1, 2, 5])
            v["progress"] = rng.choice([None, "*2", "+1000", "*10"])
            v["preds"] = rng.random() < .5
            v["metrics"] = T.metrics_for(kind, m, rng)
            v["sim"] = "v%d" % k
            steps = 40000 + (sc["n"] * sc.get("times", 1)) * (6000 + 60 * sc["bytes"])
            s = gen.sched(rng, steps, 300 + 120 * sc["n"], [1, 2, 3, 3, 5, 5, 5, 5])
            if s["strat"] == 5 and rng.random() < .6:
                # one thread makes no progress for most of the run, unless it is the only one that can
                s["stall"] = [rng.choice([0, 0, 0, 1, 2]), rng.randrange(steps // 4 + 1), steps]
            s["max_steps"] = 400000000 + 200 * steps
            s["fair_after"] = 6 * steps + 6000000
            sc["sims"][v["sim"]] = s
            vs.append(v)
        sc["variants"] = vs
        return sc

    def run(self, ctx, w, v, name, sim):
        ctx.rm(T.MODEL)
        ctx.rm(T.PREDS)
        r = ctx.reml(name, T.argv(w, v), sim)
        if r.outcome != S.OUT_EXITED or r.rc != 0:
            raise Violation("failed", "training %d well-formed examples with %s: %s %s" % (len(w["chunks"]), T.describe(v), r.how(), T.tail(r)), name)
        return r.mem

    def execute(self, sc, ctx):
        import random
        if sc["mode"] == "lib":
            return self.library(sc, ctx)
        n = sc["n"] * sc.get("times", 1)
        L = lines(random.Random(sc["dseed"]), sc["format"], sc["kind"], n, sc["bytes"])
        w = {"config": sc["config"], "format": sc["format"], "kind": sc["kind"], "chunks": L, "final_newline": True}
        one = max(len(x) for x in L)
        if sc["mode"] == "fat":
            T.put(ctx, w)
            base = self.run(ctx, w, {"threads": 0, "quiet": False, "preds": True, "metrics": []}, "base", {"seed": 1, "strat": 0, "max_steps": 10**10})
            for v in sc["variants"]:
                m = self.run(ctx, w, v, v["sim"], sc["sims"][v["sim"]])
                # what two queues and the threads may hold, with room for growing buffers
                held = 2 * v["queue"] + 2 * v["threads"] + 8
                bound = base + 32768 + 8192 * v["threads"] + held * (2 * one + 3000)
                ctx.probe("peaks compared with the bound of the queue")
                if bound < base + n * one // 2:
                    ctx.probe("bounds below half of the data")
                if m > bound:
                    raise Violation("queue", "%d examples of %d bytes with %s: %d bytes of memory at the peak, a sequential run needs %d and the queues may hold %d examples" % (
                        n, one, T.describe(v), m, base, held), v["sim"])
            return
        for v in sc["variants"]:
            s = sc["sims"][v["sim"]]
            T.put(ctx, dict(w, chunks=L[:sc["n"]]))
            a = self.run(ctx, w, v, "short", s)
            T.put(ctx, w)
            b = self.run(ctx, w, v, v["sim"], s)
            ctx.probe("long and short runs compared")
            # which examples are held at once differs from run to run, and the short run may not have seen the worst
            held = 2 * v["queue"] + 2 * v["threads"]
            if b > a + SLACK + 2500 * held:
                raise Violation("length", "%d examples with %s: %d bytes of memory at the peak, %d for the first %d of them" % (n, T.describe(v), b, a, sc["n"]), v["sim"])

    def library(self, sc, ctx):
        import random
        g = sc["config"]["globalConfig"]
        rng = random.Random(sc["dseed"])
        t = lines(rng, sc["format"], sc["kind"], 2, 0)[1]
        t = t.replace("x1", "x@").replace("|a 1 ", "|a n@ ").replace("|s 1", "|s n@").replace('"1":', '"n@":')
        mem = []
        for n in (sc["n"], sc["n"] * sc["times"]):
            setup = [["pool", "p"], ["parser", "q", sc["format"], sc["kind"], g.get("hashSeed", 0), g.get("numBits", 18), "p"], ["ws", "w", sc["config"]],
                     ["stream", "w", "q", [t], sc["op"], n, sc["metrics"]]]
            r, res = ctx.core("stream%d" % n, {"setup": setup, "threads": [], "final": []})
            if res["setup"][-1] != n - 1:
                raise Violation("library", "a stream of %d examples like %s: %s" % (n, t, res["setup"][-1]))
            mem.append(r.mem)
        ctx.probe("library streams compared")
        ctx.mark("lib", sc["dseed"])
        if mem[1] > mem[0] + 1500:
            raise Violation("library_length", "%s of %d examples like %s in one workspace: %d bytes of memory at the peak, %d after the first %d" % (sc["op"], n, t, mem[1], mem[0], sc["n"]))

    def shrinks(self, sc):
        if sc["mode"] != "lib":
            yield from T.variant_shrinks(sc)


SLACK = 8000
PROP = C19()
