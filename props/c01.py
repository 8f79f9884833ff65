"""C01: parallel training gives exactly the sequential result."""
from vlib import gen, sim as S, train as T
from vlib.core import Prop, Violation


class C01(Prop):
    id = "C01"
    rule = ("A scenario is a generated configuration and data file (vw-text, json or dsjson) trained by the real `reml train` binary under several "
            "(parse threads 0..6 or default, queue size 0..512, scheduler strategy, seed) variants; a run is non-trivial if it had a context switch away from "
            "the default schedule or an injected fault, and distinct by the hash of its schedule.")
    quick_n = 3500
    thorough_n = 40000

    def scenario(self, rng, tier, i):
        w = gen.workload(rng, 1, 40 if rng.random() < .3 else 14)
        w = gen.maybe_big(rng, w)
        if rng.random() < .0018:  # past every 16-bit counter
            w = gen.huge_workload(rng)
        vs, sims = [], {}
        for k in range(2 if w.get("big") == "huge" else 4 if w.get("big") else 6):
            v = T.variant(rng)
            if rng.random() < .6 and not v["threads"]:
                v["threads"] = rng.choice([1, 2, 3])
            v["sim"] = "v%d" % k
            if w.get("big") == "huge":
                v.update(quiet=True, progress=None)
            s = gen.sched(rng, *gen.est(w))
            s["rules"] = gen.read_rules(rng) if rng.random() < .3 else []
            vs.append(v)
            sims[v["sim"]] = s
        return {"w": w, "variants": vs, "sims": sims}

    def execute(self, sc, ctx):
        w = sc["w"]
        ref = T.reference(ctx, w, "pl")
        dig = T.Digests(ctx)
        T.put(ctx, w)
        for v in sc["variants"]:
            ctx.rm(T.MODEL)
            ctx.rm(T.PREDS)
            r = ctx.reml(v["sim"], T.argv(w, v), sc["sims"][v["sim"]])
            if r.outcome != S.OUT_EXITED or r.rc != 0:
                raise Violation("train_failed", "training %d well-formed examples with %s: %s %s" % (len(w["chunks"]), T.describe(v), r.how(), T.tail(r)), v["sim"])
            d = T.same_preds(ctx.read(T.PREDS), ref.jsons)
            if d:
                raise Violation("predictions_differ", "%s: %s" % (T.describe(v), d), v["sim"])
            if not T.is_model(dig, ctx.read(T.MODEL), ref.state):
                raise Violation("model_differs", "%s: the saved model is not the one sequential training gives" % T.describe(v), v["sim"])

    def shrinks(self, sc):
        yield from T.variant_shrinks(sc)
        yield from T.w_shrinks(sc)


PROP = C01()
