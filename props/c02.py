"""C02: training always finishes."""
from vlib import gen, sim as S, train as T
from vlib.core import Prop, Violation


class C02(Prop):
    id = "C02"
    rule = ("A scenario is a generated well-formed data set trained by the real `reml train` under several hostile simulated executions (PCT, random, one thread "
            "stalled for up to millions of steps, spurious futex wake-ups, interrupted and short reads, 1..8 simulated CPUs, queue sizes 0..512). A run is "
            "non-trivial if it had a context switch or a fault; distinct by schedule hash. A run fails if all threads wait (deadlock), if it exceeds its step "
            "bound under a schedule that is fair from a fixed step on, or if it does not succeed.")
    quick_n = 4000
    thorough_n = 40000
    need = {"reml"}
    assumptions = ["Liveness is judged as: success within 30 million scheduler steps, the scheduler being round-robin fair after 6 million (a normal run needs about 0.2 million)."]

    def scenario(self, rng, tier, i):
        n = rng.choice([1, 2, 3, 5, 8, 12, 20, 40]) if rng.random() < .95 else 0
        w = gen.maybe_big(rng, gen.workload(rng, n, n))
        if rng.random() < .0008:
            w = gen.huge_workload(rng)
        vs, sims = [], {}
        for k in range(1 if w.get("big") == "huge" else 4 if w.get("big") else 8):
            v = T.variant(rng, threads=[1, 1, 2, 2, 3, 4, 8, 12, 0, None])
            v["queue"] = rng.choice([0, 1, 1, 1, 2, 2, 3, 5, 16, 512])
            v["model"] = rng.random() < .7
            v["preds"] = rng.random() < .7
            v["metrics"] = T.metrics_for(w["kind"], w["meta"], rng)
            if w.get("big") == "huge":
                v.update(quiet=True, progress=None)
            v["sim"] = "v%d" % k
            s = gen.sched(rng, *gen.est(w), [1, 2, 2, 3, 3, 3, 4, 5, 5])
            if rng.random() < .4:
                s["spurious"] = rng.choice([.01, .1, .5])
            s["rules"] = gen.read_rules(rng)
            vs.append(v)
            sims[v["sim"]] = s
        return {"w": w, "variants": vs, "sims": sims}

    def execute(self, sc, ctx):
        w = sc["w"]
        T.put(ctx, w)
        for v in sc["variants"]:
            ctx.rm(T.MODEL)
            ctx.rm(T.PREDS)
            r = ctx.reml(v["sim"], T.argv(w, v), sc["sims"][v["sim"]])
            if r.hung():
                raise Violation("hang", "training %d well-formed examples with %s: %s" % (len(w["chunks"]), T.describe(v), r.how()), v["sim"])
            if r.outcome != S.OUT_EXITED or r.rc != 0:
                raise Violation("failed", "training %d well-formed examples with %s did not succeed: %s %s" % (len(w["chunks"]), T.describe(v), r.how(), T.tail(r)), v["sim"])
            if v["preds"]:
                k = (ctx.read(T.PREDS) or b"").count(b"\n")
                if k != len(w["chunks"]):
                    raise Violation("incomplete", "training ended with success after %d of %d examples (%s)" % (k, len(w["chunks"]), T.describe(v)), v["sim"])
            if v["model"] and not ctx.read(T.MODEL):
                raise Violation("incomplete", "training ended with success without a model (%s)" % T.describe(v), v["sim"])

    def shrinks(self, sc):
        yield from T.variant_shrinks(sc)
        yield from T.w_shrinks(sc)


PROP = C02()
