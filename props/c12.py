"""C12: observability options do not change the outcome."""
import json
from vlib import gen, sim as S, train as T
from vlib.core import Prop, Violation

PROGRESS = [None, None, "+1", "*2", "+0", "*0", "*1", "*1.5", "*0.5", "5", "+1000", "*1000", "+4294967295", "*1e30", "0", "*nan", "*-2", "*inf", "*-inf", "*-0", "+1000000000"]


class C12(Prop):
    id = "C12"
    rule = ("A scenario is one data set (well-formed, empty, or with an unusable example) trained by the real `reml train` under several combinations of --quiet, --progress (including "
            "extreme periods), --metrics and --predictions, each with its own thread count and seeded schedule. All runs must agree on success or failure, saved model and predictions file, and "
            "these must be those of sequential library training. Non-trivial: a context switch or fault occurred; distinct by options and schedule hash.")
    quick_n = 5000
    thorough_n = 40000

    def scenario(self, rng, tier, i):
        n = rng.choice([0, 1, 2, 3, 5, 8, 12, 20, 40])
        w = gen.maybe_big(rng, gen.workload(rng, n, n), .05)
        if rng.random() < .0012:
            w = gen.huge_workload(rng)
        n = len(w["chunks"])
        bad = None
        if n and rng.random() < .18:
            b, bad = gen.bad_example(rng, w["format"], w["kind"], w["meta"])
            w["chunks"].insert(rng.randrange(n + 1), {"hex": b.hex()})
        vs, sims = [], {}
        for k in range(2 if w.get("big") == "huge" else 3 if w.get("big") else rng.choice([4, 6, 8])):
            v = T.variant(rng)
            v["quiet"] = rng.random() < .4
            v["progress"] = rng.choice(PROGRESS if w.get("big") != "huge" else ["*2", "*1.3", "+20000", "+32768", None])
            v["preds"] = rng.random() < .5
            v["metrics"] = T.metrics_for(w["kind"], w["meta"], rng)
            if v["metrics"] and rng.random() < .1:
                v["metrics"] = v["metrics"] * 2
            v["sim"] = "v%d" % k
            sims[v["sim"]] = gen.sched(rng, *gen.est(w))
            vs.append(v)
        return {"w": w, "bad": bad, "variants": vs, "sims": sims}

    def execute(self, sc, ctx):
        w = sc["w"]
        T.put(ctx, w)
        bad = sc["bad"] is not None and any(not isinstance(c, str) for c in w["chunks"])
        ref = None if bad else T.reference(ctx, w, "pl")
        dig = T.Digests(ctx)
        outcomes, models, preds = {}, {}, {}
        for v in sc["variants"]:
            ctx.rm(T.MODEL)
            ctx.rm(T.PREDS)
            r = ctx.reml(v["sim"], T.argv(w, v), sc["sims"][v["sim"]])
            name = json.dumps({k: v[k] for k in ("quiet", "progress", "preds", "metrics", "threads")})
            if r.hung():
                raise Violation("hang", "with %s: %s" % (name, r.how()), v["sim"])
            ok = r.outcome == S.OUT_EXITED and r.rc == 0
            m = ctx.read(T.MODEL)
            if ref is not None:
                if not ok:
                    raise Violation("failed", "training %d well-formed examples with options %s: %s %s" % (len(w["chunks"]), name, r.how(), T.tail(r)), v["sim"])
                if not T.is_model(dig, m, ref.state):
                    raise Violation("model", "with options %s the saved model differs from the one sequential training gives" % name, v["sim"])
                if v["preds"]:
                    d = T.same_preds(ctx.read(T.PREDS), ref.jsons)
                    if d:
                        raise Violation("predictions", "with options %s: %s" % (name, d), v["sim"])
                if not w["chunks"]:
                    ctx.probe("empty data set")
            else:
                outcomes.setdefault(ok, name)
                if len(outcomes) > 1:
                    raise Violation("outcome", "the same data (%s) is trained successfully with options %s but fails with %s" % (sc["bad"], outcomes[True], outcomes[False]), v["sim"])
                models.setdefault(dig.of(m)[1] if m is not None else None, name)
                if len(models) > 1:
                    raise Violation("model", "the same data (%s) gives different saved models with options %s" % (sc["bad"], " and ".join(models.values())), v["sim"])
                ctx.probe("unusable data set, all runs %s" % ("succeed" if ok else "fail"))

    def shrinks(self, sc):
        from vlib.core import chunk_shrinks
        vs = sc["variants"]
        if len(vs) > 1:
            for i, v in enumerate(vs):
                yield dict(sc, variants=[v], sims={v["sim"]: sc["sims"][v["sim"]]})
            for i in range(len(vs)):
                if len(vs) > 2:
                    yield dict(sc, variants=vs[:i] + vs[i + 1:])
        for w in chunk_shrinks(sc["w"]):
            yield dict(sc, w=w)


PROP = C12()
