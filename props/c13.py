"""C13: reported predictions are progressive; predict-then-learn is predict followed by learn."""
import json
from vlib import gen, sim as S, train as T
from vlib.core import Prop, Violation, list_shrinks


class C13(Prop):
    id = "C13"
    rule = ("A scenario is either a seeded history executed on three library workspaces: one uses predict-then-learn, one predict followed by learn, and one learns only, with operations "
            "on fresh or reused feature objects, predictions of other examples in between, and restarts; or a real `reml train` run under a seeded schedule, whose predictions file must hold what "
            "separate predict and learn calls on a sequential library workspace give. Non-trivial: at least two examples; distinct by scenario and schedule hash.")
    quick_n = 11000
    thorough_n = 120000

    def scenario(self, rng, tier, i):
        lib = rng.random() < .5
        n = rng.choice([1, 2, 3, 5, 8, 16, 30])
        w = gen.maybe_big(rng, gen.workload(rng, n, n, binary=lib), .05, size=.4 if lib else 1)
        if not lib and rng.random() < .0015:
            w = gen.huge_workload(rng)
        n = len(w["chunks"])
        if lib:
            ev = []
            for k in range(n):
                ev.append(["ex", k, rng.random() < .5])
                if rng.random() < .2:
                    ev.append(["peek", rng.randrange(n)])
                if rng.random() < .05:
                    ev.append(["again", rng.randrange(k + 1)])
                if rng.random() < .05:
                    ev.append(["restart"])
            return {"mode": "lib", "w": w, "events": ev}
        vs, sims = [], {}
        for k in range(1 if w.get("big") == "huge" else 3):
            v = T.variant(rng)
            if w.get("big") == "huge":
                v.update(progress=None)
            v["metrics"] = T.metrics_for(w["kind"], w["meta"], rng)
            v["sim"] = "v%d" % k
            sims[v["sim"]] = gen.sched(rng, *gen.est(w))
            vs.append(v)
        return {"mode": "cli", "w": w, "variants": vs, "sims": sims}

    def execute(self, sc, ctx):
        w = sc["w"]
        if sc["mode"] == "cli":
            ref = T.reference(ctx, w)
            T.put(ctx, w)
            for v in sc["variants"]:
                ctx.rm(T.PREDS)
                r = ctx.reml(v["sim"], T.argv(w, v), sc["sims"][v["sim"]])
                if r.outcome != S.OUT_EXITED or r.rc != 0:
                    raise Violation("failed", "training %d well-formed examples with %s: %s %s" % (len(w["chunks"]), T.describe(v), r.how(), T.tail(r)), v["sim"])
                d = T.same_preds(ctx.read(T.PREDS), ref.jsons)
                if d:
                    raise Violation("not_progressive", "with %s: %s" % (T.describe(v), d), v["sim"])
            return
        tx = T.texts(w)
        g = w["config"]["globalConfig"]
        pa = [w["format"], w["kind"], g.get("hashSeed", 0), g.get("numBits", 18)]
        ops, chk = [["ws", x, w["config"]] for x in "abc"], []
        kept = {}
        for e in sc["events"]:
            if e[0] == "restart":
                for x in "abc":
                    ops += [["save", x, "buf"], ["load", x, "buf"]]
                continue
            k = e[1]
            if k >= len(tx):
                continue
            if e[0] == "again":
                if k not in kept:
                    continue
            else:
                for x in "abc":
                    ops.append(["parsefresh", "%s%d" % (x, k), *pa, tx[k]])
                kept[k] = 1
            s = {x: "%s%d" % (x, k) for x in "abc"}
            if e[0] == "peek":
                ops += [["predict", "a", s["a"]], ["predict", "b", s["b"]], ["predict", "c", s["c"]]]
                chk.append((len(ops) - 3, 3, "prediction of example %d between learning steps" % k))
                continue
            i = len(ops)
            lend = ["ref"] if len(tx[k]) % 2 else []
            ops += [["pl", "a", s["a"]], ["predict", "b", s["b"]] + lend]
            chk.append((i, 2, "predict-then-learn and predict of example %d" % k))
            ops += [["learn", "b", s["b"]] + lend, ["learn", "c", s["c"]]]
            ops += [["state", x] for x in "abc"]
            chk.append((len(ops) - 3, 3, "models after example %d (predict-then-learn, predict and learn, learn)" % k))
        _, res = ctx.core("run", {"setup": ops, "threads": [], "final": []})
        log = res["setup"]
        if log[0] != "ok":
            raise Violation("config", "valid configuration rejected: %r" % log[0])
        if len(tx) > 1:
            ctx.mark(json.dumps(sc))
        for i, n, what in chk:
            for j in range(n):
                if isinstance(log[i + j], list) and log[i + j][0] == "panic":
                    raise Violation("panic", "%s: %s" % (what, log[i + j][1]), "run")
                if log[i + j] != log[i]:
                    raise Violation("differs", "%s: %s" % (what, [str(x)[:150] for x in log[i:i + n]]), "run")

    def shrinks(self, sc):
        if sc["mode"] == "lib":
            for ev in list_shrinks(sc["events"]):
                yield dict(sc, events=ev)
        else:
            yield from T.variant_shrinks(sc)
            yield from T.w_shrinks(sc)


PROP = C13()
