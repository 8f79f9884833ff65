"""C03: a failure anywhere ends in a failing exit, never a hang or a saved model."""
import json, os
from vlib import gen, sim as S, train as T
from vlib.core import Prop, Violation

OLD = b"previous model bytes, to be left alone"


class C03(Prop):
    id = "C03"
    rule = ("A scenario is a generated data set, one failure (malformed or unlabelled example, or a label naming an action that is not there, at a seeded position, missing or directory data file, open or read "
            "error at a seeded operation, thread-creation failure at the k-th thread, allocation failure at the k-th large allocation, unknown or unsuitable metric, broken "
            "configuration or input model, an input model whose reading fails, predictions file that cannot be created) and several seeded executions of the real `reml train` with backlogs around the "
            "queue size. A run is non-trivial if it had a context switch or a fault; distinct by schedule hash.")
    quick_n = 7000
    thorough_n = 50000
    assumptions = ["A run that is asked to fail but can legitimately do without the failed resource may succeed if its outputs equal the complete reference result."]

    def scenario(self, rng, tier, i):
        n = rng.choice([1, 2, 3, 6, 10, 16, 30])
        w = gen.maybe_big(rng, gen.workload(rng, n, n, allow_ew=False), .05)
        if rng.random() < .0008:
            w = gen.huge_workload(rng)
        n = len(w["chunks"])
        kind = rng.choice(["bad"] * 8 + ["read_eio"] * 3 + ["thread"] * 3 + ["alloc"] * 2 + ["nodata", "dirdata", "open", "metric", "badmetric", "config", "nopreds", "badmodel", "model_eio", "model_eio"])
        if w.get("big") == "huge":
            kind = "bad"
        f = {"kind": kind}
        if kind == "bad":
            b, why = gen.bad_example(rng, w["format"], w["kind"], w["meta"])
            pos = rng.choice([0, n, n // 2, rng.randrange(n + 1)] if n < 60000 else [n, 65535, 65536, 65537])
            w["chunks"].insert(pos, {"hex": b.hex()})
            f["why"], f["pos"] = why, pos
            w["final_newline"] = True
            w["crlf"] = False
        vs, sims = [], {}
        for k in range(1 if w.get("big") == "huge" else 6):
            v = T.variant(rng, threads=[0, 1, 1, 2, 2, 3, 4, 8])
            v["queue"] = rng.choice([0, 1, 1, 2, 3, 8, 512])
            v["sim"] = "v%d" % k
            if w.get("big") == "huge":
                v.update(quiet=True, progress=None)
            v["preds"] = rng.random() < .5
            v["old"] = rng.random() < .6
            s = gen.sched(rng, *gen.est(w))
            s["rules"] = gen.read_rules(rng) if rng.random() < .2 else []
            if kind == "read_eio":
                s["rules"] = [["data", "read_eio", rng.choice([.1, .4, 1.0]), 0, rng.choice([5, 5, 116, 121])], ["data", "read_short", rng.choice([.5, 1.0])]]
            elif kind == "open":
                s["rules"] = [[rng.choice(["data", "cfg.json"]), "open_fail", 1.0, 0, rng.choice([24, 13, 5])]]
            elif kind == "thread":
                v["threads"] = rng.choice([1, 2, 3, 4, 8])
                k0 = rng.randrange(v["threads"] + 1)
                s["devs"] = [["C", j, 0, 0] for j in range(k0, k0 + rng.choice([1, 1, 3]))]
            elif kind == "alloc":
                v["alloc"] = rng.random()
                v["alloc_n"] = rng.choice([1, 1, 1, 3])
            elif kind in ("metric", "badmetric"):
                v["metrics"] = [rng.choice(["", "nope", "MSE", "parsed-features"])] if kind == "metric" else ["mse" if w["kind"] == "cb" else "ips"]
                if kind == "metric" and rng.random() < .5:
                    v["metrics"].insert(0, "parsed_features")
                if kind == "badmetric":
                    v["quiet"] = False
            elif kind == "nopreds":
                v["preds"] = True
            elif kind == "model_eio":
                s["rules"] = [["in.bin", "read_eio", rng.choice([.3, 1.0]), 0, rng.choice([5, 116])], ["in.bin", "read_short", rng.choice([.2, 1.0])]]
            vs.append(v)
            sims[v["sim"]] = s
        return {"w": w, "f": f, "variants": vs, "sims": sims}

    def execute(self, sc, ctx):
        w, f = sc["w"], sc["f"]
        kind = f["kind"]
        T.put(ctx, w)
        dig = T.Digests(ctx)
        ref = None
        good = [c for c in w["chunks"] if isinstance(c, str)]
        if kind == "bad":
            bad = [c for c in w["chunks"] if not isinstance(c, str)]
            if not bad:
                return
            if f["why"] not in ("badutf8", "badaction"):
                text = bytes.fromhex(bad[0]["hex"]).decode()
                lib = dict(w, chunks=[text])
                if T.reference(ctx, lib, "pl", must=False).entries is not None and f["why"] != "blankjson":
                    ctx.probe("bad example was acceptable")
                    return
        config, data, preds, input_model = T.CFG, T.DATA, T.PREDS, None
        if kind == "nodata":
            data = "absent"
        elif kind == "dirdata":
            data = "dir"
            os.mkdir(ctx.path("dir"))
        elif kind == "config":
            ctx.write(T.CFG, [b"", b"{", b'{"entryReduction": {"typename": "Nope"}}', b'{"globalConfig": {}}',
                              b'{"entryReduction": {"typename": "CbAdf", "config": {"regressor": {"typename": "CbAdf"}}}}'][len(good) % 5])
        elif kind == "nopreds":
            preds = "nodir/preds.txt"
        elif kind == "badmodel":
            ctx.write("in.bin", [b"", b"x", b"not a model at all" * 9, json.dumps(w["config"]).encode()][len(good) % 4])
            input_model = "in.bin"
        elif kind == "model_eio":
            r = ctx.reml("prep", T.argv(w, {"threads": 0, "quiet": True, "preds": False}, model="in.bin"), {"seed": 1, "strat": 0})
            if r.outcome != S.OUT_EXITED or r.rc != 0:
                raise Violation("failed_without_fault", "training: %s %s" % (r.how(), T.tail(r)), "prep")
            input_model = "in.bin"
        for v in sc["variants"]:
            sim = dict(sc["sims"][v["sim"]])
            if v["old"]:
                ctx.write(T.MODEL, OLD)
            else:
                ctx.rm(T.MODEL)
            ctx.rm(T.PREDS)
            if kind == "alloc" and "script" not in sim and not sim.get("devs"):
                # how many allocations a fault-free run makes, then fail one of them
                r0 = ctx.reml("sizing", T.argv(w, v), dict(sim, rules=[]))
                if r0.outcome != S.OUT_EXITED or r0.rc != 0 or not r0.allocs:
                    raise Violation("failed_without_fault", "%s: %s %s" % (T.describe(v), r0.how(), T.tail(r0)), "sizing")
                k0 = min(int(v["alloc"] * r0.allocs), r0.allocs - 1)
                sim["devs"] = [["M", j, 0, 0] for j in range(k0, k0 + v["alloc_n"])]
                sc["sims"][v["sim"]]["devs"] = sim["devs"]
                if v["old"]:
                    ctx.write(T.MODEL, OLD)
                else:
                    ctx.rm(T.MODEL)
                ctx.rm(T.PREDS)
            r = ctx.reml(v["sim"], T.argv(w, v, data=data, config=config, preds=preds, input_model=input_model), sim)
            what = "%s, %s" % (json.dumps(f), T.describe(v))
            if r.hung():
                raise Violation("hang_" + kind, "%s: %s" % (what, r.how()), v["sim"])
            injected = kind not in ("read_eio", "model_eio", "thread", "alloc", "open") or any(k in r.faults for k in ("read_eio", "thread_create_fail", "alloc_fail", "open_fail"))
            if not injected:
                ctx.probe("fault did not fire: " + kind)
                if r.rc != 0:
                    raise Violation("failed_without_fault", "%s: %s %s" % (what, r.how(), T.tail(r)), v["sim"])
                continue
            ctx.probe("failure injected: " + kind)
            m = ctx.read(T.MODEL)
            if r.outcome == S.OUT_EXITED and r.rc == 0:
                if kind in ("thread", "alloc"):
                    if ref is None:
                        ref = T.reference(ctx, w, "pl")
                    d = T.same_preds(ctx.read(T.PREDS), ref.jsons) if v["preds"] else None
                    if d is None and T.is_model(dig, m, ref.state):
                        ctx.probe("succeeded without the failed resource")
                        continue
                raise Violation("success_" + kind, "%s: the command reports success" % what, v["sim"])
            if r.rc == 0:
                raise Violation("abnormal_" + kind, "%s: %s" % (what, r.how()), v["sim"])
            if m != (OLD if v["old"] else None):
                if kind == "alloc":
                    if ref is None:
                        ref = T.reference(ctx, w, "pl")
                    if m is not None and T.is_model(dig, m, ref.state):
                        continue
                raise Violation("model_written_" + kind, "%s: exit status %d, but the output model was %s" % (what, r.rc, "created" if not v["old"] else "changed"), v["sim"])
            if kind == "bad" and r.rc > 0:
                ctx.probe("failed cleanly: " + f["why"])

    def shrinks(self, sc):
        yield from T.variant_shrinks(sc)
        w = sc["w"]
        n = len(w["chunks"])
        for k in (n, n // 2, n // 4, 1):
            if k < 1:
                continue
            for a in range(0, n, k):
                part = w["chunks"][a:a + k]
                rest = w["chunks"][:a] + [c for c in part if not isinstance(c, str)] + w["chunks"][a + k:]
                if len(rest) < n:
                    yield dict(sc, w=dict(w, chunks=rest))


PROP = C03()
