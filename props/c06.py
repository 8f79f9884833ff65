"""C06: checkpoint and restart is invisible to learning.  C07 (JSON export and import) shares the machinery."""
import json
from vlib import gen, sim as S, train as T
from vlib.core import Prop, Violation, list_shrinks


class C06(Prop):
    id = "C06"
    json_mode = False
    rule = ("A scenario is a client history: seeded predict/learn/predict-then-learn calls on generated examples with checkpoint-and-restart events (save, discard, load, possibly several "
            "times in a row, at seeded points including before the first and after the last example) on one workspace and none on its twin; or the same data trained by the real `reml train` in "
            "segments that restart from the saved model, with crashes at seeded scheduler steps and retries. Non-trivial: at least one restart; distinct by scenario.")
    quick_n = 9000
    thorough_n = 120000

    def restart(self, rng):
        return ["bin"] * rng.choice([1, 1, 1, 2, 3])

    def scenario(self, rng, tier, i):
        n = rng.choice([0, 1, 2, 4, 8, 16, 30])
        lib = rng.random() < .72
        if not self.json_mode and i in (3, 4) or tier == "thorough" and i < 8:
            return self.huge(rng)
        w = gen.maybe_big(rng, gen.workload(rng, n, n, binary=lib), .04, size=.3 if lib else 1, kinds=("many", "actions", "bits"))
        if self.json_mode and w["config"]["globalConfig"].get("numBits", 18) > 18:
            w["config"]["globalConfig"]["numBits"] = 17  # an export visits the whole table
        n = len(w["chunks"])
        if lib:
            ev = []
            for k in range(n + 1):
                if rng.random() < rng.choice([.1, .3, .9]):
                    ev.append(["restart", self.restart(rng)])
                if rng.random() < .15:
                    ev.append(["checkpoint_only"])
                if k < n:
                    ev.append([rng.choice(["pl", "pl", "learn", "both", "predict"]), k])
            if not any(e[0] == "restart" for e in ev):
                ev.insert(rng.randrange(len(ev) + 1), ["restart", self.restart(rng)])
            if n and rng.random() < .012:
                # a long life: beyond every small counter
                k, m = gen.many(rng, w["config"], w["chunks"])
                ev.insert(rng.randrange(len(ev) + 1), ["many", k, rng.choice(["learn", "pl"]), m])
            if n:
                for k in range(rng.choice([1, 3])):
                    ev.append(["predict", rng.randrange(n)])
            return {"mode": "lib", "w": w, "events": ev}
        k = rng.choice([1, 2, 3, 4])
        cuts = sorted(rng.randrange(n + 1) for _ in range(k))
        segs = []
        sims = {}
        for j in range(k + 1):
            v = T.variant(rng, threads=[0, 0, 1, 2, 3])
            v["seed"] = rng.getrandbits(40)
            v["crashes"] = [rng.random() for _ in range(rng.choice([0, 0, 1, 2]))]
            v["restart"] = self.restart(rng)
            sims["s%d" % j] = gen.sched(rng, *gen.est(w))
            segs.append(v)
        return {"mode": "cli", "w": w, "cuts": cuts, "segs": segs, "sims": sims}

    def huge(self, rng):
        """weight tables in which positions exceed 2^24"""
        w = gen.workload(rng, 8, 14, binary=False)
        w["config"]["globalConfig"].update(numBits=rng.choice([22, 23]) if not self.json_mode else 21)
        ev = [["pl", k] for k in range(len(w["chunks"]))]
        ev.insert(rng.randrange(len(ev) // 2, len(ev) + 1), ["restart", self.restart(rng)[:1]])
        return {"mode": "lib", "w": w, "events": ev}

    def execute(self, sc, ctx):
        if sc["mode"] == "lib":
            try:
                self.lib(sc, ctx, True)
            except Violation as v:
                if v.cls not in ("diverged", "save_changes"):
                    raise
                self.lib(sc, ctx, False)  # representation aside: compare the states themselves
        else:
            self.cli(sc, ctx)

    # ---- library histories
    def restart_ops(self, ws, kinds):
        ops = []
        for k in kinds:
            if k == "bin":
                ops += [["save", ws, "buf"], ["load", ws, "buf"]]
            elif k == "json":
                ops += [["jsave", ws, "j"], ["jtext", "j"], ["jload", ws, "j"]]
            else:  # value, without going through text
                ops += [["jsave", ws, "j"], ["jload", ws, "j"]]
        return ops

    def lib(self, sc, ctx, fast):
        w = sc["w"]
        st = (lambda x: ["save", x, "st"]) if fast else (lambda x: ["state", x])
        tx = T.texts(w)
        g = w["config"]["globalConfig"]
        pargs = [w["format"], w["kind"], g.get("hashSeed", 0), g.get("numBits", 18)]
        ops = [["ws", "a", w["config"]], ["ws", "b", w["config"]], ["nulls", "a"]]
        chk = []  # (index in log, kind, what)
        for e in sc["events"]:
            if e[0] == "restart":
                chk.append((len(ops), "nulls", e))
                ops.append(["nulls", "b"])
                r = self.restart_ops("b", e[1])
                chk.append((len(ops), "restart", (e, len(r))))
                ops += r
            elif e[0] == "checkpoint_only":
                ops += [st("b"), ["save", "b", "x"], st("b"), ["save", "b", "x"]]
                chk.append((len(ops) - 4, "same02", "state changed by saving"))
                chk.append((len(ops) - 3, "same02", "two saves in a row differ"))
                if self.json_mode:
                    ops += [st("b"), ["jsave", "b", "x"], st("b")]
                    chk.append((len(ops) - 3, "same02", "state changed by exporting"))
            else:
                if e[1] >= len(tx):
                    continue
                for ws in "ab":
                    ops.append(["parsefresh", "s" + ws] + pargs + [tx[e[1]]])
                if e[0] == "many":
                    ops += [["repeat", "a", "sa", e[2], e[3]], ["repeat", "b", "sb", e[2], e[3]], st("a"), st("b")]
                    chk.append((len(ops) - 4, "pair", "%d times %s of example %d" % (e[3], e[2], e[1])))
                    chk.append((len(ops) - 2, "pair", "state after %d times %s of example %d" % (e[3], e[2], e[1])))
                    continue
                do = {"pl": ["pl"], "learn": ["learn"], "both": ["predict", "learn"], "predict": ["predict"]}[e[0]]
                for d in do:
                    ops += [[d, "a", "sa"], [d, "b", "sb"]]
                    chk.append((len(ops) - 2, "pair", "%s of example %d" % (d, e[1])))
                ops += [st("a"), st("b")]
                chk.append((len(ops) - 2, "pair", "state after %s of example %d" % (e[0], e[1])))
        ops += [["state", "a"], ["state", "b"], ["save", "a", "fa"], ["save", "b", "fb"]]
        chk.append((len(ops) - 4, "pair", "final state"))
        if fast:
            chk.append((len(ops) - 2, "pair", "final saved model"))
        _, res = ctx.core("run", {"setup": ops, "threads": [], "final": []})
        log = res["setup"]
        if log[0] != "ok":
            raise Violation("config", "valid configuration rejected: %r" % log[0])
        ctx.mark(json.dumps(sc))
        for i, kind, what in chk:
            if kind == "nulls":
                if log[i] != log[2] and self.json_mode:
                    ctx.probe("history left the finite numbers")
                    return
            elif kind == "restart":
                e, k = what
                for j in range(i, i + k):
                    x = log[j]
                    if isinstance(x, list) and x and x[0] == "panic" or isinstance(x, str) and x.startswith("err"):
                        raise Violation("restart_failed", "%s at event %s: %s" % (ops[j][0], json.dumps(e), x), "run")
                ctx.probe("restarts", len(e[1]))
            elif kind == "same02":
                if log[i] != log[i + 2]:
                    raise Violation("save_changes", "%s: %s -> %s" % (what, log[i], log[i + 2]), "run")
            else:
                for j in (i, i + 1):
                    if isinstance(log[j], list) and log[j] and log[j][0] == "panic" and not (isinstance(log[i], list) and log[i][0] == log[i + 1][0] == "panic"):
                        raise Violation("diverged", "%s: %s vs %s" % (what, log[i], log[i + 1]), "run")
                if log[i] != log[i + 1]:
                    raise Violation("diverged", "%s: without restart %s, with restart %s" % (what, str(log[i])[:200], str(log[i + 1])[:200]), "run")

    # ---- the CLI
    def reload(self, sc, ctx, v, j):
        """what happens to the model between segments"""
        return

    def cli(self, sc, ctx):
        w = sc["w"]
        n = len(w["chunks"])
        ref = T.reference(ctx, w, "pl", extra=[["nulls", "w"], ["ws", "f", w["config"]], ["nulls", "f"]])
        dig = T.Digests(ctx)
        T.put(ctx, w)
        bounds = [0] + [min(c, n) for c in sc["cuts"]] + [n]
        got = []
        nseg = 0
        for j, v in enumerate(sc["segs"]):
            a, b = bounds[j], bounds[j + 1]
            seg = dict(w, chunks=w["chunks"][a:b])
            ctx.write("seg", gen.data_bytes(seg))
            before = ctx.read(T.MODEL)
            im = T.MODEL if j else None
            sim = sc["sims"]["s%d" % j]
            done = False
            if v["crashes"] and "crash_step" not in sim and "script" not in sim:
                r = ctx.reml("size", T.argv(seg, v, data="seg", input_model=im, model="size.bin"), sim)
                for f in v["crashes"]:
                    k = max(1, int(f * r.steps)) if f < .6 else max(1, r.steps - int((f - .6) * 5000))
                    c = ctx.reml("crash%d" % j, T.argv(seg, v, data="seg", input_model=im), dict(sim, crash_step=k))
                    if c.outcome == S.OUT_CRASHED:
                        ctx.probe("crash during a segment")
                    m = ctx.read(T.MODEL)
                    if m != before:
                        done = True
                        ctx.probe("crash after the new model was in place")
                        break
            if not done:
                r = ctx.reml("s%d" % j, T.argv(seg, v, data="seg", input_model=im), sim)
                if r.outcome != S.OUT_EXITED or r.rc != 0:
                    raise Violation("segment_failed", "segment %d (examples %d..%d) restarted from the saved model: %s %s" % (j, a, b, r.how(), T.tail(r)), "s%d" % j)
            p = ctx.read(T.PREDS)
            if r.outcome == S.OUT_EXITED and not done:
                d = T.same_preds(p, ref.jsons[a:b])
                if d:
                    raise Violation("diverged", "segment %d (examples %d..%d) after restart from the saved model: %s" % (j, a, b, d), "s%d" % j)
            ctx.mark(json.dumps(sc), j)
            if self.reload(sc, ctx, v, j):
                return
        if not T.is_model(dig, ctx.read(T.MODEL), ref.state):
            raise Violation("diverged", "training in %d segments does not give the model of uninterrupted training" % len(sc["segs"]), "s0")

    def shrinks(self, sc):
        if sc["mode"] == "lib":
            for ev in list_shrinks(sc["events"]):
                yield dict(sc, events=ev)
            w = sc["w"]
            used = {e[1] for e in sc["events"] if e[0] in ("pl", "learn", "both", "predict")}
            if len(used) < len(w["chunks"]):
                m = {k: i for i, k in enumerate(sorted(used))}
                ev = [[e[0], m[e[1]]] if e[0] in ("pl", "learn", "both", "predict") else e for e in sc["events"] if e[0] not in ("pl", "learn", "both", "predict") or e[1] in m]
                yield dict(sc, events=ev, w=dict(w, chunks=[w["chunks"][k] for k in sorted(used) if k < len(w["chunks"])]))
        else:
            for j in range(len(sc["segs"]) - 1):
                yield dict(sc, cuts=sc["cuts"][:j] + sc["cuts"][j + 1:], segs=sc["segs"][:j + 1] + sc["segs"][j + 2:])
            for j, v in enumerate(sc["segs"]):
                if v["crashes"]:
                    yield dict(sc, segs=[dict(x, crashes=[]) if k == j else x for k, x in enumerate(sc["segs"])])
            yield from T.w_shrinks(sc)


PROP = C06()
