"""C09: recycled feature objects behave exactly like new ones."""
import json
from vlib import gen, sim as S, train as T
from vlib.core import Prop, Violation, list_shrinks

FMT = {"simple": ["vw-text", "json"], "cb": ["vw-text", "json", "dsjson"]}


class C09(Prop):
    id = "C09"
    rule = ("A scenario is one to three threads of clients that share one pool of feature objects and several parsers (formats, label types, hash seeds and sizes differ): parse valid and "
            "malformed examples, predict, learn, hold, clone, return or drop the objects in a seeded order under a seeded schedule. Every parse has a twin into fresh objects; features, "
            "equality, namespaces, predictions and learning are compared. Non-trivial: at least one object was recycled; distinct by scenario (and schedule hash).")
    quick_n = 4200
    thorough_n = 120000

    def scenario(self, rng, tier, i):
        explore = rng.choice(["none", "none", "Greedy", "SquareCb"])
        cfgs = {}
        for kind in ("simple", "cb"):
            # elementwise products and interactions exercise the features objects most
            c, m = gen.config(rng, kind, explore if kind == "cb" else None, rng.random() < (.25 if kind == "simple" else .12), binary=True)
            cfgs[kind] = {"config": c, "meta": m}
        if not cfgs["simple"]["meta"].get("ew"):
            # one parser geometry for both kinds, so that recycled namespaces meet again
            if rng.random() < .7:
                cfgs["simple"]["config"]["globalConfig"] = dict(cfgs["cb"]["config"]["globalConfig"])
        big = rng.random() < .06
        for c in cfgs.values():
            if big:
                c["config"]["globalConfig"].pop("interactions", None)
        threads = []
        for t in range(rng.choice([1, 1, 1, 2, 3])):
            acts, held = [], 0
            for k in range(rng.choice([4, 10, 25, 50])):
                kind = rng.choice(["simple", "cb"])
                fmt = rng.choice(FMT[kind])
                if rng.random() < .12:
                    b, why = gen.bad_example(rng, fmt, kind, cfgs[kind]["meta"])
                    try:
                        acts.append(["bad", kind, fmt, b.decode().rstrip()])
                    except UnicodeDecodeError:
                        pass
                    continue
                tx = (gen.big_example if big and rng.random() < .2 else gen.example)(rng, fmt, kind, cfgs[kind]["meta"])
                if fmt == "vw-text":
                    tx = "\n".join(x.rstrip() for x in tx.split("\n"))
                use = [rng.choice(["predict", "learn", "pl", "clone"]) for _ in range(rng.choice([0, 1, 1, 2]))]
                fate = rng.choice(["ret", "ret", "ret", "ret", "hold", "drop"])
                acts.append(["ex", kind, fmt, tx, use, fate])
                if rng.random() < .3:
                    acts.append(["release"])
            threads.append(acts)
        return {"cfgs": cfgs, "threads": threads, "sims": {"run": gen.sched(rng, 300000, 3000) if len(threads) > 1 else {"seed": 1, "strat": 0}}}

    def execute(self, sc, ctx):
        setup = [["pool", "p"]]
        geo = {}
        for kind, c in sc["cfgs"].items():
            g = c["config"]["globalConfig"]
            geo[kind] = [g.get("hashSeed", 0), g.get("numBits", 18)]
            for f in FMT[kind]:
                setup.append(["parser", kind + f, f, kind] + geo[kind] + ["p"])
        progs, checks = [], []
        for acts in sc["threads"]:
            ops, chk, held = [], [], []
            for kind, c in sc["cfgs"].items():
                ops += [["ws", "a" + kind, c["config"]], ["ws", "b" + kind, c["config"]]]
            n = 0
            for a in acts:
                if a[0] == "release":
                    if held:
                        s = held.pop(0)
                        ops += [["snap", s], ["snap", s + "'"]]
                        chk.append((len(ops) - 2, "same", "features held since then"))
                        ops.append(["ret", s])
                    continue
                n += 1
                kind, fmt, tx = a[1], a[2], a[3]
                s = "s%d" % n
                ops += [["parse", s, kind + fmt, tx], ["parsefresh", s + "'", fmt, kind] + geo[kind] + [tx]]
                if a[0] == "bad":
                    chk.append((len(ops) - 2, "bad", tx))
                    ops += [["ret", s], ["drop", s + "'"]]
                    continue
                chk.append((len(ops) - 2, "parse", tx))
                ops += [["snap", s], ["snap", s + "'"]]
                chk.append((len(ops) - 2, "same", "features of %s" % tx))
                ops += [["nscount", s], ["nscount", s + "'"]]
                chk.append((len(ops) - 2, "same", "namespaces listed for %s" % tx))
                ops.append(["eq", s, s + "'"])
                chk.append((len(ops) - 1, "true", "recycled and fresh features of %s compare equal" % tx))
                for u in a[4]:
                    if u == "clone":
                        ops += [["clone", s + "c", s], ["snap", s + "c"], ["snap", s + "'"]]
                        chk.append((len(ops) - 2, "same", "clone of %s" % tx))
                        ops.append(["drop", s + "c"])
                        continue
                    ops += [[u, "a" + kind, s] + (["ref"] if len(tx) % 2 else []), [u, "b" + kind, s + "'"]]
                    chk.append((len(ops) - 2, "same", "%s on %s" % (u, tx)))
                if a[5] == "ret":
                    ops += [["ret", s], ["drop", s + "'"]]
                elif a[5] == "drop":
                    ops += [["drop", s], ["drop", s + "'"]]
                else:
                    held.append(s)
            for kind in sc["cfgs"]:
                ops += [["save", "a" + kind, "x"], ["save", "b" + kind, "x"]]
                chk.append((len(ops) - 2, "same", "models after the whole history"))
            progs.append(ops)
            checks.append(chk)
        job = {"setup": setup, "threads": progs, "final": [["poollen", "p"]]}
        r, res = ctx.core("run", job, sc["sims"]["run"])
        ctx.mark(json.dumps(sc["threads"]), r.hash)
        for t, (ops, chk, log) in enumerate(zip(progs, checks, res["threads"])):
            for i, kind, what in chk:
                what = what[:300]
                x, y = log[i], log[i + 1] if i + 1 < len(log) else None
                if kind == "true":
                    if x is not True:
                        raise Violation("unequal", "thread %d: %s" % (t, what), "run")
                    continue
                if kind == "bad":
                    sx, sy = (z[0] if isinstance(z, list) else z for z in (x, y))
                    if x[0] == "ok" and y[0] == "ok":
                        ctx.probe("malformed example was acceptable")
                    elif (x[0] == "ok") != (y[0] == "ok") or x != y:
                        raise Violation("error_differs", "thread %d: parsing %r: recycled %s, fresh %s" % (t, what, str(x)[:200], str(y)[:200]), "run")
                    continue
                if kind == "parse" and x[0] != "ok" and y[0] == "ok":
                    raise Violation("parse_failed", "thread %d: valid example %r fails on recycled objects: %s" % (t, what, x[1]), "run")
                if x != y:
                    raise Violation("features_differ" if "eatures" in what else "behaviour_differs", "thread %d: %s: recycled %s, fresh %s" % (t, what, str(x)[:300], str(y)[:300]), "run")
                if isinstance(x, list) and x and x[0] == "panic":
                    raise Violation("panic", "thread %d: %s: %s" % (t, what, x[1]), "run")
        if isinstance(res["final"][0], int):
            ctx.probe("objects recycled at the end", res["final"][0])

    def shrinks(self, sc):
        T_ = sc["threads"]
        if len(T_) > 1:
            for i in range(len(T_)):
                yield dict(sc, threads=T_[:i] + T_[i + 1:])
        for i, a in enumerate(T_):
            for b in list_shrinks(a):
                yield dict(sc, threads=T_[:i] + [b] + T_[i + 1:])


PROP = C09()
