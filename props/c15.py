"""C15: predicting changes nothing and features survive every operation."""
import json
from vlib import gen, sim as S, train as T
from vlib.core import Prop, Violation, list_shrinks


class C15(Prop):
    id = "C15"
    need = {"coresim"}
    rule = ("A scenario is a seeded interleaving of clients that share one to three library workspaces and keep features objects (parsed into recycled storage) across calls: predict, learn, "
            "predict-then-learn, duplicated and delayed requests, the same object used with several workspaces, saves in between. After every call the object must equal what it was when "
            "parsed, and every workspace must stay identical to a twin that only executes the learning calls, each on newly parsed features. Non-trivial: at least one prediction between two learning "
            "calls or an object used twice; distinct by scenario.")
    real = ["reductionml-core"]
    quick_n = 10000
    thorough_n = 200000

    def scenario(self, rng, tier, i):
        kind = rng.choice(["simple", "cb", "cb"])
        fmt = rng.choice(["vw-text", "json"] if kind == "simple" else ["vw-text", "json", "dsjson"])
        ew = rng.random() < (.35 if kind == "simple" else .15)
        cfgs, meta = [], None
        for k in range(rng.choice([1, 1, 2, 3])):
            c, m = gen.config(rng, kind, None, ew, binary=True)
            if meta is None:
                meta = dict(m)
                g0 = c["globalConfig"]
            else:
                # clients parse once for all workspaces: same geometry
                g = c["globalConfig"]
                g["numBits"] = g0.get("numBits", 18)
                g.pop("hashSeed", None)
                if "hashSeed" in g0:
                    g["hashSeed"] = g0["hashSeed"]
                if m.get("cbType") == "mtr":
                    meta["mtr"] = True
            cfgs.append(c)
        if rng.random() < .2:  # labels from which there is nothing, or nothing finite, to learn
            meta["w0"] = True
            meta["p0"] = meta.get("cbType") == "mtr" and not any("Explore" in json.dumps(c) or '"ips"' in json.dumps(c) for c in cfgs)
        n = rng.choice([1, 2, 3, 5, 8])
        big = rng.random() < .04
        if big:
            for c in cfgs:
                c["globalConfig"].pop("interactions", None)
        tx = []
        for k in range(n):
            t = (gen.big_example if big and rng.random() < .4 else gen.example)(rng, fmt, kind, meta)
            tx.append("\n".join(x.rstrip() for x in t.split("\n")) if fmt == "vw-text" else t)
        ev = []
        for k in range(rng.choice([3, 8, 20, 50])):
            q = rng.random()
            w = rng.randrange(len(cfgs))
            x = rng.randrange(n)
            if q < .5:
                ev += [["predict", w, x] + rng.choice([[], ["ref"]])] * rng.choice([1, 1, 1, 2, 5])
            elif q < .72:
                ev.append(["learn", w, x] + rng.choice([[], ["ref"]]))
            elif q < .92:
                ev.append(["pl", w, x] + rng.choice([[], ["ref"]]))
            elif q < .96:
                ev.append(["save", w, x])
            else:
                ev.append(["recycle", w, x])
        if rng.random() < .012:
            k, m = gen.many(rng, cfgs, tx)
            ev.insert(rng.randrange(len(ev) + 1), ["many", rng.randrange(len(cfgs)), k, m])
        return {"kind": kind, "format": fmt, "cfgs": cfgs, "texts": tx, "events": ev}

    def execute(self, sc, ctx):
        g = sc["cfgs"][0]["globalConfig"]
        geo = [g.get("hashSeed", 0), g.get("numBits", 18)]
        setup = [["pool", "p"], ["parser", "P", sc["format"], sc["kind"], *geo, "p"]]
        ops, chk = list(setup), []
        nw = len(sc["cfgs"])
        for k, c in enumerate(sc["cfgs"]):
            ops += [["ws", "a%d" % k, c], ["ws", "b%d" % k, c]]
        snap0 = {}
        for k, t in enumerate(sc["texts"]):
            ops += [["parse", "s%d" % k, "P", t], ["snap", "s%d" % k], ["clone", "p%d" % k, "s%d" % k], ["label", "s%d" % k]]
            snap0[k] = len(ops) - 3
        seen = 0
        for e in sc["events"]:
            w, x = e[1], e[2]
            if w >= nw or x >= len(sc["texts"]):
                continue
            a, b, s = "a%d" % w, "b%d" % w, "s%d" % x
            if e[0] == "save":
                ops += [["save", a, "x"], ["jsave", a, "y"]]
                continue
            if e[0] == "recycle":
                ops += [["ret", s], ["parse", s, "P", sc["texts"][x]], ["snap", s]]
                chk.append((len(ops) - 1, snap0[x], "features parsed again after their object was returned"))
                continue
            seen += 1
            i = len(ops)
            ops += [["repeat", a, s, "predict", e[3]] if e[0] == "many" else [e[0], a, s] + e[3:], ["snap", s], ["eq", s, "p%d" % x], ["label", s], ["state", a]]
            what = "%s with workspace %d on example %d (event %d)" % (e[0], w, x, seen)
            chk.append((i + 1, snap0[x], "features after " + what))
            chk.append((i + 2, True, "features compare equal to a copy made before: " + what))
            chk.append((i + 3, snap0[x] + 2, "label after " + what))
            ops.append(["parsefresh", "f", sc["format"], sc["kind"], *geo, sc["texts"][x]])
            if e[0] in ("predict", "many"):
                ops += [["state", b], ["predict", b, "f"]]
                chk.append((i, len(ops) - 1, "prediction: " + what))
            else:
                ops += [[e[0], b, "f"], ["state", b]]
                if e[0] == "pl":
                    chk.append((i, len(ops) - 2, "prediction: " + what))
            st = len(ops) - 2 if e[0] in ("predict", "many") else len(ops) - 1
            chk.append((i + 4, st, "workspace after %s, against one that never predicted except to learn" % what))
        if sc["events"]:
            for k in range(nw):
                ops += [["save", "a%d" % k, "x"], ["load", "a%d" % k, "x"], ["state", "a%d" % k], ["state", "b%d" % k]]
                chk.append((len(ops) - 2, len(ops) - 1, "saved model of workspace %d" % k))
        # twin b predicts too, but on objects of its own and always after the state comparison; a third set of
        # workspaces that executes the learning calls alone
        for k, c in enumerate(sc["cfgs"]):
            ops.append(["ws", "c%d" % k, c])
        for e in sc["events"]:
            if e[0] in ("learn", "pl") and e[1] < nw and e[2] < len(sc["texts"]):
                ops += [["parsefresh", "f", sc["format"], sc["kind"], *geo, sc["texts"][e[2]]], ["learn", "c%d" % e[1], "f"]]
        for k in range(nw):
            ops += [["state", "c%d" % k], ["state", "b%d" % k]]
            chk.append((len(ops) - 2, len(ops) - 1, "workspace %d: learning alone, against learning with predictions in between" % k))
        _, res = ctx.core("run", {"setup": ops, "threads": [], "final": []})
        log = res["setup"]
        ctx.mark(json.dumps(sc))
        for i, (o, x) in enumerate(zip(ops, log)):
            if isinstance(x, list) and x and x[0] == "panic":
                if o[0] == "jsave" and "expected f32" in x[1]:
                    ctx.probe("export of a model with non-finite state refused")
                    continue
                raise Violation("panic", "%s: %s" % (json.dumps(o, ensure_ascii=False)[:200], x[1]), "run")
        for i, j, what in chk:
            y = True if j is True else log[j]
            if log[i] != y:
                raise Violation("changed", "%s: %s, expected %s" % (what, str(log[i])[:300], str(y)[:300]), "run")
        ctx.probe("calls checked", seen)

    def shrinks(self, sc):
        for ev in list_shrinks(sc["events"]):
            yield dict(sc, events=ev)
        if len(sc["cfgs"]) > 1:
            for k in range(1, len(sc["cfgs"])):
                yield dict(sc, cfgs=sc["cfgs"][:k] + sc["cfgs"][k + 1:])
        for k in range(len(sc["texts"]) - 1, 0, -1):
            yield dict(sc, texts=sc["texts"][:k])


PROP = C15()
