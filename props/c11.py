"""C11: independent workspaces and parsers do not influence each other."""
import copy, json
from vlib import gen, sim as S
from vlib.core import Prop, Violation, list_shrinks

FMT = {"simple": ["vw-text", "json"], "cb": ["vw-text", "json", "dsjson"]}
BADCFG = [{"globalConfig": {}, "entryReduction": {"typename": "Nope"}},
          {"globalConfig": {}, "entryReduction": {"typename": "CbExploreAdfSquareCb", "config": {"cbAdf": {"typename": "Coin"}}}},
          {"globalConfig": {}, "entryReduction": {"typename": "CbAdf", "config": {"regressor": {"typename": "CbAdf"}}}},
          {"globalConfig": {"numBits": 5}, "entryReduction": {"typename": "Coin", "config": {"alpha": "x"}}}]


class C11(Prop):
    id = "C11"
    need = {"coresim"}
    rule = ("A scenario is two to six threads of one process, each running its own seeded program: create workspaces from valid and invalid configurations, list reductions and generate the "
            "schema, parse through parsers shared by all threads (which share pools of feature objects), predict, learn, save, load, export. Each program's log must equal "
            "the log of the same program run alone in a process of its own, and no execution may deadlock. Non-trivial: a context switch occurred; distinct by schedule hash.")
    quick_n = 3600
    thorough_n = 60000

    def program(self, rng, geo, nparse, tier, family):
        ops, wss, n, k = [], [], 0, 0
        held = []

        def mk():
            nonlocal k
            kind = rng.choice(["simple", "cb"])
            c, m = gen.config(rng, kind, None, rng.random() < .13, binary=True)
            fam = [f for f in family if f[0] == kind]
            if fam and rng.random() < .4:
                # a relative of another workspace of the process: the same configuration but for one option
                _, c, m = copy.deepcopy(rng.choice(fam))
                g = c["globalConfig"]
                x = rng.choice(["hashSeed", "hashSeed", "numBits", "constantFeatureEnabled", "interactions", "none"])
                if x == "hashSeed":
                    g[x] = rng.choice([s for s in (0, 1, 99) if s != g.get(x, 0)])
                elif x == "numBits":
                    g[x] = rng.choice([5, 6, 7, 9])
                elif x == "constantFeatureEnabled":
                    g[x] = not g.get(x, True)
                elif x == "interactions":
                    g[x] = gen.interactions(rng, gen.NSS)
                m["own_parser"] = True
            elif m.get("ew"):
                m["own_parser"] = True
            else:
                g = geo[kind]
                c["globalConfig"]["numBits"] = g[1]
                c["globalConfig"].pop("hashSeed", None)
                if g[0]:
                    c["globalConfig"]["hashSeed"] = g[0]
            if not m.get("ew"):
                family.append((kind, c, m))
            k += 1
            ops.append(["ws", "w%d" % k, c])
            wss.append(("w%d" % k, kind, m))
        mk()
        for _ in range(nparse):
            q = rng.random()
            if q < .1:
                ops.append(["ws", "bad", rng.choice(BADCFG)])
            elif q < .2:
                mk()
            elif q < .23:
                ops.append([rng.choice(["schema", "defaults"])])
            elif q < .3:
                w = rng.choice(wss)
                ops += [["save", w[0], "b"], ["load", w[0], "b"]]
            elif q < .34:
                w = rng.choice(wss)
                ops += [["jsave", w[0], "j"], ["jload", w[0] + "j", "j"], ["state", w[0] + "j"]]
            else:
                w, kind, m = rng.choice(wss)
                fmt = rng.choice(FMT[kind])
                tx = gen.example(rng, fmt, kind, m)
                if fmt == "vw-text":
                    tx = "\n".join(x.rstrip() for x in tx.split("\n"))
                n += 1
                s = "s%d" % n
                if m.get("own_parser"):
                    c = next(o for o in ops if o[0] == "ws" and o[1] == w)[2]["globalConfig"]
                    ops.append(["parsefresh", s, fmt, kind, c.get("hashSeed", 0), c["numBits"], tx])
                else:
                    ops.append(["parse", s, kind + fmt, tx])
                ops.append(["snap", s])
                for _ in range(rng.choice([1, 1, 2])):
                    ops.append([rng.choice(["predict", "learn", "pl"]), w, s])
                if rng.random() < .2:
                    held.append(s)
                else:
                    ops.append(["ret", s])
                if held and rng.random() < .5:
                    h = held.pop(0)
                    ops += [["snap", h], ["ret", h]]
        for w in wss:
            ops.append(["state", w[0]])
        return ops

    def scenario(self, rng, tier, i):
        geo = {k: [rng.choice([0, 0, 7]), rng.choice([5, 8, 10])] for k in FMT}
        if rng.random() < .5:
            geo["cb"] = geo["simple"]
        n = rng.choice([2, 2, 3, 3, 4, 6])
        size = rng.choice([1, 2, 4, 8, 16])
        family = []
        P = [self.program(rng, geo, size, tier, family) for _ in range(n)]
        if rng.random() < .25:
            P = [P[0]] * n
        return {"geo": geo, "pools": rng.choice([1, 1, 2]), "threads": P, "sims": {"run": gen.sched(rng, 150000 * size, 300 * size)}}

    def job(self, sc, threads):
        setup = [["pool", "p%d" % i] for i in range(sc["pools"])]
        j = 0
        for kind in FMT:
            for f in FMT[kind]:
                setup.append(["parser", kind + f, f, kind] + sc["geo"][kind] + ["p%d" % (j % sc["pools"])])
                j += 1
        return {"setup": setup, "threads": threads, "final": []}

    def execute(self, sc, ctx):
        r, res = ctx.core("run", self.job(sc, sc["threads"]), dict(sc["sims"]["run"], max_steps=4000000000, fair_after=50000000), must=False)
        if r.hung():
            raise Violation("hang", "%d threads with workspaces of their own: %s" % (len(sc["threads"]), r.how()), "run")
        if res is None:
            raise Violation("abnormal", "%d threads with workspaces of their own: %s %s" % (len(sc["threads"]), r.how(), r.stderr[-300:].decode("utf8", "replace")), "run")
        alone = {}
        for t, prog in enumerate(sc["threads"]):
            key = json.dumps(prog)
            if key not in alone:
                _, a = ctx.core("alone", self.job(sc, [prog]))
                alone[key] = a["threads"][0]
            for k, (x, y) in enumerate(zip(res["threads"][t], alone[key])):
                if x != y:
                    raise Violation("influenced", "thread %d, step %d (%s): %s, but %s when the thread runs alone" % (t, k, str(prog[k])[:200], str(x)[:200], str(y)[:200]), "run")
                if isinstance(x, list) and x and x[0] == "panic":
                    ctx.probe("panic in both (%s)" % prog[k][0])

    def shrinks(self, sc):
        t = sc["threads"]
        for i in range(len(t)):
            if len(t) > 1:
                yield dict(sc, threads=t[:i] + t[i + 1:])
        for i in range(len(t)):
            for c in list_shrinks(t[i]):
                yield dict(sc, threads=t[:i] + [c] + t[i + 1:])


PROP = C11()
