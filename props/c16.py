"""C16: exploration always emits a valid probability distribution."""
import json, math, struct
from vlib import gen, sim as S, train as T
from vlib.core import Prop, Violation, list_shrinks

TOL = 2e-4


def bits(b):
    return math.nan if b == "nan" else struct.unpack("<f", struct.pack("<I", b))[0]


def effective(meta, defaults):
    """the configured floor, or the documented default the library reports"""
    d = next(c for n, c, _ in defaults if n == "CbExploreAdf" + meta["explore"])
    k = "epsilon" if meta["explore"] == "Greedy" else "uniformEpsilon"
    return meta.get("econf", {}).get(k, d.get(k, 0.0))


EXTREME = {"epsilon": [-0.1, 1.5, 3.0, 1e-12], "uniformEpsilon": [-0.1, 1.5, 3.0, 1e-12, 0.9995, 0.9985], "lambda": [-1.0, -50.0, 0.0, 1e-30, 1e30, 3e38],
           "gammaScale": [-10.0, 0.0, 1e-30, 1e30, 3e38], "gammaExponent": [-1.0, 0.0, 10.0, 40.0, 1e9]}
KEYS = {"Greedy": ["epsilon"], "Softmax": ["lambda", "uniformEpsilon"], "SquareCb": ["gammaScale", "gammaExponent", "uniformEpsilon"]}


def extreme(rng, c, m):
    """replace a parameter of the exploration by one at or outside the edge of what makes sense"""
    e = c["entryReduction"]
    while not e["typename"].startswith("CbExplore"):
        e = e["config"]["next"]
    k = rng.choice(KEYS[m["explore"]])
    v = rng.choice(EXTREME[k])
    e.setdefault("config", {})[k] = m["econf"][k] = v
    if k in ("epsilon", "uniformEpsilon") and not 0 <= v <= 1:
        m["may_reject"] = True


class C16(Prop):
    id = "C16"
    need = {"coresim"}
    rule = ("A scenario is a simulated online decision service: seeded requests with varying numbers of actions arrive, the service draws each action from the model's distribution with simulated "
            "randomness, and rewards come back through a network that loses, duplicates, delays and reorders them; the service checkpoints, crashes and restarts from its last checkpoint. "
            "Every prediction is judged as a distribution. Non-trivial: at least one reward was learned; distinct by scenario.")
    real = ["reductionml-core"]
    quick_n = 9500
    thorough_n = 200000
    assumptions = ["Rewards are finite and small enough that the model's state stays within the finite numbers of single precision; runs are judged up to the point where it does not."]

    def scenario(self, rng, tier, i):
        ex = rng.choice(["Greedy", "Softmax", "SquareCb"])
        c, m = gen.config(rng, "cb", ex)
        if rng.random() < .08:
            extreme(rng, c, m)
        fmt = rng.choice(["vw-text", "json", "dsjson"])
        scale = rng.choice([0.01, 1, 1, 1, 1, 10, 10, 100, 1e4, 1e6, 1e8, 1e12, 1e20, 1e30, 1e36])
        n = rng.choice([1, 2, 4, 8, 16, 30])
        nact = rng.choice([None, None, 2, 10, 30])
        if rng.random() < .03:
            nact, n = rng.choice([100, 300]), 2
        ctxs = []
        for k in range(n):
            t = gen.example(rng, fmt, "cb", m, labelled=False, nact=(rng.choice([1, nact]) if nact and rng.random() < .2 else nact))
            ctxs.append("\n".join(x.rstrip() for x in t.split("\n")) if fmt == "vw-text" else t)
        # the network between the users and the service
        loss, dup = rng.choice([0, .1, .4]), rng.choice([0, .1, .3])
        delay = rng.choice([0, 0, 3, 10])
        faults = {"lost": 0, "duplicated": 0, "delayed": 0, "crashes": 0}
        cost_of = rng.choice(["random", "action", "bad", "zero"])
        ev, pending = [], []
        many = gen.many(rng, c, ctxs, 30000)[1] if rng.random() < .015 else 0  # retries without end
        t = 0
        T_ = rng.choice([3, 10, 30, 80])
        for t in range(T_):
            k = rng.randrange(n)
            cost = {"random": rng.uniform(-1, 1), "action": rng.choice([-1, 0, 1]), "bad": 1.0, "zero": 0.0}[cost_of] * scale
            ev.append(["decide", k, t, round(rng.random(), 6), round(cost, 6)])
            if rng.random() < loss:
                faults["lost"] += 1
            else:
                d = rng.randrange(delay + 1)
                faults["delayed"] += d > 0
                pending.append([t + d, t])
                if rng.random() < dup:
                    faults["duplicated"] += 1
                    pending.append([t + d + rng.randrange(delay + 1), t])
            due = [p for p in pending if p[0] <= t]
            pending = [p for p in pending if p[0] > t]
            rng.shuffle(due)
            for p in due:
                ev.append(["reward", p[1], rng.choice(["learn", "learn", "pl"])])
            if many and rng.random() < (.3 if many < 1000 else .08):
                ev.append(["burst", t, rng.choice(["learn", "learn", "pl"]), many])
            if rng.random() < .1:
                ev.append(["checkpoint"])
            if rng.random() < .05:
                faults["crashes"] += 1
                ev.append(["crash"])
        return {"config": c, "meta": m, "format": fmt, "ctxs": ctxs, "events": ev, "faults": faults}

    def judge(self, p, n, sc, eps, what):
        ex = sc["meta"]["explore"]
        if p[0] != "probs":
            raise Violation("kind", "%s: not a distribution: %s" % (what, str(p)[:200]), "run")
        acts = [a for a, _ in p[1]]
        if sorted(acts) != list(range(n)):
            raise Violation("actions", "%s: %d actions offered, distribution over %s" % (what, n, acts), "run")
        pr = [bits(b) for _, b in p[1]]
        if any(x != x or x in (math.inf, -math.inf) for x in pr):
            raise Violation("not_finite", "%s: probabilities %s" % (what, pr[:30]), "run")
        if any(x < 0 or x > 1 + 1e-5 for x in pr):
            raise Violation("range", "%s: probabilities %s" % (what, pr[:30]), "run")
        if abs(math.fsum(pr) - 1) > TOL:
            raise Violation("sum", "%s: probabilities %s sum to %r" % (what, pr[:30], math.fsum(pr)), "run")
        if min(pr) < eps / n * (1 - 1e-4) - 1e-7:
            raise Violation("floor", "%s: a %s explorer with %s %g gives probabilities %s over %d actions" % (
                what, ex, "epsilon" if ex == "Greedy" else "uniformEpsilon", eps, pr[:30], n), "run")

    def execute(self, sc, ctx):
        c = sc["config"]
        g = c["globalConfig"]
        pa = [sc["format"], "cb", g.get("hashSeed", 0), g.get("numBits", 18)]
        ops, chk, done = [["ws", "w", c], ["nulls", "w"], ["save", "w", "ck"]], [], set()
        nacts = {}
        for k, t in enumerate(sc["ctxs"]):
            nacts[k] = (len([x for x in t.split("\n") if not x.startswith("shared")]) if sc["format"] == "vw-text"
                        else len(json.loads(t)["actions"]) if sc["format"] == "json" else len(json.loads(t)["c"]["_multi"]))
        learned = 0
        for e in sc["events"]:
            if e[0] == "decide" and e[1] < len(sc["ctxs"]):
                s = "d%d" % e[2]
                ops += [["nulls", "w"], ["parsefresh", s, *pa, sc["ctxs"][e[1]]], ["decide", "w", s, e[3], e[4]]]
                chk.append((len(ops) - 1, e[1], "decision %d" % e[2]))
                done.add(e[2])
            elif e[0] == "reward" and e[1] in done:
                ops += [["nulls", "w"], [e[2], "w", "d%d" % e[1]]]
                learned += 1
                if e[2] == "pl":
                    k = next(x[1] for x in sc["events"] if x[0] == "decide" and x[2] == e[1])
                    chk.append((len(ops) - 1, k, "prediction while learning the reward of decision %d" % e[1]))
            elif e[0] == "burst" and e[1] in done:
                ops += [["nulls", "w"], ["repeat", "w", "d%d" % e[1], e[2], e[3]]]
                learned += e[3]
            elif e[0] == "checkpoint":
                ops.append(["save", "w", "ck"])
            elif e[0] == "crash":
                ops.append(["load", "w", "ck"])
        ops += [["nulls", "w"], ["defaults"]]
        _, res = ctx.core("run", {"setup": ops, "threads": [], "final": []})
        log = res["setup"]
        if log[0] != "ok" and sc["meta"].get("may_reject"):
            ctx.probe("configurations without a meaning rejected")
            return
        if log[0] != "ok":
            raise Violation("config", "valid configuration rejected: %r" % log[0])
        for k, v in sc["faults"].items():
            if v:
                ctx.stats.faults["rewards " + k if k != "crashes" else "service crash and restart"] = ctx.stats.faults.get("rewards " + k if k != "crashes" else "service crash and restart", 0) + v
        if learned:
            ctx.mark(json.dumps(sc))
        eps = min(1.0, effective(sc["meta"], log[-1]))
        at = {i: (k, what) for i, k, what in chk}
        for i, (o, x) in enumerate(zip(ops, log)):
            if o[0] == "nulls" and x != log[1]:
                ctx.probe("history left the finite numbers")
                return
            if isinstance(x, list) and x and x[0] == "panic":
                what = at[i][1] if i in at else o[0]
                raise Violation("panic", "%s: %s" % (what, x[1]), "run")
            if i in at:
                k, what = at[i]
                self.judge(x, nacts[k], sc, eps, what)
                ctx.probe("distributions judged")
                ctx.probe("distributions with a zero probability", sum(1 for _, b in x[1] if b == 0) > 0)

    def shrinks(self, sc):
        for ev in list_shrinks(sc["events"]):
            yield dict(sc, events=ev)


PROP = C16()
