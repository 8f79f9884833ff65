"""C14: reported metrics equal the metric of the actual history."""
import json, math, re, struct
from vlib import gen, sim as S, train as T
from vlib.core import Prop, Violation, list_shrinks
from props.c12 import PROGRESS

UMAX = (1 << 32) - 1


def f32(x):
    try:
        return struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError:
        return math.inf if x > 0 else -math.inf


def bits(b):
    return math.nan if b == "nan" else struct.unpack("<f", struct.pack("<I", b))[0]


def as_u32(x):
    return 0 if x != x or x <= 0 else UMAX if x >= UMAX else int(x)


def progress_points(p, n):
    """the iterations (from 0) at which a row is due; None for periods whose arithmetic leaves u32"""
    p = (p or "*2").lower()
    mul = p[0] == "*"
    per = f32(float(p[1:])) if mul else int(p.lstrip("+"))
    nxt, out = 0, []
    for it in range(n):
        if it >= nxt:
            out.append(it)
            nxt = as_u32(f32(f32(it) * per)) if mul else it + per
            if nxt > UMAX:
                return None
    return out


def rows_of(stdout):
    """the last rendered table: (titles line, rows as lists of cells)"""
    t = stdout.decode("utf8", "replace")
    frame = re.split(r"\x1b\[[0-9]*J", t)[-1]
    frame = re.sub(r"\x1b\[[0-9;?]*[A-Za-z]", "", frame)
    L = [x.strip() for x in frame.split("\n")]
    L = [x.strip("|").strip() for x in L if x.startswith("|")]
    return (L[0], [x.split() for x in L[1:]]) if L else (None, [])


class Hist:
    """running metrics over the reference history"""
    def __init__(self, ref):
        self.rows = []
        mse = mse_a = ips = ips_a = feats = 0.0
        feats = 0
        ok = True
        for k, (_, p, lab, nf) in enumerate(ref.entries):
            feats += nf
            if p[0] == "scalar" and lab[0] == "simple":
                mse += (bits(lab[1]) - bits(p[1])) ** 2
            if p[0] == "probs" and lab[0] == "cb":
                q = [bits(b) for a, b in p[1] if a == lab[1]]
                if q:
                    t = -bits(lab[2]) * q[0] / bits(lab[3]) if bits(lab[3]) else math.nan
                    ips += t
                    ips_a += abs(t)
            self.rows.append({"example_number": k, "mse": (mse / (k + 1), mse / (k + 1)), "ips": (ips / (k + 1), ips_a / (k + 1)), "parsed_features": feats})


def close(cell, want, mag):
    if want != want or abs(mag) > 1e37:
        return True  # left the range of single precision: only the shape of the row is judged
    try:
        x = float(cell)
    except ValueError:
        return False
    return abs(x - want) <= 1e-6 + 2e-5 * mag


class C14(Prop):
    id = "C14"
    rule = ("A scenario is a well-formed data set trained by the real `reml train` with several combinations of requested metrics, progress period, thread count and seeded schedule. The last "
            "rendered progress table is parsed: it must have exactly the rows the period defines plus the final one, and every cell must equal the metric computed independently (in double "
            "precision) over the sequential reference history up to that row. Non-trivial: a context switch or fault occurred; distinct by options and schedule hash.")
    quick_n = 4200
    thorough_n = 50000

    def scenario(self, rng, tier, i):
        if 4 <= i <= 5 or tier == "thorough" and 6 <= i <= 7:
            # past the whole numbers of single precision, and past 32 bits
            w = gen.workload(rng, 3, 3, kind="cb" if i == 5 else "simple", explore="Greedy", allow_ew=False, labelled=True)
            return {"w": w, "sims": {}, "metric": ["mse", "ips", "example_number", "mse"][i - 4],
                    "segments": [[0, 17000000], [1, 1000], [2, 9000000], [1, 12000000]] if i < 6 else [[1, 4400000000]]}
        if i == 3:
            return {"long": {"text": "1 |a " + "x " * 200000, "reps": 11000}, "sims": {}}
        if rng.random() < .015:
            return self.long(rng)
        n = rng.choice([1, 2, 3, 4, 5, 8, 9, 17, 20, 40, 70])
        kind = rng.choice(["simple", "cb"])
        w = gen.workload(rng, n, n, kind=kind, w0=rng.random() < .15, explore=rng.choice(["Greedy", "Softmax", "SquareCb", "none"]) if kind == "cb" else None)
        w = gen.maybe_big(rng, w, .06)
        if rng.random() < .001:
            w = gen.huge_workload(rng)
        n, kind = len(w["chunks"]), w["kind"]
        vs, sims = [], {}
        for k in range(1 if w.get("big") == "huge" else 2 if w.get("big") else 5):
            v = T.variant(rng)
            v["quiet"] = rng.random() < .1
            v["progress"] = rng.choice(PROGRESS + ["+1", "+2", "3", "*3", "*1.1", "+7"])
            if w.get("big") == "huge":
                v.update(quiet=False, progress=rng.choice(["*2", "*1.3", "+20000", "+32768", None]))
            v["preds"] = rng.random() < .4
            m = ["parsed_features", "example_number"] + (["mse"] if kind == "simple" else ["ips"] if w["meta"].get("explore") else [])
            rng.shuffle(m)
            v["metrics"] = m[:rng.choice([0, 1, 2, 3])]
            if v["metrics"] and rng.random() < .1:
                v["metrics"].append(v["metrics"][0])
            v["sim"] = "v%d" % k
            sims[v["sim"]] = gen.sched(rng, *gen.est(w))
            sims[v["sim"]]["rules"] = gen.read_rules(rng)
            vs.append(v)
        return {"w": w, "variants": vs, "sims": sims}

    def long(self, rng):
        """a stream too long to train here: the same few examples again and again, seen by the metric only"""
        kind = rng.choice(["simple", "cb"])
        w = gen.workload(rng, 2, 4, kind=kind, w0=rng.random() < .3, explore=rng.choice(["Greedy", "Softmax", "SquareCb"]) if kind == "cb" else None)
        c = w["chunks"]
        return {"w": w, "sims": {}, "metric": rng.choice(["parsed_features", "example_number"] + ["mse" if kind == "simple" else "ips"] * 4),
                "segments": [[rng.randrange(len(c)), int(10 ** rng.uniform(0, 6))] for _ in range(rng.choice([1, 2, 3, 5]))]}

    def execute_long(self, sc, ctx):
        if "long" in sc:
            # more features than 31 bits count
            setup = [["pool", "p"], ["parser", "q", "vw-text", "simple", 0, 4, "p"], ["ws", "w", {"globalConfig": {"numBits": 4}, "entryReduction": {"typename": "Coin"}}],
                     ["parse", "s0", "q", sc["long"]["text"]]]
            segs, m = [[0, sc["long"]["reps"]]], "parsed_features"
        else:
            w, segs, m = sc["w"], sc["segments"], sc["metric"]
            setup = [["ws", "w", w["config"]]]
            g = w["config"]["globalConfig"]
            for k, t in enumerate(T.texts(w)):
                setup.append(["parsefresh", "s%d" % k, w["format"], w["kind"], g.get("hashSeed", 0), g.get("numBits", 18), t])
        segs = [x for x in segs if x[0] < len(setup)]
        setup.append(["metric", m, "w", [["s%d" % k, r] for k, r in segs]])
        _, res = ctx.core("long", {"setup": setup, "threads": [], "final": []}, {"seed": 1, "strat": 0, "max_steps": 10**12})
        out = res["setup"][-1]
        if out and out[0] == "panic":
            raise Violation("long_panic", "%s over a history of %s (example, repetitions) panics: %s" % (m, segs, out[1]), "long")
        n = feats = 0
        tot = mag = 0.0
        for (k, r), (cell, p, lab, nf) in zip(segs, out):
            n += r
            feats += nf * r
            t = 0.0
            if p[0] == "scalar" and lab[0] == "simple":
                t = (bits(lab[1]) - bits(p[1])) ** 2
            elif p[0] == "probs":
                q = [bits(b) for a, b in p[1] if a == lab[1]]
                t = -bits(lab[2]) * q[0] / bits(lab[3]) if q and bits(lab[3]) else math.nan
            tot += t * r
            mag += abs(t) * r
            good = cell == str(n - 1) if m == "example_number" else cell == str(feats) if m == "parsed_features" else close(cell, tot / n, mag / n)
            if not good:
                raise Violation("long_" + m, "%s over a history of %s (example, repetitions) shows %s after %d examples, it is %s" % (
                    m, segs, cell, n, n - 1 if m == "example_number" else feats if m == "parsed_features" else tot / n), "long")
            ctx.probe("long histories compared (%s)" % m)
        ctx.mark("long", m, segs, sc.get("w", {}).get("chunks"))

    def execute(self, sc, ctx):
        if "long" in sc or "segments" in sc:
            return self.execute_long(sc, ctx)
        w = sc["w"]
        T.put(ctx, w)
        ref = T.reference(ctx, w)
        h = Hist(ref)
        n = len(w["chunks"])
        for v in sc["variants"]:
            r = ctx.reml(v["sim"], T.argv(w, v), sc["sims"][v["sim"]])
            if r.outcome != S.OUT_EXITED or r.rc != 0:
                raise Violation("failed", "training %d well-formed examples with %s: %s %s" % (n, T.describe(v), r.how(), T.tail(r)), v["sim"])
            pts = progress_points(v["progress"], n)
            if pts is None:
                continue
            cols = ["example_number"] + v["metrics"]
            title, rows = rows_of(r.stdout)
            desc = "progress=%s metrics=%s %s" % (v["progress"], v["metrics"], T.describe(v))
            if v["quiet"]:
                # whether --quiet leaves anything of the table is not judged; what it leaves must be right
                want = pts[:len(rows)]
            else:
                want = pts + ([n - 1] if n else [])
            if len(rows) != len(want):
                raise Violation("rows", "%s: the table has rows %s for %d examples, expected one for each of %s" % (desc, [x[0] for x in rows], n, want), v["sim"])
            for row, k in zip(rows, want):
                if len(row) != len(cols):
                    raise Violation("rows", "%s: row %s has %d cells, expected %d" % (desc, row, len(row), len(cols)), v["sim"])
                for c, cell in zip(cols, row):
                    x = h.rows[k][c]
                    good = close(cell, *x) if isinstance(x, tuple) else cell == str(x)
                    if not good:
                        raise Violation("value_" + c, "%s: row for example %d shows %s = %s, over the first %d examples it is %s" % (desc, k, c, cell, k + 1, x[0] if isinstance(x, tuple) else x), v["sim"])
                    ctx.probe("cells compared (%s)" % c)

    def shrinks(self, sc):
        if "long" in sc:
            return
        if "segments" in sc:
            for x in list_shrinks(sc["segments"]):
                if x:
                    yield dict(sc, segments=x)
            return
        yield from T.variant_shrinks(sc)
        for i, v in enumerate(sc["variants"]):
            for j in range(len(v["metrics"])):
                nv = dict(v, metrics=v["metrics"][:j] + v["metrics"][j + 1:])
                yield dict(sc, variants=[nv if k == i else x for k, x in enumerate(sc["variants"])])
        yield from T.w_shrinks(sc)


PROP = C14()
