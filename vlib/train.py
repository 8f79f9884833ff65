"""Helpers around `reml train` runs and their library reference."""
import json
from . import gen, sim as S
from .core import Violation

MODEL, PREDS, DATA, CFG = "model.bin", "preds.txt", "data", "cfg.json"


def texts(w):
    """the chunks as the parsers receive them, for good workloads"""
    out = []
    for c in w["chunks"]:
        if not isinstance(c, str):
            return None
        if w["format"] == "vw-text":
            c = "\n".join(x.rstrip() for x in c.split("\n"))
        out.append(c)
    return out


def put(ctx, w):
    ctx.write(CFG, json.dumps(w["config"]))
    ctx.write(DATA, gen.data_bytes(w))


def argv(w, v=None, data=DATA, config=CFG, model=MODEL, preds=PREDS, input_model=None):
    v = v or {}
    a = []
    if v.get("quiet"):
        a.append("--quiet")
    a += ["train", "-d", data, "--data-format", w["format"]]
    a += ["-i", input_model] if input_model else ["-c", config]
    if v.get("threads") is not None:
        a += ["--num-parse-threads", str(v["threads"])]
    if v.get("queue") is not None:
        a += ["--queue-size", str(v["queue"])]
    if v.get("progress"):
        a += ["--progress", v["progress"]]
    if v.get("metrics"):
        a += ["--metrics", ",".join(v["metrics"])]
    if v.get("model", True):
        a += ["-o", model]
    if v.get("preds", True):
        a += ["-p", preds]
    return a


def variant(rng, kind="any", threads=None):
    v = {"threads": rng.choice([0, 1, 1, 2, 2, 3, 4, 6, None]) if threads is None else rng.choice(threads)}
    if rng.random() < .04:
        v["threads"] = rng.choice([9, 16, 33, 64]) if threads is None else v["threads"]
    v["queue"] = rng.choice([0, 1, 1, 2, 3, 8, 64, 512, None])
    v["quiet"] = rng.random() < .3
    v["progress"] = rng.choice([None, None, "+1", "*2", "+5", "+1000", "*1.5", "3"])
    return v


def metrics_for(kind, meta, rng):
    m = ["parsed_features", "example_number"]
    if kind == "simple":
        m.append("mse")
    elif meta.get("explore"):
        m.append("ips")
    return [x for x in m if rng.random() < .5]


class Ref:
    __slots__ = ("entries", "preds", "state", "jsons", "extra")


def reference(ctx, w, mode=None, must=True, extra=None):
    """trains the library in one thread with a fresh parser and pool per example"""
    job = {"setup": [["ws", "w", w["config"]], ["train", "w", w["format"], texts(w), mode], ["state", "w"]] + (extra or []), "threads": [], "final": []}
    _, res = ctx.core("reference", job)
    log = res["setup"]
    if log[0] != "ok":
        raise Violation("reference_config", "a valid configuration was rejected: %r" % (log[0],))
    ent = log[1]
    r = Ref()
    if ent and ent[0] == "panic":
        if must:
            raise Violation("reference_failed", "sequential library training panicked on well-formed input: %s" % ent[1])
        r.entries = None
        r.state = None
        return r
    if ent and ent[-1] and ent[-1][0] == "err":
        if must:
            raise Violation("reference_failed", "sequential library training rejected well-formed input: %s" % ent[-1][1])
        r.entries = None
        r.state = None
        return r
    r.entries = ent
    r.jsons = [json.loads(e[0]) for e in ent] if mode != "learn" else None
    r.state = log[2]
    r.extra = log[3:]
    return r


class Digests:
    """model file -> digest of the state it holds, through the library loader"""
    def __init__(self, ctx):
        self.ctx, self.c = ctx, {}

    def of(self, data):
        if data not in self.c:
            self.ctx.write("probe.bin", data)
            _, res = self.ctx.core("probe", {"setup": [["filestate", "probe.bin"]], "threads": [], "final": []})
            self.ctx.rm("probe.bin")
            self.c[data] = res["setup"][0]
        return self.c[data]


def is_model(dig, data, state):
    if data is None:
        return False
    d = dig.of(data)
    return d[0] == "ok" and d[1] == state


def same_preds(data, jsons):
    """None if the predictions file holds exactly these predictions, else what differs"""
    if data is None:
        return "no predictions file"
    try:
        lines = data.decode().split("\n")
    except UnicodeDecodeError:
        return "predictions file is not text"
    if lines[-1] != "":
        return "predictions file does not end in a newline (%d bytes)" % len(data)
    lines = lines[:-1]
    if len(lines) != len(jsons):
        return "%d prediction lines for %d examples" % (len(lines), len(jsons))
    for i, (a, b) in enumerate(zip(lines, jsons)):
        try:
            x = json.loads(a)
        except ValueError:
            return "line %d is not a prediction: %r" % (i + 1, a[:80])
        if x != b:
            return "line %d is %s, sequential training gives %s" % (i + 1, a[:200], json.dumps(b)[:200])
    return None


def tail(r):
    return r.stderr[-400:].decode("utf8", "replace")


def describe(v):
    return "threads=%s queue=%s%s" % (v.get("threads"), v.get("queue"), " quiet" if v.get("quiet") else "")


def variant_shrinks(sc, key="variants"):
    """each variant alone, with its simulation"""
    vs = sc[key]
    if len(vs) > 1:
        for i, v in enumerate(vs):
            yield dict(sc, **{key: [v], "sims": {k: s for k, s in sc["sims"].items() if k == v["sim"] or not k.startswith("v")}})


def w_shrinks(sc, key="w"):
    from .core import chunk_shrinks
    for w in chunk_shrinks(sc[key]):
        yield dict(sc, **{key: w})
    w = sc[key]
    g = w["config"].get("globalConfig", {})
    if g.get("interactions"):
        g2 = {k: v for k, v in g.items() if k != "interactions"}
        yield dict(sc, **{key: dict(w, config=dict(w["config"], globalConfig=g2))})
