"""Seeded generation of workloads: configurations, example streams in the documented formats, simulation parameters."""
import json, random

from vlib.edges import EDGE, LAST_NS

TEXTS = ["v", "two words", "quo\"te", "tab\there", "back\\slash", ""]
WORDS = ["a", "b", "cat", "dog", "x1", "x2", "red", "blue", "émile", "naïve", "long_feature_name_with_many_characters", "z", "日本", "q9", "t", "u",
         "A", "cats", "tac", "x11", "x10", "long_feature_name_with_many_characters2", "日"]  # names that are nearly equal to others
NSS = ["a", "b", "user", "item", "ctx", "A", "users"]
# (one, two) namespaces for the elementwise product
EW = [("one", "two"), ("two", "one"), ("user", "item"), ("ctx", "e7"), ("e1", "e1"), ("e1", ":default"), (":default", "e2")]


def coin(rng):
    c = {}
    if rng.random() < .4:
        c["alpha"] = rng.choice([1.0, 2.0, 4.0, 10.0])
    if rng.random() < .3:
        c["beta"] = rng.choice([0.5, 1.0, 2.0])
    if rng.random() < .2:
        c["l2Lambda"] = rng.choice([0.0, 0.01, 1.0])
    if rng.random() < .1:
        c["l1Lambda"] = rng.choice([0.0, 0.01])
    if rng.random() < .2:
        c["lossFunction"] = rng.choice([{"Squared": {}}, {"Logistic": {}}])
    if rng.random() < .2:
        c["linkFunction"] = rng.choice(["Identity", "Logistic"])
    r = {"typename": "Coin", "config": c}
    if not c and rng.random() < .5:
        del r["config"]
    return r


def debug(rng, nxt):
    return {"typename": "Debug", "config": {"id": rng.choice(["d", "top"]), "prediction": rng.random() < .2, "label": rng.random() < .2,
                                           "features": rng.random() < .2, "indent": rng.randrange(3), "next": nxt}}


def nsdef(n):
    return "Default" if n == ":default" else {"Name": n}


def interactions(rng, nss, allow_cubic=True):
    r = []
    defs = [{"Name": n} for n in nss] + ["Default"]
    for _ in range(rng.choice([0, 0, 0, 0, 1, 1, 1, 2, 2, 5])):
        r.append([rng.choice(defs) for _ in range(3 if allow_cubic and rng.random() < .2 else 2)])
    return r


def config(rng, kind, explore=None, ew=False, bits=None, binary=False):
    """kind simple|cb; returns (config, meta).  binary: the stack may be topped by a Binary reduction (library clients only)"""
    meta = {}
    base = coin(rng)
    if rng.random() < .12:
        base = debug(rng, base)
    if ew:
        one, two = rng.choice(EW)
        base = {"typename": "ElementwiseInteraction", "config": {"one": nsdef(one), "two": nsdef(two),
                "keepOriginalFeatures": rng.random() < .5, "regressor": base}}
        if rng.random() < .08:
            del base["config"]["regressor"]
        meta["ew"] = [one, two]
    if kind == "simple":
        red = base
        if binary and rng.random() < .25:
            red = {"typename": "Binary", "config": {"regressor": red}}
            if not ew and rng.random() < .1:
                red = {"typename": "Binary"}
            meta["binary"] = True
    else:
        if explore is None:
            explore = rng.choice([None, "Greedy", "Softmax", "SquareCb"])
        cbt = "mtr" if explore == "SquareCb" else rng.choice(["mtr", "ips"])  # the only combination it accepts
        meta["cbType"] = cbt
        adf = {"typename": "CbAdf", "config": {"cbType": cbt, "regressor": base}}
        left_out = rng.random()  # every part of a configuration has a default
        if left_out < .06 and not ew:
            del adf["config"]["regressor"]
        elif left_out < .12 and cbt == "mtr":
            del adf["config"]["cbType"]
        elif left_out < .15 and not ew and cbt == "mtr":
            del adf["config"]
        if rng.random() < .1:
            adf = debug(rng, adf)
        if explore in (None, "none"):
            red = adf
        else:
            c = {"cbAdf": adf}
            if explore == "Greedy":
                if rng.random() < .8:
                    c["epsilon"] = rng.choice([0.0, 0.05, 0.1, 0.2, 0.5, 1.0])
            elif explore == "Softmax":
                if rng.random() < .7:
                    c["lambda"] = rng.choice([0.1, 1.0, 5.0, 20.0])
                if rng.random() < .6:
                    c["uniformEpsilon"] = rng.choice([0.0, 0.05, 0.1, 0.3, 0.9, 1.0])
            else:
                if rng.random() < .6:
                    c["gammaScale"] = rng.choice([1.0, 10.0, 100.0])
                if rng.random() < .5:
                    c["gammaExponent"] = rng.choice([0.25, 0.5, 1.0])
                if rng.random() < .6:
                    c["uniformEpsilon"] = rng.choice([0.0, 0.05, 0.1, 0.3, 0.9])
            if not ew and rng.random() < .07:
                del c["cbAdf"]
                meta["cbType"] = "mtr"
            red = {"typename": "CbExploreAdf" + explore, "config": c}
            if not c:
                del red["config"]
            meta["explore"] = explore
            meta["econf"] = {k: v for k, v in c.items() if k != "cbAdf"}
    if rng.random() < .08:
        red = debug(rng, red)
    g = {"numBits": bits if bits is not None else (rng.choice([4, 5, 6, 7, 8, 10]))}
    if rng.random() < .3:
        g["hashSeed"] = rng.choice([0, 1, 12345, 4294967295, rng.getrandbits(32)])
    if rng.random() < .3:
        g["constantFeatureEnabled"] = rng.random() < .5
    it = interactions(rng, NSS)
    if it:
        g["interactions"] = it
    return {"globalConfig": g, "entryReduction": red}, meta


def num(rng):
    return rng.choice([1, 1, 0.5, -1.5, 2, 0.25, 3.75, -0.125, round(rng.uniform(-3, 3), 4), 0] * 4 + [1e-6, -2e-6])


def target(rng, *usual):
    """a label or cost; sometimes so small that the weights learnt from it are subnormal"""
    return rng.choice([3e-39, -1e-38, 2e-41]) if rng.random() < .02 else rng.choice(usual)


def feats(rng, fmt, meta, richness=1.0, force_shared_default=False):
    """{ns: spec}; spec is ('named', [(name, val|str|bool)]), ('nums', [..]) or ('strs', [..])"""
    f = {}
    if rng.random() < .04 and not meta.get("ew") and not meta.get("dense"):
        return f  # an example or action without any feature
    nss = [n for n in NSS if rng.random() < .36] or [rng.choice(NSS)]
    if rng.random() < .3:
        nss.append(":default")
    if meta.get("ew"):
        nss = [n for n in nss if (n == "ctx" or meta.get("cbType")) and n not in meta["ew"]] + list(dict.fromkeys(meta["ew"]))
    rng.shuffle(nss)
    for n in nss:
        if meta.get("ew") and n in meta["ew"]:
            if rng.random() < (.6 if meta.get("cbType") else .9):
                f[n] = ("nums", [num(rng) or 1 for _ in range(rng.randrange(1, 5))])
            continue
        k = rng.random()
        if k < .2 and fmt in ("json", "dsjson"):
            f[n] = ("nums", [num(rng) for _ in range(rng.randrange(1, 6) if rng.random() < .93 else 0)])
        elif k < .45 and fmt == "json":
            f[n] = ("strs", [rng.choice(WORDS) for _ in range(rng.randrange(1, 7))])
        elif k < .3 and fmt == "vw-text":
            f[n] = ("nums", [num(rng) for _ in range(rng.randrange(1, 4))])
        else:
            m = int(rng.randrange(0 if fmt == "vw-text" else 1, 6) * richness) or 1
            seen, L = set(), []
            for _ in range(m):
                w = rng.choice(WORDS)
                if w in seen and fmt != "vw-text":
                    continue
                seen.add(w)
                q = rng.random()
                L.append((w, num(rng) if q < .6 else rng.choice(WORDS + (TEXTS if fmt != "vw-text" else [])) if q < .8 else True if q < .9 else (False if fmt != "vw-text" else 1)))
            if fmt == "vw-text" and rng.random() < .06 and not meta.get("ew") and n != ":default":
                L = []
            f[n] = ("named", L)
    if rng.random() < .02 and not meta.get("ew") and not meta.get("dense"):
        f[rng.choice(LAST_NS)] = ("nums", [num(rng) for _ in range(rng.randrange(3, 10))])  # the hashes of these wrap around
    return f


def fnum(v):
    return repr(v)


def vw_feats(rng, f):
    out = []
    for n, (k, L) in f.items():
        head = "|" + ("" if n == ":default" else n)
        if n != ":default" and rng.random() < .08:
            head += ":" + rng.choice(["2", "0.5"])
        if k == "nums":
            items = [":" + fnum(x) for x in L]
        elif k == "strs":
            items = list(L)
        else:
            items = []
            for w, v in L:
                if v is True or v is False:
                    items.append(w)
                elif isinstance(v, str):
                    items.append(w + ":" + v)
                elif v == 1 and rng.random() < .7:
                    items.append(w)
                else:
                    items.append(w + ":" + fnum(v))
        out.append(head + " " + " ".join(items))
    if rng.random() < .04:
        out.append(rng.choice(["|", "| ", "|b", "| |"]))
    return " ".join(out) or "'t"


def json_feats(f):
    o = {}
    for n, (k, L) in f.items():
        o[n] = dict(L) if k == "named" else list(L)
    return o


def ds_feats(f):
    o = {}
    for n, (k, L) in f.items():
        if n == ":default":
            for w, v in (L if k == "named" else []):
                o[w] = v
            if k == "nums":
                o["numz"] = list(L)
        elif k == "named":
            o[n] = dict(L)
        else:
            o[n] = list(L)
    return o


def example(rng, fmt, kind, meta, labelled=True, nact=None, cost_scale=1.0):
    """one example as chunk text (without trailing newline)"""
    if kind == "simple":
        f = feats(rng, fmt, meta)
        y = target(rng, 0, 1, 1, -1, 0.5, 2.25, round(rng.uniform(-5, 5), 3))
        wt = rng.choice([1.0, 2.0, 0.5] + [0.0, 0.0] * bool(meta.get("w0"))) if rng.random() < (.4 if meta.get("w0") else .15) else None
        if fmt == "vw-text":
            s = ""
            if labelled:
                s = fnum(y) + (" " + fnum(wt) if wt is not None else "") + " "
                if rng.random() < .1:
                    s += "'tag%d" % rng.randrange(9)
            return s + vw_feats(rng, f)
        o = {}
        if labelled:
            o["label"] = (y if rng.random() < .9 else {"value": y}) if wt is None else {"value": y, "weight": wt}
        o["features"] = json_feats(f)
        return dumps(vary(rng, o))
    n = nact or rng.choice([1, 2, 2, 3, 3, 4, 5])
    need_shared = meta.get("cbType") == "mtr" or meta.get("mtr")
    has_shared = rng.random() < (.85 if need_shared else .7) or fmt == "dsjson"
    sh = feats(rng, fmt, meta) if has_shared else None
    acts = [feats(rng, fmt, meta, .7) for _ in range(n)]
    lab = rng.randrange(n)
    cost = target(rng, 0, 1, -1, 0.5, -0.25, round(rng.uniform(-2, 2), 3)) * cost_scale
    prob = rng.choice([0.1, 0.25, 0.5, 0.8, 1.0])
    if meta.get("p0") and rng.random() < .3:
        prob = rng.choice([0.0, 0.0, 1e-30, 1e-6])
    if fmt == "vw-text":
        lines = []
        if sh is not None:
            lines.append("shared " + vw_feats(rng, sh))
        for i, a in enumerate(acts):
            lines.append((("%d:%s:%s " % (i, fnum(cost), fnum(prob))) if labelled and i == lab else "") + vw_feats(rng, a))
        return "\n".join(lines)
    if fmt == "json":
        o = {}
        if labelled:
            o["label"] = {"action": lab, "cost": cost, "probability": prob}
        if sh is not None:
            o["shared"] = json_feats(sh)
        o["actions"] = [json_feats(a) for a in acts]
        return dumps(vary(rng, o))
    o = {}
    if labelled:
        o.update({"_label_cost": cost, "_label_probability": prob, "_labelIndex": lab, "_label_Action": lab + 1})
    c = ds_feats(sh)
    if rng.random() < .15:
        c[rng.choice(["FromUrl", "n"])] = nested(rng)
    if rng.random() < .1:
        c["_ignored"] = {"x": 1}
    c["_multi"] = []
    for i, a in enumerate(acts):
        d = ds_feats(a)
        if rng.random() < .08:
            d[rng.choice("ij")] = nested(rng)
        if rng.random() < .3:
            d["_tag"] = "t%d" % i
        c["_multi"].append(d)
    o["c"] = c
    o["a"] = list(range(1, n + 1))
    if rng.random() < .1:
        o.update({"Version": "1", "EventId": "13118d9b", "o": [{"v": 0.0, "ActionTaken": False}], "p": [0.5], "VWState": {"m": "x/y"}, "_original_label_cost": -0.0})
    return dumps(vary(rng, o))


def nested(rng, depth=0):
    """the nested objects and arrays dsjson allows inside a context"""
    k = rng.random()
    if k < .3 or depth > 1:
        return {rng.choice(WORDS): rng.choice([1, 0.5, "v", True, False]) for _ in range(2)}
    if k < .55:
        return [rng.choice([1, 2.5, -1, None]) for _ in range(rng.choice([0, 1, 3]))]
    if k < .8:
        return [nested_obj(rng, depth) for _ in range(rng.choice([1, 2]))]
    return nested_obj(rng, depth)


def nested_obj(rng, depth):
    o = {rng.choice(WORDS): rng.choice([1, 0.5, "v", True])}
    if rng.random() < .6:
        o[rng.choice(NSS)] = nested(rng, depth + 1)
    return o


def vary(rng, o):
    """the same example with its members in another order, or with a member no one reads"""
    if rng.random() < .1:
        k = list(o)
        rng.shuffle(k)
        o = {x: o[x] for x in k}
    if rng.random() < .05:
        o["comment"] = rng.choice([1, "x \" y", [1, {"a": None}]])
    return o


def big_example(rng, fmt, kind, meta):
    """one example with hundreds of features, namespaces or actions; elementwise stacks get the ordinary kind"""
    if meta.get("ew"):
        return example(rng, fmt, kind, meta)
    what = rng.choice(["features", "namespaces", "actions"] if kind == "cb" else ["features", "namespaces"])
    val = lambda: rng.choice([1, 1, 0.5, -1.5, 2])

    def feats_():
        if what == "features":
            return {rng.choice(NSS): ("named", [("f%d" % i, val()) for i in range(rng.choice([70, 260, 1100]))])}
        if what == "namespaces":
            return {"n%d" % i: ("named", [(rng.choice(WORDS), val())]) for i in range(rng.choice([20, 70, 300]))}
        return {rng.choice(NSS): ("named", [(rng.choice(WORDS), val())])}
    small = lambda: {rng.choice(NSS): ("named", [(rng.choice(WORDS), val())])}
    y = rng.choice([0, 1, -1, 0.5])
    if kind == "simple":
        f = feats_()
        return fnum(y) + " " + vw_feats(rng, f) if fmt == "vw-text" else dumps({"label": y, "features": json_feats(f)})
    n = rng.choice([35, 130, 300]) if what == "actions" else 2
    acts = [small() for _ in range(n)]
    sh = feats_()
    if what != "actions":
        acts[0] = feats_()
    lab = rng.randrange(n)
    if fmt == "vw-text":
        return "\n".join(["shared " + vw_feats(rng, sh)] + [("%d:%s:0.5 " % (i, fnum(y)) if i == lab else "") + vw_feats(rng, a) for i, a in enumerate(acts)])
    if fmt == "json":
        return dumps({"label": {"action": lab, "cost": y, "probability": 0.5}, "shared": json_feats(sh), "actions": [json_feats(a) for a in acts]})
    return dumps({"_label_cost": y, "_label_probability": 0.5, "_labelIndex": lab, "c": dict(ds_feats(sh), _multi=[ds_feats(a) for a in acts])})


def dumps(o):
    return json.dumps(o, ensure_ascii=False, separators=(", ", ": "))


BAD = ["badaction", "badjson", "badlabel", "nolabel", "cbshort", "twolabels", "badutf8", "blankjson"]


def after_label(line):
    return line[line.index("|"):] if "|" in line else "'t"


def bad_example(rng, fmt, kind, meta):
    """a malformed or unusable example; returns (bytes, kind)"""
    opts = ["nolabel", "badutf8", "badlabel"]
    if fmt != "vw-text":
        opts += ["badjson", "blankjson"]
    elif kind == "cb":
        opts += ["cbshort", "twolabels"]
    if kind == "cb" and fmt != "vw-text" and meta.get("cbType") == "mtr":
        opts += ["badaction"] * 2
    k = rng.choice(opts)
    meta = dict(meta, dense=True)
    good = example(rng, fmt, kind, meta)
    if k == "nolabel":
        return example(rng, fmt, kind, meta, labelled=False).encode(), k
    if k == "badutf8":
        g = good.encode()
        p = rng.randrange(1, max(2, len(g)))
        return g[:p] + b"\xff\xfe" + g[p:], k
    if k == "badjson":
        g = good.encode()
        return g[:rng.randrange(1, len(g) - 1)].decode("utf8", "ignore").encode() , k
    if k == "blankjson":
        return b"", k
    if k == "badaction":
        # the labelled action is not among the actions
        o = json.loads(good)
        if fmt == "json":
            o["label"]["action"] = len(o["actions"]) + rng.choice([0, 0, 1, 7, 1000])
        else:
            o["_labelIndex"] = len(o["c"]["_multi"]) + rng.choice([0, 0, 1, 7, 1000])
        return dumps(o).encode(), k
    if k == "badlabel":
        if fmt == "vw-text":
            if kind == "simple":
                return ("abc " + after_label(good)).encode(), k
            L = good.split("\n")
            i = rng.randrange(1 if len(L) > 1 else 0, len(L))
            return "\n".join(L[:i] + ["x:y:z " + after_label(L[i])] + L[i + 1:]).encode(), k
        o = json.loads(good)
        if fmt == "json":
            o["label"] = {"bogus": 1}
        else:
            o.pop("_label_cost", None)
        return dumps(o).encode(), k
    L = good.split("\n")
    if k == "cbshort":
        return "\n".join([x.split("|")[0] and not x.startswith("shared") and ("0:1 " + after_label(x)) or x for x in L]).encode(), k
    if k == "twolabels":
        L = [x if x.startswith("shared") else "0:1.0:0.5 " + after_label(x) for x in L]
        if len([x for x in L if not x.startswith("shared")]) < 2:
            L.append("1:0.5:0.5 |a b")
        return "\n".join(L).encode(), k
    raise AssertionError(k)


def render(fmt, kind, chunks, rng=None, final_newline=True, crlf=False):
    """chunks: list of bytes -> data file"""
    nl = b"\r\n" if crlf else b"\n"
    if fmt == "vw-text" and kind == "cb":
        chunks = [c.replace(b"\n", nl) for c in chunks]
        sep = nl + nl
        if rng and rng.random() < .2:
            sep = nl + nl + nl
        d = sep.join(chunks)
    else:
        d = nl.join(chunks)
    if chunks and final_newline:
        d += nl
    return d


def workload(rng, nmin=0, nmax=30, kind=None, fmt=None, explore=None, allow_ew=True, labelled=True, bits=None, bad=0, binary=False, w0=False):
    kind = kind or rng.choice(["simple", "cb"])
    ew = allow_ew and rng.random() < (.12 if kind == "simple" else .07)
    cfg, meta = config(rng, kind, explore, ew, bits, binary)
    if w0:
        meta["w0"] = True
    if fmt is None:
        fmt = rng.choice(["vw-text", "json"] if kind == "simple" else ["vw-text", "json", "dsjson"])
    n = rng.randrange(nmin, nmax + 1)
    chunks = [example(rng, fmt, kind, meta) for _ in range(n)]
    return {"config": cfg, "meta": meta, "format": fmt, "kind": kind, "chunks": chunks,
            "final_newline": rng.random() < .8, "crlf": fmt == "vw-text" and rng.random() < .08}


def big_workload(rng, size=1.0, kinds=("many", "many", "long", "actions", "bits")):
    """beyond every small bound in the code: many examples, long lines, many features or actions, the default and larger weight tables"""
    what = rng.choice(kinds)
    if what in ("many", "long"):
        kind = rng.choice(["simple", "simple", "cb"])
    else:
        kind = "cb" if what == "actions" else rng.choice(["simple", "cb"])
    c, m = config(rng, kind, bits={"bits": rng.choice([18, 18, 20, None])}.get(what, rng.choice([4, 6, 10])))
    g = c["globalConfig"]
    g.pop("interactions", None)
    edge = []
    if what == "bits" and rng.random() < .5:
        if rng.random() < .5:
            g.pop("numBits", None)
        else:
            # only indices at the edge of a power of two
            k = rng.randrange(10, 18)
            g.update(numBits=rng.choice([k, k + 1, 18]), constantFeatureEnabled=False)
            g.pop("hashSeed", None)
            top = (1 << k) + rng.choice([-1, 0, 0, 1])
            edge = [(n, w) for n in EDGE for i, w in EDGE[n].items() if i == top] + [(n, w) for n in EDGE for i, w in EDGE[n].items() if i < top and rng.random() < .4]
    fmt = rng.choice(["vw-text", "json"] if kind == "simple" else ["vw-text", "json", "dsjson"])
    word = lambda: rng.choice(WORDS) + str(rng.randrange(50))
    value = lambda: rng.choice([1, 1, 0.5, -1.5, 2])
    def named(k):
        if edge:
            f = {}
            for n, w in edge[:3] + rng.sample(edge, min(k, len(edge))):
                f.setdefault(n, ("named", []))[1].append((w, value()))
            return {n: (t, list(dict(L).items())) for n, (t, L) in f.items()}
        d = {}
        while len(d) < k:
            d["%s%d" % (word(), len(d)) if k > 50 else word()] = value()
        return {rng.choice(NSS): ("named", list(d.items()))}
    def ex(k, nact):
        if kind == "simple":
            f, y = named(k), rng.choice([0, 1, -1, 0.5])
            return fnum(y) + " " + vw_feats(rng, f) if fmt == "vw-text" else dumps({"label": y, "features": json_feats(f)})
        lab, cost, prob = rng.randrange(nact), rng.choice([0, 1, -0.5]), rng.choice([.25, .5, 1.0])
        sh, acts = named(k), [named(max(1, k // nact)) for _ in range(nact)]
        if fmt == "vw-text":
            return "\n".join(["shared " + vw_feats(rng, sh)] + [("%d:%s:%s " % (i, fnum(cost), fnum(prob)) if i == lab else "") + vw_feats(rng, a) for i, a in enumerate(acts)])
        if fmt == "json":
            return dumps({"label": {"action": lab, "cost": cost, "probability": prob}, "shared": json_feats(sh), "actions": [json_feats(a) for a in acts]})
        return dumps({"_label_cost": cost, "_label_probability": prob, "_labelIndex": lab, "c": dict(ds_feats(sh), _multi=[ds_feats(a) for a in acts])})
    if what == "many":
        ch = [ex(rng.choice([1, 1, 2]), rng.choice([1, 2])) for _ in range(int(rng.choice([130, 300, 600, 1100]) * size))]
    elif what == "long":
        ch = [ex(rng.choice([1, 2, 300, 1200, int(4500 * size)]), 2) for _ in range(rng.choice([2, 4, 6]))]
    elif what == "actions":
        ch = [ex(1, int(rng.choice([33, 70, 130, 260, 300]) * size) + 1) for _ in range(rng.choice([1, 2, 3]))]
    else:
        ch = [ex(rng.choice([1, 3]), 2) for _ in range(rng.choice([1, 3, 6]))]
    return {"config": c, "meta": m, "format": fmt, "kind": kind, "chunks": ch, "final_newline": rng.random() < .8, "crlf": False, "big": what}


def est(w):
    """rough scheduler steps and synchronisation operations of a training run, to place switches and stalls over its whole length"""
    n = len(w["chunks"])
    return 40000 + 6000 * n + (60 * sum(len(c) for c in w["chunks"] if isinstance(c, str)) if w.get("big") else 0), 300 + 120 * n


def maybe_big(rng, w, p=.08, **k):
    return big_workload(rng, **k) if rng.random() < p else w


def huge_workload(rng):
    """past every 16-bit counter"""
    kind = rng.choice(["simple", "simple", "cb"])
    c = {"globalConfig": {"numBits": 6}, "entryReduction": {"typename": "Coin"}}
    if kind == "simple":
        chunks = ["%d |a %s" % (rng.randrange(2), rng.choice("xyz")) for _ in range(66000)]
    else:
        c["entryReduction"] = {"typename": rng.choice(["CbAdf", "CbExploreAdfGreedy"])}
        chunks = ["0:%d:0.5 |a %s" % (rng.randrange(2), rng.choice("xyz")) for _ in range(66000)]
    return {"config": c, "meta": {"explore": "Greedy"} if c["entryReduction"]["typename"][2] == "E" else {}, "format": "vw-text", "kind": kind, "big": "huge", "chunks": chunks, "final_newline": True}


def data_bytes(w):
    return render(w["format"], w["kind"], [c.encode() if isinstance(c, str) else bytes.fromhex(c["hex"]) for c in w["chunks"]],
                  None, w.get("final_newline", True), w.get("crlf", False))


def sched(rng, est_steps=200000, est_syncs=6000, kinds=None):
    """simulation parameters for one execution"""
    s = {"seed": rng.getrandbits(48), "ncpu": rng.choice([1, 2, 3, 4, 8])}
    if est_steps > 500000:
        s["fair_after"], s["max_steps"] = 6 * est_steps + 6000000, 400000000 + 200 * est_steps
    strat = rng.choice(kinds or [1, 1, 2, 2, 2, 3, 3, 4, 5])
    s["strat"] = strat
    if strat == 1:
        s["gap"] = rng.choice([3, 20, 100, 500, 2000])
    elif strat == 2:
        s["gap"] = rng.choice([1, 2, 5, 20, 100])
    elif strat == 3:
        s["pct_d"] = rng.choice([1, 2, 3, 5])
        s["pct_len"] = est_steps
    elif strat == 5:
        s["gap"] = rng.choice([2, 10, 50])
        fr = rng.randrange(1, est_steps)
        s["stall"] = [rng.randrange(8), fr, fr + rng.choice([1000, 20000, 200000, 2000000])]
    if rng.random() < .3:
        s["spurious"] = rng.choice([0.01, 0.1, 0.3])
    if rng.random() < .2:
        s["clock_step"] = rng.choice([1, 1000, 1000000])
    return s


def read_rules(rng, name="data"):
    r = []
    if rng.random() < .4:
        r.append([name, "read_short", rng.choice([.1, .5, 1.0])])
    if rng.random() < .3:
        r.append([name, "read_eintr", rng.choice([.05, .3])])
    return r


def many(rng, cfgs, texts, most=70000):
    """(index of an example, how often to repeat a request on it): beyond every small counter, as far as the stack is cheap enough"""
    k = min(range(len(texts)), key=lambda i: len(texts[i]))
    j = json.dumps(cfgs)
    cheap = "interactions" not in j and '"Debug"' not in j and len(texts[k]) < 400
    return k, min(most, rng.choice([300, 5000, most, most]) if cheap else 300 if len(texts[k]) < 2000 else 20)
