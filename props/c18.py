"""C18: Python clients see the same learning as the core library."""
import json, os, subprocess, tempfile, shutil, atexit
from vlib import build as B, gen
from vlib.core import Prop, Violation, HarnessError, hash64, list_shrinks

FMT = {"simple": ["vw-text", "json"], "cb": ["vw-text", "json", "dsjson"]}
_SRV = {}


def stage(d):
    p = os.path.join(d, "reductionml")
    os.makedirs(p)
    src = os.path.join(B.REPO, "reductionml-python", "python", "reductionml")
    for n in os.listdir(src):
        if n.endswith(".py"):
            shutil.copy(os.path.join(src, n), os.path.join(p, n))
    os.link(B.PYEXT_SO, os.path.join(p, "_reductionml.so")) if os.stat(d).st_dev == os.stat(B.PYEXT_SO).st_dev else shutil.copy(B.PYEXT_SO, os.path.join(p, "_reductionml.so"))
    # the only third-party import of the package; both names are in the standard library here
    with open(os.path.join(d, "typing_extensions.py"), "w") as f:
        f.write("from typing import NotRequired, TypedDict\n")


def server(ctx):
    if _SRV.get("pid") != os.getpid():
        d = os.path.join(os.path.dirname(ctx.base), "py%d" % os.getpid())
        if not os.path.exists(d):
            os.makedirs(d)
            stage(d)
        env = {"PATH": "/usr/bin:/bin", "LANG": "C.UTF-8", "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1"}
        p = subprocess.Popen(["/usr/bin/python3", "-S", "-E", "-s", os.path.join(B.VERIF, "vlib", "pysim.py"), d], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                             env=env, text=True)
        _SRV.update(pid=os.getpid(), p=p)
    return _SRV["p"]


class C18(Prop):
    id = "C18"
    need = {"coresim", "pyext"}
    rule = ("A scenario is one to four Python client tasks (real threads passed a baton in a seeded order) that share workspaces, parsers and features objects of the real package: they parse valid "
            "and malformed examples (text and dictionaries), predict, learn with parsed or constructed labels, alias objects, drop them, leave them in reference cycles, collect garbage at seeded "
            "points, save and load (binary and JSON), and some tasks are killed. The core library executes the same operations with features parsed anew for every use; every "
            "prediction, label, error outcome and saved model is compared. Non-trivial: at least one object recycled and one task switch; distinct by program.")
    real = ["reductionml-python (extension module and package)", "reductionml-core", "CPython's allocator, reference counts and collector"]
    stubs = ["thread scheduling (a seeded baton decides which client runs each operation)", "typing_extensions (re-exported from typing)"]
    assumptions = ["the extension never releases the interpreter lock, so operations are the atoms of every interleaving"]
    quick_n = 16000
    thorough_n = 300000

    def scenario(self, rng, tier, i):
        ws = []
        for k in range(rng.choice([1, 2, 2, 3])):
            kind = rng.choice(["simple", "cb"])
            c, m = gen.config(rng, kind, ew=rng.random() < .1)
            if ws and rng.random() < .7 and not m.get("ew") and not ws[0]["meta"].get("ew"):
                c["globalConfig"] = dict(ws[0]["config"]["globalConfig"])
            ws.append({"config": c, "meta": m, "kind": kind, "name": "gw%d" % k})
        prog = []
        for w in ws:
            prog.append([0, ["ws", w["name"], w["config"]]])
        # symbol tables
        nt = rng.choice([1, 2, 2, 3, 4])
        parsers, slots = [], {}
        wss = [dict(w) for w in ws]
        bufs, jbufs = [], []
        dead, cnt = set(), [0]

        def fresh(pfx, t):
            cnt[0] += 1
            return ("g" if rng.random() < .4 else "l%d" % t) + pfx + str(cnt[0])

        def vis(names, t):
            return [n for n in names if n.startswith("g") or n.startswith("l%d" % t)]

        def label_for(kind):
            if kind == "cb":
                return ["cb", 0, rng.choice([0.0, 1.0, -0.5, 0.25]), rng.choice([0.1, 0.5, 1.0])]
            return ["simple", rng.choice([0.0, 1.0, 2.5, -1.0]), rng.choice([1.0, 0.5, 2.0])] if rng.random() < .7 else ["simple1", rng.choice([1.0, -2.0])]

        steps = rng.choice([8, 20, 40, 80])
        cur = 0
        while len(prog) < steps + len(ws):
            if rng.random() < .5:
                cur = rng.randrange(nt)
            t = cur
            if t in dead:
                t = cur = rng.randrange(nt + 1)
                if t in dead:
                    dead.discard(t)     # a killed task is replaced by a new one
            q = rng.random()
            wv = [w for w in wss if w["name"].startswith("g") or w["name"].startswith("l%d" % t)]
            if q < .30 or not slots:
                w = rng.choice(wv)
                fmt = rng.choice(FMT[w["kind"]])
                g = w["config"]["globalConfig"]
                pv = [p for p in parsers if p[0] in vis([p[0]], t) and p[1] == fmt and p[2] == w["name"]]
                if not pv or rng.random() < .15:
                    p = fresh("p", t)
                    parsers.append((p, fmt, w["name"], w["kind"], w["meta"]))
                    prog.append([t, ["parser", p, w["name"], fmt, [g.get("hashSeed", 0), g.get("numBits", 18)] if rng.random() < .2 else None]])
                    pv = [parsers[-1]]
                p = rng.choice(pv)
                if rng.random() < .12:
                    b, why = gen.bad_example(rng, fmt, w["kind"], w["meta"])
                    try:
                        prog.append([t, ["bad", "x", p[0], b.decode().rstrip()]])
                    except UnicodeDecodeError:
                        pass
                    continue
                tx = gen.example(rng, fmt, w["kind"], w["meta"], labelled=rng.random() < .9)
                if fmt == "vw-text":
                    tx = "\n".join(x.rstrip() for x in tx.split("\n"))
                s = rng.choice(vis(slots, t) + [None] * 3)
                if s is None:
                    s = fresh("s", t)
                if rng.random() < .05 and w["kind"] == "simple" and not w["meta"].get("ew"):
                    slots[s] = ("simple", w["meta"], json.dumps(g, sort_keys=True))
                    prog.append([t, ["empty", s, "simple"]])
                    continue
                if rng.random() < .03 and fmt != "dsjson":
                    prog.append([t, ["bulk", p[0], w["name"], tx, False, rng.choice([5, 40, 70, 130, 300]), rng.random() < .5]])
                    continue
                slots[s] = (w["kind"], w["meta"], json.dumps(g, sort_keys=True))
                as_dict = fmt != "vw-text" and rng.random() < .5
                if as_dict:
                    # in key order, so that no conversion of the dictionary can reorder (and re-round) the sums of features
                    tx = json.dumps(json.loads(tx), sort_keys=True, ensure_ascii=False)
                prog.append([t, ["parse", s, p[0], tx, as_dict]])
            elif q < .74:
                sv = vis(slots, t)
                if not sv:
                    continue
                s = rng.choice(sv)
                kind, meta, geo = slots[s]
                cand = [w for w in wv if w["kind"] == kind and json.dumps(w["config"]["globalConfig"], sort_keys=True) == geo and
                        (w["meta"].get("cbType") != "mtr" or meta.get("cbType") == "mtr") and w["meta"].get("ew") == meta.get("ew")]
                if not cand:
                    continue
                w = rng.choice(cand)
                u = rng.choice(["predict", "predict", "learn", "pl"])
                if rng.random() < .06 and not meta.get("ew"):
                    # a label of the other type: the call fails and leaves the workspace and the features as they were
                    prog.append([t, ["wrong", w["name"], s, rng.choice(["learn", "learn", "pl"]), label_for("simple" if kind == "cb" else "cb")]])
                    continue
                if u == "predict":
                    prog.append([t, ["predict", w["name"], s]])
                else:
                    prog.append([t, [u, w["name"], s, label_for(kind) if rng.random() < .3 else None]])
            elif q < .80:
                sv = vis(slots, t)
                if sv:
                    a = fresh("s", t)
                    s = rng.choice(sv)
                    slots[a] = slots[s]
                    prog.append([t, ["alias", a, s]])
            elif q < .88:
                sv = vis(slots, t)
                if sv:
                    s = rng.choice(sv)
                    del slots[s]
                    prog.append([t, [rng.choice(["del", "del", "cycle"]), s]])
            elif q < .91:
                prog.append([t, ["gc", rng.choice([0, 1, 2, 2])]])
            elif q < .93:
                sv = vis(slots, t)
                if sv:
                    prog.append([t, ["label", rng.choice(sv)]])
            elif q < .96:
                w = rng.choice(wv)
                j = rng.random() < .4 and w["config"]["globalConfig"].get("numBits", 18) <= 8
                b = fresh("j" if j else "b", t)
                prog.append([t, ["jsave" if j else "save", w["name"], b]])
                (jbufs if j else bufs).append((b, dict(w)))
            elif q < .985:
                bv = [x for x in bufs + jbufs if x[0].startswith("g") or x[0].startswith("l%d" % t)]
                if bv:
                    b, w = rng.choice(bv)
                    if rng.random() < .15 and (b, w) in bufs:
                        prog.append([t, ["trunc", b, rng.randrange(400)]])
                        continue
                    n = rng.choice([w["name"], fresh("w", t)])
                    if not (n.startswith("g") or n.startswith("l%d" % t)):
                        n = fresh("w", t)
                    if not any(x["name"] == n for x in wss):
                        wss.append(dict(w, name=n))
                    prog.append([t, ["jload" if (b, w) in jbufs else "load", n, b]])
            elif nt > 1 and t:
                prog.append([t, ["kill"]])
                dead.add(t)
                pre = "l%d" % t
                for n in [n for n in slots if n.startswith(pre)]:
                    del slots[n]
                parsers[:] = [p for p in parsers if not p[0].startswith(pre)]
                wss[:] = [w for w in wss if not w["name"].startswith(pre)]
                bufs[:] = [x for x in bufs if not x[0].startswith(pre)]
                jbufs[:] = [x for x in jbufs if not x[0].startswith(pre)]
        return {"prog": prog, "gc": rng.choice([None, [5, 2, 2], [50, 5, 5], [700, 10, 10]])}

    def translate(self, sc, ctx):
        """drops operations whose objects are missing (after shrinking); returns the program, the core library's operations, and what to compare"""
        ws, parsers, slots, bufs = {}, {}, {}, {}
        prog, core, chk = [], [], []
        nb = 0
        for t, o in sc["prog"]:
            pre = "l%d" % t

            def ok(d, n):
                return n in d and (n.startswith("g") or n.startswith(pre))
            k = o[0]
            i = len(core)
            if k == "ws":
                ws[o[1]] = o[2]
                core.append(["ws", o[1], o[2]])
                chk.append((i, "same"))
            elif k == "parser":
                if not ok(ws, o[2]):
                    continue
                g = ws[o[2]]["globalConfig"]
                kind = "cb" if "Cb" in json.dumps(ws[o[2]]) else "simple"
                parsers[o[1]] = (o[3], kind, g.get("hashSeed", 0), g.get("numBits", 18))
                chk.append(None)
            elif k in ("parse", "bad"):
                if not ok(parsers, o[2]):
                    continue
                if k == "parse":
                    slots[o[1]] = ["parsefresh", "f", *parsers[o[2]], o[3]]
                core.append(["parsefresh", "f", *parsers[o[2]], o[3]])
                chk.append((i, "same" if k == "parse" else "outcome"))
            elif k == "bulk":
                if not ok(parsers, o[1]) or not ok(ws, o[2]) or ("Cb" in json.dumps(ws[o[2]])) != (parsers[o[1]][1] == "cb"):
                    continue
                core += [["parsefresh", "f", *parsers[o[1]], o[3]], ["predict", o[2], "f"]]
                chk.append((len(core) - 1, "same"))
            elif k == "empty":
                slots[o[1]] = ["empty", "f", o[2]]
                chk.append(None)
            elif k in ("predict", "learn", "pl"):
                if not ok(ws, o[1]) or not ok(slots, o[2]):
                    continue
                if k != "predict" and o[3] is None and not self.labelled(slots[o[2]]):
                    continue
                core.append(slots[o[2]])
                if k != "predict" and o[3] is not None:
                    core.append(["setlabel", "f"] + (["simple", o[3][1], 1.0] if o[3][0] == "simple1" else o[3]))
                core.append([k, o[1], "f"])
                chk.append((len(core) - 1, "same"))
            elif k == "wrong":
                if not ok(ws, o[1]) or not ok(slots, o[2]):
                    continue
                chk.append("wrong")
            elif k == "alias":
                if not ok(slots, o[2]):
                    continue
                slots[o[1]] = slots[o[2]]
                chk.append(None)
            elif k in ("del", "cycle"):
                if not ok(slots, o[1]):
                    continue
                del slots[o[1]]
                chk.append(None)
            elif k == "label":
                if not ok(slots, o[1]):
                    continue
                core += [slots[o[1]], ["label", "f"]]
                chk.append((len(core) - 1, "same"))
            elif k in ("save", "jsave"):
                if not ok(ws, o[1]):
                    continue
                bufs[o[2]] = (k, ws[o[1]])
                if k == "save":
                    core += [["save", o[1], o[2]], ["state", o[1]], ["filestate", "py_" + o[2]]]
                    chk.append((len(core) - 1, "file"))
                else:
                    core += [["jsave", o[1], o[2]], ["jdump", o[2]]]
                    chk.append((len(core) - 1, "json"))
            elif k in ("load", "jload"):
                if not ok(bufs, o[2]) or bufs[o[2]][0] != ("save" if k == "load" else "jsave"):
                    continue
                core.append([k, o[1], o[2]])
                ws[o[1]] = bufs[o[2]][1]
                chk.append((i, "load"))
            elif k == "trunc":
                if not ok(bufs, o[1]) or bufs[o[1]][0] != "save":
                    continue
                chk.append("trunc")
            elif k == "kill":
                for d in (ws, parsers, slots, bufs):
                    for n in [n for n in d if n.startswith(pre)]:
                        del d[n]
                chk.append(None)
            else:
                chk.append(None)
            prog.append([t, o])
        return prog, core, chk

    @staticmethod
    def labelled(p):
        if p[0] != "parsefresh":
            return False
        tx = p[6]
        if p[2] == "vw-text":
            return any(x[0] not in "|'" and not x.startswith("shared") for x in tx.split("\n"))
        return '"label"' in tx or '"_label_cost"' in tx

    def execute(self, sc, ctx):
        prog, core, chk = self.translate(sc, ctx)
        ctx.write("pyjob.json", json.dumps({"prog": prog, "gc": sc["gc"]}))
        ctx.rm("pylog.json")
        p = server(ctx)
        p.stdin.write(ctx.dir + "\n")
        p.stdin.flush()
        rc = p.stdout.readline().strip()
        if rc == "":
            _SRV.clear()
            raise HarnessError("python server died")
        st = ctx.stats
        st.c["runs"] += 1
        st.c["python_runs"] = st.c.get("python_runs", 0) + 1
        st.c["steps"] += len(prog)
        sw = sum(1 for a, b in zip(prog, prog[1:]) if a[0] != b[0])
        st.c["switches"] += sw
        st.hashes.add(hash64(repr([t for t, _ in prog])))
        st.maxthreads = max(st.maxthreads, len({t for t, _ in prog}))
        for t, o in prog:
            f = {"gc": "collection_point", "kill": "task_killed", "cycle": "cyclic_garbage", "bad": "malformed_input", "trunc": "truncated_model", "wrong": "failing_call", "bulk": "mass_recycling"}.get(o[0])
            if f:
                st.faults[f] = st.faults.get(f, 0) + 1
        if sw:
            ctx.mark(json.dumps(prog))
        if rc == "70":
            raise HarnessError("python client program: " + (ctx.read("pyerr.txt") or b"")[-1500:].decode("utf8", "replace"))
        if rc != "0":
            raise Violation("crashed", "the Python process ends with status %s" % rc)
        log = json.loads(ctx.read("pylog.json"))
        extra = log.pop()
        if extra:
            raise Violation("object_changed", "a label or prediction object kept by the Python program does not read back as it was: %s" % json.dumps(extra)[:300])
        _, res = ctx.core("core", {"setup": core, "threads": [], "final": []})
        ref = res["setup"]
        for n, ((t, o), c, got) in enumerate(zip(prog, chk, log)):
            what = "operation %d (task %d: %s)" % (n, t, json.dumps(o)[:300])
            if isinstance(got, list) and got and got[0] == "harness":
                raise HarnessError("%s: %s" % (what, got))
            if c is None:
                if got is not None:
                    raise Violation("op_failed", "%s: %s" % (what, str(got)[:300]))
                continue
            if c == "trunc":
                if got != "failed":
                    raise Violation("truncated_accepted", "%s: loading a cut model from Python succeeds" % what)
                continue
            if c == "wrong":
                if not isinstance(got, list) or got[0] not in ("err", "panic"):
                    raise Violation("wrong_label_accepted", "%s: a label of the wrong type is accepted (%s)" % (what, str(got)[:200]))
                continue
            i, how = c
            want = ref[i]
            ctx.probe("compared " + o[0])
            if how == "outcome":
                if (got[0] == "ok") != (want[0] == "ok") or (got[0] == "ok" and got != want):
                    raise Violation("error_differs", "%s: Python %s, core library %s" % (what, str(got)[:300], str(want)[:300]))
                if got[0] == "err" and got[1] != want[1]:
                    raise Violation("error_differs", "%s: Python reports %s, core library %s" % (what, str(got)[:300], str(want)[:300]))
                continue
            if how == "file":
                if got is not None:
                    raise Violation("op_failed", "%s: %s" % (what, str(got)[:300]))
                # only the content at the end is on disk: later saves use other names
                if want[0] != "ok" or want[1] != ref[i - 1]:
                    raise Violation("model_differs", "%s: the model saved from Python is not the core library's (%s, %s)" % (what, want[:2], ref[i - 1]))
                continue
            if how == "json":
                try:
                    g = json.loads(got)
                except (TypeError, ValueError):
                    raise Violation("op_failed", "%s: %s" % (what, str(got)[:300]))
                if g != want:
                    raise Violation("model_differs", "%s: the JSON model seen from Python is not the core library's" % what)
                continue
            if how == "load":
                if (got == "ok") != (want == "ok"):
                    raise Violation("load_differs", "%s: Python %s, core library %s" % (what, str(got)[:300], str(want)[:300]))
                if got != "ok":
                    return
                continue
            if isinstance(want, list) and want and want[0] == "panic" and isinstance(got, list) and got[0] == "panic":
                raise Violation("panic", "%s: both panic: %s" % (what, got[1]))
            if got != want:
                raise Violation("differs", "%s: Python %s, core library %s" % (what, str(got)[:300], str(want)[:300]))

    def shrinks(self, sc):
        for b in list_shrinks(sc["prog"]):
            yield dict(sc, prog=b)
        if sc["gc"]:
            yield dict(sc, gc=None)
        ts = {t for t, _ in sc["prog"]}
        if len(ts) > 1:
            yield dict(sc, prog=[[0, o] for t, o in sc["prog"]])


PROP = C18()
