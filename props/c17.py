"""C17: a truncated model file is rejected, never silently accepted."""
import json
from vlib import gen, sim as S, train as T
from vlib.core import Prop, Violation


class C17(Prop):
    id = "C17"
    rule = ("A scenario trains a model of a seeded configuration for a seeded history, cuts the saved file at seeded lengths (every length for some models, else a sample with emphasis on both "
            "ends), and loads each prefix with the library; some prefixes also go through `reml train -i`, `reml export-model` under read faults, which must end with a failing status and leave no "
            "output model. Non-trivial: every prefix shorter than the file; distinct by scenario.")
    quick_n = 15000
    thorough_n = 40000

    def scenario(self, rng, tier, i):
        n = rng.choice([0, 1, 2, 5, 10, 20])
        w = gen.workload(rng, n, n, bits=rng.choice([2, 3, 4, 5, 6, 8]), allow_ew=False, binary=rng.random() < .1)
        if w["meta"].get("binary"):
            pass
        cuts = [rng.random() for _ in range(rng.choice([1, 2, 3]))]
        sims, runs = {}, []
        for k in range(rng.choice([0, 1, 2, 3])):
            how = rng.choice(["train", "export", "train", "export", "full"])
            s = gen.sched(rng, 60000, 300)
            s["rules"] = gen.read_rules(rng, "cut.bin")
            if how != "full" and rng.random() < .2:
                s["rules"].append(["cut.bin", "read_eio", 1.0, 0, 1])
            sims["r%d" % k] = s
            runs.append({"how": how, "sim": "r%d" % k, "cut": rng.random(),
                         "special": rng.choice([0, 0, 1, 2, 8, 16, 512, 4096, 8192, -1, -2, -8]) if rng.random() < .5 else None, "threads": rng.choice([0, 1, 3]), "old": rng.random() < .5})
        return {"w": w, "all": rng.random() < .3, "seed": rng.getrandbits(30), "runs": runs, "sims": sims}

    def execute(self, sc, ctx):
        import random
        w = sc["w"]
        tx = T.texts(w)
        _, res = ctx.core("train", {"setup": [["ws", "w", w["config"]], ["train", "w", w["format"], tx, "learn"], ["save", "w", "m"], ["buflen", "m"], ["savefile", "w", T.MODEL],
                                              ["jsave", "w", "j"], ["state", "w"]], "threads": [], "final": []})
        L = res["setup"][3]
        rng = random.Random(sc["seed"])
        if sc.get("lens") is not None:
            lens = sc["lens"]
        elif sc["all"] and L < 6000:
            lens = None
        else:
            lens = sorted({rng.randrange(L) for _ in range(150)} | {k for k in range(40)} | {L - 1 - k for k in range(min(L, 80))})
        r, res2 = ctx.core("sweep", {"setup": [["ws", "w", w["config"]], ["train", "w", w["format"], tx, "learn"], ["save", "w", "m"], ["sweep", "m", lens], ["load", "v", "m"], ["state", "v"], ["state", "w"]],
                                     "threads": [], "final": []}, must=False)
        if res2 is None:
            raise Violation("aborted", "loading a truncated model (one of %s lengths below %d bytes) ended the process: %s %s" % ("all" if lens is None else len(lens), L, r.how(), r.stderr[-200:].decode("utf8", "replace")), "sweep")
        log = res2["setup"]
        if log[4] != "ok" or log[5] != log[6]:
            raise Violation("intact_rejected", "the complete model does not load: %s" % log[4], "sweep")
        sw = log[3]
        if isinstance(sw, list):
            raise Violation("aborted", "sweep: %s" % sw, "sweep")
        for k, v in sw["kinds"].items():
            ctx.probe("prefix loads ending in " + k, v)
        ctx.mark(json.dumps(sc))
        if sw["bad"]:
            n, what = sw["bad"][0]
            raise Violation("accepted" if what == "accepted" else "panic", "a model file of %d bytes cut to %d bytes: %s" % (L, n, what if what != "accepted" else "loads as a workspace"), "sweep")
        for run in sc["runs"]:
            ctx.rm("out.bin")
            old = b"previous contents"
            if run["old"]:
                ctx.write("out.bin", old)
            # any length, or one of the lengths a crashed or interrupted copy leaves: nothing, a few bytes, whole blocks, all but a little
            k = int(run["cut"] * L)
            if run["special"] is not None:
                k = min(max(0, run["special"] + (L if run["special"] < 0 else 0)), L - 1)
            full = ctx.read(T.MODEL)
            if full is None or len(full) != L:
                raise Violation("saved", "saving the same workspace twice gives %s and %d bytes" % (full and len(full), L), "train")
            if run["how"] == "full":
                # the undamaged file under the same kinds of short and interrupted reads is accepted
                ctx.write("cut.bin", full)
                r = ctx.reml(run["sim"], ["export-model", "cut.bin"], sc["sims"][run["sim"]])
                try:
                    v = json.loads(r.stdout)
                except ValueError:
                    v = None
                if r.outcome != S.OUT_EXITED or r.rc != 0 or not isinstance(v, dict):
                    raise Violation("intact_rejected", "export-model of the complete model under short reads: %s, %d bytes of output" % (r.how(), len(r.stdout)), run["sim"])
                ctx.probe("export-model runs on a complete file")
                continue
            ctx.write("cut.bin", full[:k])
            T.put(ctx, w)
            if run["how"] == "train":
                a = ["train", "-d", "data", "--data-format", w["format"], "-i", "cut.bin", "-o", "out.bin", "--num-parse-threads", str(run["threads"])]
            else:
                a = ["export-model", "cut.bin"]
            r = ctx.reml(run["sim"], a, sc["sims"][run["sim"]])
            what = "%s with a model file of %d bytes cut to %d" % (a[0], L, k)
            if r.hung():
                raise Violation("hang", "%s: %s" % (what, r.how()), run["sim"])
            if r.outcome == S.OUT_EXITED and r.rc == 0:
                raise Violation("cli_accepted", "%s succeeds" % what, run["sim"])
            if r.rc < 0:
                raise Violation("cli_aborted", "%s: %s" % (what, r.how()), run["sim"])
            if ctx.read("out.bin") != (old if run["old"] else None):
                raise Violation("cli_output", "%s fails but changes the output model" % what, run["sim"])
            if r.stdout.strip():
                raise Violation("cli_output", "%s fails but prints %r" % (what, r.stdout[:100]), run["sim"])
            if not r.stderr.strip():
                raise Violation("cli_silent", "%s fails without any report" % what, run["sim"])
            ctx.probe("%s runs on a truncated file" % a[0])

    def shrinks(self, sc):
        if sc["runs"]:
            yield dict(sc, runs=[], sims={})
            for k in range(len(sc["runs"])):
                yield dict(sc, runs=[sc["runs"][k]], sims={sc["runs"][k]["sim"]: sc["sims"][sc["runs"][k]["sim"]]})
        yield from T.w_shrinks(sc)


PROP = C17()
