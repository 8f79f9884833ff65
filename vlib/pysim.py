"""Runs client programs against the real Python package.  One process per worker; every program runs in a fork of it.

The program is a list of [task, operation].  Each task is a real thread that only runs when the scheduler hands it the
baton, so the list is the schedule.  Collection points, object lifetimes and killed tasks are operations of the program.
Nothing here judges: the log is compared with the core library's by the driver."""
import gc, json, os, signal, struct, sys, threading


def main(stage):
    sys.path.insert(0, stage)
    import reductionml as R
    from reductionml import _reductionml as M
    gc.collect()
    gc.freeze()
    out = os.fdopen(os.dup(1), "w")
    for line in sys.stdin:
        d = line.rstrip("\n")
        pid = os.fork()
        if pid == 0:
            rc = 0
            try:
                os.chdir(d)
                signal.alarm(120)
                run(R, M)
            except BaseException:
                import traceback
                with open("pyerr.txt", "w") as f:
                    traceback.print_exc(file=f)
                rc = 70
            os._exit(rc)
        _, st = os.waitpid(pid, 0)
        out.write("%d\n" % os.waitstatus_to_exitcode(st))
        out.flush()


def bits(x):
    if x != x:
        return "nan"
    if x == 0:
        return 0
    return struct.unpack("<I", struct.pack("<f", x))[0]


class Kill(BaseException):
    pass


def run(R, M):
    job = json.load(open("pyjob.json"))
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 2)
    G, log = {}, []
    FT = {"vw-text": R.FormatType.VwText, "json": R.FormatType.Json, "dsjson": R.FormatType.DsJson}
    if job.get("gc"):
        gc.set_threshold(*job["gc"])
    else:
        gc.disable()

    held = []

    def pred(p):
        v = value(p)
        if len(held) < 3000:
            held.append((value, p, v))      # looked at again at the end
        return v

    def value(p):
        if isinstance(p, R.ScalarPred):
            return ["scalar", bits(p.prediction), bits(p.raw_prediction)]
        if isinstance(p, R.ActionScoresPred):
            return ["scores", [[a, bits(s)] for a, s in p.value]]
        if isinstance(p, R.ActionProbsPred):
            return ["probs", [[a, bits(s)] for a, s in p.value]]
        return ["other", repr(p)]

    def label(l):
        if l is None:
            return None
        if isinstance(l, R.SimpleLabel):
            return ["simple", bits(l.value), bits(l.weight)]
        return ["cb", l.action, bits(l.cost), bits(l.probability)]

    def mk(l):
        x = make(l)
        held.append((label, x, ["cb", l[1], bits(l[2]), bits(l[3])] if l[0] == "cb" else ["simple", bits(l[1]), bits(l[2] if l[0] == "simple" else 1.0)]))
        return x

    def make(l):
        if l[0] == "simple":
            return R.SimpleLabel(l[1], l[2])
        if l[0] == "simple1":
            return R.SimpleLabel(l[1])
        return R.CbLabel(l[1], l[2], l[3])

    def step(L, o):
        def where(n):
            return G if n.startswith("g") else L

        def get(n):
            return where(n)[n]

        k = o[0]
        if k == "ws":
            where(o[1])[o[1]] = R.Workspace.create_from_config(o[2])
            return "ok"
        if k == "parser":
            w = get(o[2])
            if o[4]:
                t = w.entry_reduction_types
                p = M.create_parser(FT[o[3]], t.input_features_type, t.input_label_type, o[4][0], o[4][1])
            else:
                p = w.create_parser(FT[o[3]])
            where(o[1])[o[1]] = p
            return None
        if k == "parse":
            f, l = get(o[2]).parse(json.loads(o[3]) if o[4] else o[3])
            where(o[1])[o[1]] = (f, l)
            if l is not None:
                held.append((label, l, label(l)))
            return ["ok", label(l)]
        if k == "bulk":
            p, w, keep, got = get(o[1]), get(o[2]), [], []
            x = json.loads(o[3]) if o[4] else o[3]
            for j in range(o[5]):
                keep.append(p.parse(x)[0])
            for f in keep[:2] + keep[-2:]:
                r = value(w.predict(f))
                if r not in got:
                    got.append(r)
            while keep:
                keep.pop(len(keep) // 2 if o[6] else -1)
            return got[0] if len(got) == 1 else got
        if k == "bad":
            x = get(o[2]).parse(o[3])
            return ["ok", label(x[1])]
        if k == "empty":
            where(o[1])[o[1]] = ((R.CbAdfFeatures() if o[2] == "cb" else R.SparseFeatures()), None)
            return None
        if k == "predict":
            return pred(get(o[1]).predict(get(o[2])[0]))
        if k in ("learn", "pl"):
            f, l = get(o[2])
            if o[3] is not None:
                l = mk(o[3])
            if k == "learn":
                get(o[1]).learn(f, l)
                return "ok"
            return pred(get(o[1]).predict_then_learn(f, l))
        if k == "wrong":
            f = get(o[2])[0]
            w = get(o[1])
            if o[3] == "learn":
                w.learn(f, mk(o[4]))
                return "ok"
            return pred(w.predict_then_learn(f, mk(o[4])))
        if k == "alias":
            where(o[1])[o[1]] = get(o[2])
            return None
        if k == "del":
            del where(o[1])[o[1]]
            return None
        if k == "cycle":
            c = [where(o[1]).pop(o[1])]
            c.append(c)
            return None
        if k == "gc":
            gc.collect(o[1])
            return None
        if k == "label":
            return label(get(o[1])[1])
        if k == "save":
            b = get(o[1]).serialize()
            with open("py_%s" % o[2], "wb") as f:
                f.write(bytes(b))
            where(o[2])[o[2]] = b
            return None
        if k == "load":
            where(o[1])[o[1]] = R.Workspace.create_from_model(get(o[2]))
            return "ok"
        if k == "trunc":
            try:
                R.Workspace.create_from_model(get(o[1])[:o[2]])
            except BaseException:
                return "failed"
            return "loaded"
        if k == "jsave":
            j = get(o[1]).serialize_to_json()
            where(o[2])[o[2]] = j
            return json.dumps(j, sort_keys=True)
        if k == "jload":
            where(o[1])[o[1]] = R.Workspace.create_from_json_model(get(o[2]))
            return "ok"
        if k == "types":
            t = get(o[1]).entry_reduction_types
            return [str(t.input_features_type), str(t.input_label_type), str(t.output_prediction_type)]
        if k == "kill":
            raise Kill()
        raise RuntimeError("harness: unknown op %s" % k)

    class Task:
        def __init__(self):
            self.go, self.done = threading.Semaphore(0), threading.Semaphore(0)
            self.op, self.stop = None, False
            self.t = threading.Thread(target=self.main, daemon=True)
            self.t.start()

        def main(self):
            L = {}
            while True:
                self.go.acquire()
                if self.stop:
                    break
                try:
                    r = step(L, self.op)
                except Kill:
                    log.append(None)
                    L.clear()
                    break
                except KeyError as e:
                    r = ["harness", repr(e)]
                except Exception as e:
                    r = ["err", str(e)]
                except BaseException as e:
                    r = ["panic", str(e)]
                log.append(r)
                del r
                self.done.release()
            self.done.release()

    tasks = {}
    for t, o in job["prog"]:
        if t not in tasks:
            tasks[t] = Task()
        x = tasks[t]
        x.op = o
        x.go.release()
        x.done.acquire()
        if o[0] == "kill":
            x.t.join()
            del tasks[t]
    log.append([[v, f(x)] for f, x, v in held if f(x) != v][:3])
    with open("pylog.json", "w") as f:
        json.dump(log, f)


if __name__ == "__main__":
    main(sys.argv[1])
