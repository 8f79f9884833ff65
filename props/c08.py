"""C08: reading a data stream does not depend on how the bytes arrive."""
import json
from vlib import gen, sim as S, train as T
from vlib.core import Prop, Violation, list_shrinks

JUNK = ["", "leftover", "|a b:2 c\n1 |x", "{\"a\": 1", "\n", "\n\n", "é", "x" * 300]


ODD = [b"\xef\xbb\xbf", b"\xef\xbb\xbf", b"\x00", b"\xc2\x85", b"\xe2\x80\xa8", b"\x0b", b"\x0c", b"\x1c", b"\xff", b"\xc3", b"\xf0\x9f\x98\x80", b"\r", b"\r\n\r\n", b"#", b"\\", b"\xc2\xa0"]


def records(fmt, kind, data):
    """[(text, end offset)] of the complete records, by the documented line structure; text without trailing white space"""
    out, pos = [], 0
    lines = []
    while pos < len(data):
        e = data.find(b"\n", pos)
        e = len(data) if e < 0 else e + 1
        lines.append((data[pos:e], e))
        pos = e
    if fmt != "vw-text":
        return [(l.decode().rstrip(), e) for l, e in lines]
    if kind == "simple":
        return [(l.decode().rstrip(), e) for l, e in lines if l.decode().rstrip()]
    cur = []
    for l, e in lines:
        t = l.decode().rstrip()
        if t:
            cur.append(t)
        elif cur:
            out.append(("\n".join(cur), e))
            cur = []
    if cur:
        out.append(("\n".join(cur), len(data) + 1))
    return out


def complete_before(fmt, kind, data, n):
    """records certainly complete once the first n bytes have arrived"""
    k = 0
    for t, e in records(fmt, kind, data):
        if e <= n and (e < len(data) or data.endswith(b"\n")):
            k += 1
    return k


class C08(Prop):
    id = "C08"
    rule = ("A scenario is a byte stream (examples in one of the formats with blank lines, CRLF, trailing white space, with or without a final newline) delivered to the real chunk reader "
            "through simulated reads of seeded sizes (1 byte upwards), interrupted calls and an I/O error at a seeded byte, with seeded leftover contents in the reused buffers; or to the real "
            "`reml train` with seeded short and interrupted reads. The sequence of examples is compared with the line structure of the bytes. Non-trivial: more than one read or a fault; distinct by "
            "scenario and plan.")
    quick_n = 14000
    thorough_n = 100000

    def scenario(self, rng, tier, i):
        n = rng.choice([0, 1, 2, 3, 6, 12])
        w = gen.workload(rng, n, n, allow_ew=False)
        if i % 5 == 4:
            n = rng.choice([1, 10, 40, 90])
            w = gen.maybe_big(rng, gen.workload(rng, n, n, allow_ew=False), .2, kinds=("many", "long", "long", "actions"))
            vs, sims = [], {}
            for k in range(3):
                v = T.variant(rng, threads=[0, 0, 1, 2])
                v["sim"] = "v%d" % k
                v["model"] = False
                s = gen.sched(rng, *gen.est(w))
                s["rules"] = [["data", "read_short", rng.choice([.5, 1.0])], ["data", "read_eintr", rng.choice([0, .2, .5])]]
                if k == 2:
                    s["rules"].append(["data", "read_eio", rng.choice([.05, .3])])
                vs.append(v)
                sims[v["sim"]] = s
            return {"mode": "cli", "w": w, "variants": vs, "sims": sims}
        w = gen.maybe_big(rng, w, .04, kinds=("many", "long", "actions"), size=.5)
        data = gen.data_bytes(w)
        if rng.random() < .02:
            return self.huge(rng, w)
        # white space where the line structure allows it
        if w["format"] == "vw-text" and rng.random() < .5:
            L = data.split(b"\n")
            L = [l + rng.choice([b"", b"", b" ", b"  ", b"\t", b"\r"]) for l in L[:-1]] + L[-1:]
            for _ in range(rng.choice([0, 1, 3])):
                L.insert(rng.randrange(len(L)) if w["kind"] == "simple" else rng.choice([0] + [j for j, l in enumerate(L[:-1]) if not l.strip()]), rng.choice([b"", b" ", b"\r"]))
            data = b"\n".join(L)
        odd = rng.random() < .15
        if odd:  # bytes with a meaning to some readers: byte order marks, NUL, other line ends, text that is not UTF-8
            L = data.split(b"\n")
            x = rng.choice(ODD)
            for _ in range(rng.choice([1, 2, 5])):
                j = rng.randrange(len(L))
                k = rng.choice([0, 0, 0, len(L[j]), rng.randrange(len(L[j]) + 1)])
                L[j] = L[j][:k] + x + L[j][k:]
                x = rng.choice([x, x, rng.choice(ODD)])
            data = b"\n".join(L)
        plans = [{"plan": [], "bufs": []}]
        for _ in range(7):
            style = rng.choice(["one", "small", "mixed", "big"])
            plan, sent = [], 0
            fail = not odd and rng.random() < .35
            failat = rng.randrange(len(data) + 1) if fail else None
            while sent < len(data) + 1 and len(plan) < 40000:
                if rng.random() < .1:
                    plan.append(-1)
                    continue
                k = {"one": 1, "small": rng.randrange(1, 9), "mixed": rng.choice([1, 2, 7, 64, 500]), "big": rng.choice([100, 1000, 5000])}[style]
                if failat is not None and sent + k > failat:
                    k = failat - sent
                    if k > 0:
                        plan.append(k)
                    plan.append(-2)
                    break
                plan.append(k)
                sent += k
            if not fail and rng.random() < .3:
                plan += [-1, -1]
            plans.append({"plan": plan, "bufs": rng.choice([[], [rng.choice(JUNK)], [rng.choice(JUNK), rng.choice(JUNK), rng.choice(JUNK)]])})
        return {"mode": "lib", "format": w["format"], "kind": w["kind"], "data": data.hex(), "plans": plans, "odd": odd}

    def huge(self, rng, w):
        """lines beyond every buffer size: 64 KiB and more"""
        ch = list(w["chunks"]) or [gen.example(rng, w["format"], w["kind"], w["meta"])]
        k = rng.randrange(len(ch))
        n = rng.choice([8000, 9000, 16300, 40000, 66000, 132000, 300000])
        pad = "".join(rng.choice("abcdefgh") for _ in range(50))
        if w["format"] == "vw-text":
            ch[k] += " |long " + " ".join("%s%d" % (pad, i) for i in range(n // 55))
        else:
            ch[k] = ch[k].rstrip()[:-1] + (", " if len(ch[k].strip()) > 2 else "") + '"comment": "' + (pad * (n // 50)) + '"}'
        data = gen.data_bytes(dict(w, chunks=ch))
        plans = [{"plan": [], "bufs": []}]
        for _ in range(4):
            plan, sent = [], 0
            failat = rng.randrange(len(data) + 1) if rng.random() < .35 else None
            c = rng.choice([1000, 4096, 8192, 65536, 100000])
            while sent < len(data) + 1:
                if rng.random() < .05:
                    plan.append(-1)
                    continue
                x = rng.choice([c, c, c + 1, c - 1, rng.randrange(1, c)])
                if failat is not None and sent + x > failat:
                    plan += [failat - sent] * (failat > sent) + [-2]
                    break
                plan.append(x)
                sent += x
            plans.append({"plan": plan, "bufs": rng.choice([[], [rng.choice(JUNK)], ["y" * rng.choice([70000, 5])]])})
        return {"mode": "lib", "format": w["format"], "kind": w["kind"], "data": data.hex(), "plans": plans}

    def execute(self, sc, ctx):
        if sc["mode"] == "cli":
            return self.cli(sc, ctx)
        data = bytes.fromhex(sc["data"])
        if sc.get("odd"):
            return self.odd(sc, ctx)
        try:
            want = [t for t, e in records(sc["format"], sc["kind"], data)]
        except UnicodeDecodeError:
            return
        ops = [["chunks", sc["format"], sc["kind"], sc["data"], p["plan"], p["bufs"]] for p in sc["plans"]]
        _, res = ctx.core("run", {"setup": ops, "threads": [], "final": []})
        for p, log in zip(sc["plans"], res["setup"]):
            if log and log[0] == "panic":
                raise Violation("panic", "reading panicked: %s (reads %s)" % (log[1], str(p["plan"])[:200]), "run")
            end = log[-1]
            got = [x.rstrip() for x in log[:-1]]
            fails = -2 in p["plan"]
            if len(p["plan"]) > 1 or p["bufs"]:
                ctx.mark(sc["data"], json.dumps(p))
            for x in p["plan"]:
                if x == -1:
                    ctx.probe("interrupted reads")
                elif x == -2:
                    ctx.probe("read errors")
                else:
                    ctx.probe("partial reads")
            what = "reads %s, buffers %s" % (str(p["plan"])[:160], str(p["bufs"])[:80])
            if not fails or (end[0] == "eof" and not end[1]):
                if end[0] != "eof":
                    raise Violation("error_without_fault", "%s: %s" % (what, end), "run")
                if got != want:
                    k = next((j for j in range(min(len(got), len(want))) if got[j] != want[j]), min(len(got), len(want)))
                    raise Violation("records_differ", "%s: %d examples read, the stream holds %d; first difference at %d: %r, expected %r" % (
                        what, len(got), len(want), k, got[k:k + 1], want[k:k + 1]), "run")
                continue
            if end[0] != "err":
                raise Violation("error_as_eof", "%s: the read error was not reported (%s after %d examples)" % (what, end, len(got)), "run")
            n = end[2]  # bytes that had arrived
            lo = complete_before(sc["format"], sc["kind"], data, n)
            if got != want[:len(got)] or len(got) != lo:
                raise Violation("records_before_error", "%s: %d examples before the error, %d were complete: %r, expected %r" % (what, len(got), lo, got[-1:], want[max(0, lo - 1):lo]), "run")

    def odd(self, sc, ctx):
        """what such bytes mean is left to the reader, but it must not depend on how they arrive"""
        ops = [["chunks", sc["format"], sc["kind"], sc["data"], p["plan"], p["bufs"]] for p in sc["plans"]]
        _, res = ctx.core("run", {"setup": ops, "threads": [], "final": []})
        want = None
        for p, log in zip(sc["plans"], res["setup"]):
            got = log if log and log[0] == "panic" else log[:-1] + [log[-1][0]]
            if want is None:
                want = got
                continue
            ctx.mark(sc["data"], json.dumps(p))
            ctx.probe("unusual bytes")
            if got != want:
                k = next((j for j in range(min(len(got), len(want))) if got[j] != want[j]), min(len(got), len(want)))
                raise Violation("depends_on_reads", "reads %s, buffers %s: record %d is %r, but read at once it is %r" % (
                    str(p["plan"])[:160], str(p["bufs"])[:80], k, got[k:k + 1], want[k:k + 1]), "run")

    def cli(self, sc, ctx):
        w = sc["w"]
        ref = T.reference(ctx, w, "pl")
        T.put(ctx, w)
        for v in sc["variants"]:
            ctx.rm(T.PREDS)
            r = ctx.reml(v["sim"], T.argv(w, v), sc["sims"][v["sim"]])
            if r.hung():
                raise Violation("hang", "%s: %s" % (T.describe(v), r.how()), v["sim"])
            if r.faults.get("read_eio"):
                if r.rc == 0:
                    raise Violation("error_as_eof", "%s: read error, but training reports success" % T.describe(v), v["sim"])
                continue
            if r.rc != 0:
                raise Violation("error_without_fault", "%s, faults %s: %s %s" % (T.describe(v), r.faults, r.how(), T.tail(r)), v["sim"])
            d = T.same_preds(ctx.read(T.PREDS), ref.jsons)
            if d:
                raise Violation("records_differ", "%s, faults %s: %s" % (T.describe(v), r.faults, d), v["sim"])

    def shrinks(self, sc):
        if sc["mode"] == "cli":
            yield from T.variant_shrinks(sc)
            yield from T.w_shrinks(sc)
            return
        if len(sc["plans"]) > 1:
            for p in sc["plans"][(1 if sc.get("odd") else 0):]:
                if not sc.get("odd") or len(sc["plans"]) > 2:
                    yield dict(sc, plans=[sc["plans"][0], p] if sc.get("odd") else [p])
            return
        p = sc["plans"][0]
        if p["bufs"]:
            yield dict(sc, plans=[dict(p, bufs=[])])
        for q in list_shrinks(p["plan"]):
            if (-2 in q) == (-2 in p["plan"]):
                yield dict(sc, plans=[dict(p, plan=q)])
        L = bytes.fromhex(sc["data"]).split(b"\n")
        for M in list_shrinks(L):
            yield dict(sc, data=b"\n".join(M).hex())


PROP = C08()
