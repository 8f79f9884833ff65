"""C10: an object pool never hands one object to two users and never loses one."""
import json
from vlib import gen, sim as S
from vlib.core import Prop, Violation, list_shrinks


class C10(Prop):
    id = "C10"
    need = {"coresim"}
    rule = ("A scenario is one to eight threads taking objects from and returning them to one real Pool and querying its size, in a seeded order under a seeded schedule with preemption at "
            "every branch of the library and every lock operation. Objects carry an identity; every operation records the simulation step before and after it. The history is judged against a "
            "sequential model of a multiset: certain ownership intervals of one object never overlap, sizes lie within the bounds the concurrent operations allow, a take finds an "
            "object if one was certainly there, and at the end exactly the objects returned and not taken again are left. Non-trivial: at least one context switch; distinct by schedule hash.")
    real = ["reductionml-core object pool (and the standard library mutex)"]
    quick_n = 42000
    thorough_n = 3000000

    def scenario(self, rng, tier, i):
        nt = rng.choice([1, 2, 2, 2, 3, 3, 4, 6, 8])
        pre = rng.choice([0, 0, 1, 2, 5])
        if rng.random() < .006:
            pre = rng.choice([40, 130, 300, 1100, 2100, 5000])  # beyond every bound one might put on idle objects
        threads = []
        for t in range(nt):
            ops, held, n = [], [], 0
            p = rng.choice([.35, .5, .5, .65])
            for k in range(rng.choice([3, 6, 12, 30, 80])):
                q = rng.random()
                if q < .12:
                    ops.append(["plen"])
                elif q < .2:
                    ops.append(["pempty"])
                elif held and rng.random() < p:
                    ops.append(["pret", held.pop(rng.randrange(len(held)))])
                else:
                    n += 1
                    ops.append(["pget", "o%d" % n])
                    held.append("o%d" % n)
            if rng.random() < .6:
                ops += [["pret", h] for h in held]
            threads.append(ops)
        ns = sum(map(len, threads))
        return {"pre": pre, "threads": threads, "sims": {"run": gen.sched(rng, 2000 + 1500 * ns, 20 + 6 * ns)}}

    def execute(self, sc, ctx):
        setup = [["pget", "i%d" % k] for k in range(sc["pre"])] + [["pret", "i%d" % k] for k in range(sc["pre"])]
        job = {"setup": setup, "threads": sc["threads"], "final": [["plen"], ["pempty"], ["pdrain"], ["plen"], ["pempty"], ["pget", "z"]]}
        r, res = ctx.core("run", job, dict(sc["sims"]["run"], max_steps=400000000, fair_after=10000000), must=False)
        if r.hung():
            raise Violation("hang", "threads using one pool: %s" % r.how(), "run")
        if res is None:
            raise Violation("abnormal", "threads using one pool: %s %s" % (r.how(), r.stderr[-300:].decode("utf8", "replace")), "run")
        H = []
        for t, part in enumerate([res["setup"]] + res["threads"]):
            for e in part:
                if e is None:
                    continue
                if e[0] == "panic":
                    raise Violation("panic", "a pool operation panicked: %s" % e[1], "run")
                H.append([t - 1] + e)
        gets = [h for h in H if h[1] == "pget"]
        rets = [h for h in H if h[1] == "pret"]
        reuse = [h for h in gets if h[5] > 0]
        if reuse:
            ctx.probe("takes that reused an object", len(reuse))
        # ownership of each object
        by = {}
        for h in gets:
            by.setdefault(h[4], []).append(("get", h))
        for h in rets:
            by.setdefault(h[4], []).append(("ret", h))
        left = set()
        for oid, ev in by.items():
            # an object's operations are totally ordered by the value it carries and by who holds it
            g = sorted((h for k, h in ev if k == "get"), key=lambda h: h[5])
            rr = sorted((h for k, h in ev if k == "ret"), key=lambda h: h[2])
            if [h[5] for h in g] != list(range(len(g))):
                raise Violation("duplicated", "object %d: takes saw it used %s times" % (oid, [h[5] for h in g]), "run")
            for k in range(1, len(g)):
                if k > len(rr) or g[k][3] < rr[k - 1][2]:
                    raise Violation("two_users", "object %d was handed to thread %d while thread %d still held it" % (oid, g[k][0], g[k - 1][0]), "run")
            if len(rr) > len(g):
                raise Violation("two_users", "object %d was returned %d times but taken %d times" % (oid, len(rr), len(g)), "run")
            if len(rr) == len(g):
                left.add(oid)
        # size queries and takes, within what concurrent operations allow
        for h in H:
            if h[1] in ("plen", "pempty") or (h[1] == "pget" and h[5] == 0):
                a, z = h[2], h[3]
                lo = sum(1 for x in rets if x[3] < a) - sum(1 for x in reuse if x[2] < z)
                hi = sum(1 for x in rets if x[2] < z) - sum(1 for x in reuse if x[3] < a)
                if h[1] == "plen" and not lo <= h[4] <= hi:
                    raise Violation("size", "size %d reported when the pool held between %d and %d objects" % (h[4], lo, hi), "run")
                if h[1] == "pempty" and (h[4] and lo > 0 or not h[4] and hi <= 0):
                    raise Violation("size", "is_empty() is %s when the pool held between %d and %d objects" % (h[4], lo, hi), "run")
                if h[1] == "pget" and lo > 0:
                    raise Violation("not_available", "a take got a new object while at least %d returned objects were available throughout" % lo, "run")
        f = res["final"]
        if f[0][3] != len(left) or f[1][3] != (not left):
            raise Violation("size", "at the end size is %s and is_empty %s, but %d objects were returned and not taken again" % (f[0][3], f[1][3], len(left)), "run")
        if sorted(f[2]) != sorted(left):
            raise Violation("lost", "at the end the pool holds objects %s, which it should not, and lacks objects %s, or holds one twice" % (sorted(set(f[2]) - left)[:20], sorted(left - set(f[2]))[:20]), "run")
        if f[3][3] != 0 or f[4][3] is not True or f[5][4] != 0:
            raise Violation("empty_pool", "an emptied pool has size %s, is_empty %s, and gave an object used %s times" % (f[3][3], f[4][3], f[5][4]), "run")

    def shrinks(self, sc):
        t = sc["threads"]
        if sc["pre"]:
            yield dict(sc, pre=0)
        for i in range(len(t)):
            if len(t) > 1:
                yield dict(sc, threads=t[:i] + t[i + 1:])
        for i in range(len(t)):
            for c in list_shrinks(t[i]):
                yield dict(sc, threads=t[:i] + [c] + t[i + 1:])


PROP = C10()
