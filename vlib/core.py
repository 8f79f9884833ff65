"""The search: seeded scenarios run by parallel workers, minimisation, replay files, evidence."""
import hashlib, json, multiprocessing, os, random, shutil, sys, tempfile, time, traceback
from . import build as B
from . import sim as S
from .sim import HarnessError

VERIF = B.VERIF
EVID = os.environ.get("VERIF_EVIDENCE_DIR", os.path.join(VERIF, "evidence"))
REPLAYS = os.path.join(VERIF, "replays")


class Violation(Exception):
    """cls identifies the kind of failure (used while minimising and against known findings)."""
    def __init__(self, cls, detail, sim=None):
        detail = detail if len(detail) < 2500 else detail[:1800] + " [...] " + detail[-500:]
        Exception.__init__(self, "%s: %s" % (cls, detail))
        self.cls, self.detail, self.sim = cls, detail, sim


class Stats:
    def __init__(self):
        self.c = {"runs": 0, "reml_runs": 0, "core_runs": 0, "steps": 0, "sync_ops": 0, "switches": 0, "sim_ns": 0, "io_ops": 0,
                  "scenarios": 0, "deadlocks": 0, "crashes": 0}
        self.faults, self.probes = {}, {}
        self.keys, self.hashes, self.pairs = set(), set(), 0
        self.maxthreads = 0

    def add(self, o):
        for k, v in o.c.items():
            self.c[k] = self.c.get(k, 0) + v
        for d, e in ((self.faults, o.faults), (self.probes, o.probes)):
            for k, v in e.items():
                d[k] = d.get(k, 0) + v
        self.keys |= o.keys
        self.hashes |= o.hashes
        self.pairs |= o.pairs
        self.maxthreads = max(self.maxthreads, o.maxthreads)


class Ctx:
    def __init__(self, base, ext=None):
        self.base = base
        self.dir = base
        self.stats = Stats()
        self.capture = False
        self.captured = {}
        self.ext = ext
        self.runs = {}

    # ---- files
    def fresh(self):
        for n in os.listdir(self.base):
            p = os.path.join(self.base, n)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p)
            else:
                os.unlink(p)
        self.dir = self.base
        self.captured = {}
        self.runs = {}

    def path(self, n):
        return os.path.join(self.dir, n)

    def write(self, n, data):
        if isinstance(data, str):
            data = data.encode()
        with open(self.path(n), "wb") as f:
            f.write(data)

    def read(self, n):
        try:
            with open(self.path(n), "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None

    def rm(self, n):
        try:
            os.unlink(self.path(n))
        except FileNotFoundError:
            pass

    # ---- bookkeeping
    def probe(self, k, n=1):
        self.stats.probes[k] = self.stats.probes.get(k, 0) + n

    def mark(self, *key):
        self.stats.keys.add(hash64(repr(key)))

    def _account(self, r, what, name, key):
        st = self.stats
        st.c["runs"] += 1
        st.c[what] += 1
        st.c["steps"] += r.steps
        st.c["sync_ops"] += r.syncs
        st.c["switches"] += r.switches
        st.c["sim_ns"] += max(0, r.clock - 1700000000 * 10**9) if r.clock > 10**18 else r.clock
        st.c["io_ops"] += r.ioops
        if r.outcome == S.OUT_DEADLOCK:
            st.c["deadlocks"] += 1
        if r.outcome == S.OUT_CRASHED:
            st.c["crashes"] += 1
        for k, v in r.faults.items():
            st.faults[k] = st.faults.get(k, 0) + v
        st.hashes.add(r.hash)
        m = 0
        if any(r.pairs):
            m = int.from_bytes(b"".join(x.to_bytes(8, "little") for x in r.pairs), "little")
        st.pairs |= m
        st.maxthreads = max(st.maxthreads, r.nthreads)
        if r.switches > 0 or r.faults:
            st.keys.add(hash64("%d|%s" % (r.hash, key)))
        self.runs[name] = r
        if self.capture:
            self.captured[name] = {"devs": r.devs, "hash": r.hash, "outcome": r.outcome, "rc": r.rc, "steps": r.steps, "devovf": r.devovf}

    # ---- simulated processes
    def reml(self, name, argv, sim, timeout=None, binary=None, env=None):
        r = S.run(binary or B.REML, argv, sim, self.dir, want_devs=self.capture, timeout=timeout, env=env)
        self._account(r, "reml_runs", name, repr(argv))
        return r

    def core(self, name, job, sim=None, must=True):
        """Runs a client program over the core library; r.res is its log."""
        self.write("job.json", json.dumps(job))
        self.rm("result.json")
        r = S.run(B.CORESIM, [], dict({"max_steps": 30000000000, "fair_after": 100000000}, **(sim or {"seed": 1, "strat": 0})), self.dir, want_devs=self.capture)
        self._account(r, "core_runs", name, "")
        if r.outcome != S.OUT_EXITED or r.rc != 0:
            if b"harness:" in r.stderr:
                raise HarnessError("coresim: %r" % r.stderr[-800:])
            if must:
                raise Violation("core_abnormal", "the library client program ended abnormally: %s %s" % (r.how(), r.stderr[-300:].decode("utf8", "replace")), name)
            return r, None
        res = json.loads(self.read("result.json"))
        for part in [res["setup"], res["final"]] + res["threads"]:
            for e in part:
                if isinstance(e, list) and e and e[0] == "panic" and str(e[1]).startswith("harness:"):
                    raise HarnessError(str(e))
        return (r, res)


def hash64(s):
    return int.from_bytes(hashlib.blake2b(s.encode() if isinstance(s, str) else s, digest_size=8).digest(), "little")


class Prop:
    """One property: how scenarios are generated, executed against the real code, and judged."""
    id = None
    need = {"reml", "coresim"}
    rule = ""
    real = ["reductionml-core", "reductionml-cli (reml binary)"]
    stubs = ["futex, thread creation and scheduling (simulated)", "clock and getrandom (simulated)", "system calls on tracked files (pass-through with seeded faults)"]
    assumptions = []
    quick_n = 400
    thorough_n = 20000

    def scenario(self, rng, tier, i):
        raise NotImplementedError

    def execute(self, sc, ctx):
        raise NotImplementedError

    def shrinks(self, sc):
        """candidate smaller scenarios, most aggressive first"""
        return iter(())

    def prepare(self):
        pass


def chunk_shrinks(w, key="chunks"):
    n = len(w[key])
    k = n
    while k >= 1:
        for a in range(0, n, k):
            yield dict(w, **{key: w[key][:a] + w[key][a + k:]})
        k //= 2


def list_shrinks(L):
    n = len(L)
    k = n
    while k >= 1:
        for a in range(0, n, k):
            if k < n or n == 1:
                yield L[:a] + L[a + k:]
        if k == 1:
            break
        k = (k + 1) // 2


# ------------------------------------------------------------------------- workers
def _attempt(prop, sc, ctx):
    """-> None or Violation"""
    ctx.fresh()
    try:
        prop.execute(sc, ctx)
    except Violation as v:
        return v
    return None


_W = {}


def _winit(prop, scratch, seed, tier, deadline):
    _W.update(prop=prop, seed=seed, tier=tier, deadline=deadline)
    d = os.path.join(scratch, "w%05d" % os.getpid())
    os.makedirs(d)
    _W["ctx"] = Ctx(d)


def scenario_for(prop, seed, tier, i):
    rng = random.Random("%s|%s|%d" % (seed, prop.id, i))
    return prop.scenario(rng, tier, i)


def _work(i):
    if time.time() > _W["deadline"]:
        return i, "late", None, None, None
    prop, ctx = _W["prop"], _W["ctx"]
    ctx.stats = Stats()
    try:
        sc = scenario_for(prop, _W["seed"], _W["tier"], i)
        # through JSON once, so that what a replay file holds is exactly what ran
        sc = json.loads(json.dumps(sc))
        ctx.stats.c["scenarios"] += 1
        try:
            v = _attempt(prop, sc, ctx)
        except HarnessError:
            v = _attempt(prop, sc, ctx)  # a machine under load: once more before giving up on a verdict
        if v is not None:
            return i, "viol", (v.cls, v.detail, v.sim), sc, ctx.stats
        return i, "ok", None, (sc if i < 2 else None), ctx.stats
    except HarnessError as e:
        return i, "err", "scenario %d: %s" % (i, e), None, None
    except Exception:
        return i, "err", "scenario %d: %s" % (i, traceback.format_exc()), None, None


# ------------------------------------------------------------------------- known findings
def load_known():
    """known_findings.txt: 'known: property=<id> class=<failure class> match=<substring of the detail> :: what fails'; 'fixed: ...' is a record only"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known:"):
                head, what = line[6:].split("::", 1)
                kv = dict(x.split("=", 1) for x in head.split())
                out.append((kv["property"], kv["class"], kv.get("match", "").replace("\\s", " "), what.strip()))
    return out


def known_for(prop, cls, detail, known):
    for p, c, m, what in known:
        if p == prop and c == cls and m in detail:
            return what
    return None


# ------------------------------------------------------------------------- minimisation
def _same(prop, sc, ctx, cls):
    v = _attempt(prop, json.loads(json.dumps(sc)), ctx)
    return v if v is not None and v.cls == cls else None


def minimise(prop, sc, v, ctx, budget):
    end = time.time() + budget
    log = []
    cls = v.cls
    best, bv = sc, v
    # 1. smaller workload / program, keeping the seeds (and retrying with a few other seeds)
    improved = True
    while improved and time.time() < end:
        improved = False
        for cand in prop.shrinks(best):
            if time.time() > end:
                break
            nv = None
            for k in range(4):
                c = cand if k == 0 else reseed(cand, k)
                if c is None:
                    break
                nv = _same(prop, c, ctx, cls)
                if nv is not None:
                    break
            if nv is not None:
                best, bv = c, nv
                improved = True
                break
    # 2. explicit schedule and fault script in place of the random generator
    ctx.capture = True
    cv = _same(prop, best, ctx, cls)
    cap = dict(ctx.captured)
    ctx.capture = False
    if cv is not None:
        sims = dict(best.get("sims") or {})
        ok = True
        for n, s in sims.items():
            if n in cap and cap[n]["devs"] is not None and not cap[n]["devovf"] and not s.get("script"):
                sims[n] = to_script(s, cap[n]["devs"])
        cand = dict(best, sims=sims)
        nv = _same(prop, cand, ctx, cls)
        if nv is not None:
            best, bv = cand, nv
            # 3. fewer deviations
            for n in sorted(sims, key=lambda n: n != bv.sim):
                cur = list(best["sims"][n].get("script") or [])
                gran = 2
                # try none at all first
                while cur and time.time() < end:
                    size = max(1, len(cur) // gran) if gran > 1 else len(cur)
                    hit = False
                    trial = [[]] if gran == 2 else []
                    trial += [cur[:a] + cur[a + size:] for a in range(0, len(cur), size)]
                    for t in trial:
                        if len(t) >= len(cur) or time.time() > end:
                            continue
                        c = dict(best, sims=dict(best["sims"], **{n: dict(best["sims"][n], script=t)}))
                        nv = _same(prop, c, ctx, cls)
                        if nv is not None:
                            best, bv, cur, hit = c, nv, t, True
                            gran = max(gran - 1, 2)
                            break
                    if not hit:
                        if size == 1:
                            break
                        gran = min(len(cur), gran * 2)
        else:
            log.append("explicit script did not reproduce; the replay file keeps the seed")
    return best, bv, log


def to_script(s, devs):
    keep = {k: s[k] for k in ("seed", "ncpu", "clock_step", "clock_base", "crash_step", "journal", "max_steps", "fair_after") if k in s}
    keep["strat"] = 0
    keep["script"] = [list(d) for d in s.get("devs", [])] + [list(d) for d in devs]
    return keep


def reseed(sc, k):
    sims = sc.get("sims")
    if not sims or not any(s.get("strat") for s in sims.values()):
        return None
    return dict(sc, sims={n: dict(s, seed=(s["seed"] * 31 + k) % (1 << 48)) for n, s in sims.items()})


# ------------------------------------------------------------------------- top level
def scratch_dir():
    for base in ("/dev/shm", tempfile.gettempdir()):
        try:
            st = os.statvfs(base)
            if st.f_bavail * st.f_frsize > 200 << 20 and os.access(base, os.W_OK):
                return tempfile.mkdtemp(prefix="vdst-", dir=base)
        except OSError:
            pass
    return tempfile.mkdtemp(prefix="vdst-")


def check(prop, tier, seed, nworkers=None, n=None, cap=None, first=0, min_budget=None):
    t0 = time.time()
    build_s = B.build(prop.need)
    prop.prepare()
    S.no_aslr()
    scratch = scratch_dir()
    known = load_known()
    total = Stats()
    viols, errs, known_hits, samples = [], [], {}, []
    late = 0
    n = n if n is not None else (prop.quick_n if tier == "quick" else prop.thorough_n)
    # real-time limits only stop the search early; they never decide a verdict
    cap = cap if cap is not None else (330 if tier == "quick" else 3600 * 3)
    nworkers = nworkers or min(16, os.cpu_count() or 4)
    try:
        deadline = time.time() + cap
        mp = multiprocessing.get_context("fork")
        pool = mp.Pool(nworkers, _winit, (prop, scratch, seed, tier, deadline))
        try:
            for i, st, info, sc, stats in pool.imap_unordered(_work, range(first, first + n), chunksize=1):
                if stats is not None:
                    total.add(stats)
                if st == "viol":
                    what = known_for(prop.id, info[0], info[1], known)
                    if what:
                        known_hits[what] = known_hits.get(what, 0) + 1
                    else:
                        viols.append((i, info, sc))
                        if len(viols) >= 3:
                            break
                elif st == "err":
                    errs.append(info)
                    if len(errs) >= 40:
                        break
                elif st == "late":
                    late += 1
                if sc is not None and len(samples) < 2:
                    samples.append(sc)
        finally:
            pool.terminate()
            pool.join()
        search_s = time.time() - t0 - build_s
        replay = None
        if viols:
            viols.sort(key=lambda x: x[0])
            i, info, sc = viols[0]
            d = os.path.join(scratch, "min")
            os.makedirs(d)
            ctx = Ctx(d)
            v0 = Violation(*info)
            try:
                best, bv, log = minimise(prop, sc, v0, ctx, min_budget or (45 if tier == "quick" else 240))
            except HarnessError as e:
                best, bv, log = sc, v0, ["minimisation stopped: %s" % e]
            replay = write_replay(prop, best, bv, ctx, tier, seed, i, log)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    wall = time.time() - t0
    write_evidence(prop, tier, seed, total, n - late, late, len(viols), known_hits, samples, search_s, wall)
    for what, k in sorted(known_hits.items()):
        print("KNOWN-FINDING: property=%s %s (%d scenarios)" % (prop.id, what, k))
    print("%s %s seed=%s: %d scenarios, %d simulated runs, %d distinct schedules, faults %s, %.0f s" % (
        prop.id, tier, seed, total.c["scenarios"], total.c["runs"], len(total.hashes), json.dumps(total.faults, sort_keys=True), wall))
    if viols:
        print("%s" % bv)
        print("VIOLATION property=%s replay=%s" % (prop.id, replay))
        return 1
    if errs:
        print("HARNESS ERROR (no verdict):\n%s" % "\n".join(errs[:5]), file=sys.stderr)
        return 2
    if total.c["scenarios"] == 0:
        print("HARNESS ERROR: nothing ran", file=sys.stderr)
        return 2
    return 0


def write_replay(prop, sc, v, ctx, tier, seed, i, log):
    os.makedirs(REPLAYS, exist_ok=True)
    ctx.capture = True
    v2 = _attempt(prop, json.loads(json.dumps(sc)), ctx)
    ctx.capture = False
    expect = {n: {k: c[k] for k in ("hash", "outcome", "rc", "steps")} for n, c in ctx.captured.items()}
    o = {"property": prop.id, "violation": {"class": v.cls, "detail": v.detail, "sim": v.sim}, "found_with": {"seed": seed, "tier": tier, "scenario": i},
         "reproduced_exactly": v2 is not None and v2.cls == v.cls, "expect": expect, "notes": log, "scenario": sc}
    p = os.path.join(REPLAYS, "%s-%s-%d.json" % (prop.id, seed, i))
    with open(p, "w") as f:
        json.dump(o, f, indent=1, ensure_ascii=False)
    return p


def replay(prop, path, trace=False):
    B.build(prop.need)
    prop.prepare()
    S.no_aslr()
    o = json.load(open(path))
    scratch = scratch_dir()
    try:
        d = os.path.join(scratch, "w00000")
        os.makedirs(d)
        ctx = Ctx(d)
        ctx.capture = True
        v = _attempt(prop, o["scenario"], ctx)
        for n, e in o["expect"].items():
            c = ctx.captured.get(n)
            print("run %-12s %s" % (n, "not reached" if c is None else "identical execution (%d steps, schedule hash %016x)" % (c["steps"], c["hash"])
                  if c["hash"] == e["hash"] and c["steps"] == e["steps"] else "DIFFERS: %s vs %s" % ({k: c[k] for k in e}, e)))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if v is None:
        print("no violation")
        return 0
    print(v)
    print("VIOLATION property=%s replay=%s" % (prop.id, path))
    return 1


def short(o, n=1500):
    s = json.dumps(o, ensure_ascii=False)
    return o if len(s) <= n else s[:n] + "..."


def write_evidence(prop, tier, seed, st, n, late, nviol, known_hits, samples, search_s, wall):
    os.makedirs(EVID, exist_ok=True)
    c = st.c
    hrs = max(search_s, 1e-3) / 3600
    cov = {
        "evaluations": c["runs"], "distinct_nontrivial": len(st.keys), "rule": prop.rule,
        "samples": [short(s) for s in samples] or ["none"],
        "scenarios": c["scenarios"], "scenarios_not_reached_before_time_cap": late,
        "simulated_runs": {"reml": c["reml_runs"], "library_client_programs": c["core_runs"]},
        "runs_per_hour": int(c["runs"] / hrs), "seeds_per_hour": int(c["scenarios"] / hrs),
        "simulated_seconds": round(c["sim_ns"] / 1e9, 3), "scheduler_steps": c["steps"], "sync_operations": c["sync_ops"],
        "context_switches": c["switches"], "io_operations": c["io_ops"], "max_threads_in_a_run": st.maxthreads,
        "distinct_schedules": len(st.hashes), "distinct_schedules_measure": "64-bit hash over the sequence of (context switch position, thread) and fault decisions of a run",
        "switch_points_covered": bin(st.pairs).count("1"), "switch_points_measure": "bits set in a 65536-bit map of (code location switched out of, thread switched to)",
        "faults_injected": st.faults, "injected_crashes": c["crashes"], "probes": st.probes,
        "known_findings_seen": known_hits,
        "real_components": prop.real, "simulated_components": prop.stubs,
    }
    e = {"property": prop.id, "tier": tier, "seed": int(seed), "level": "exploration", "coverage": cov,
         "assumptions": ["Executions are sequentially consistent interleavings: weak-memory reorderings are not simulated.",
                         "The simulated kernel calls behave as documented outside the injected faults."] + list(prop.assumptions),
         "wall_s": round(wall, 2), "violations": nviol}
    tmp = os.path.join(EVID, ".%s.%d.tmp" % (prop.id, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(e, f, indent=1, ensure_ascii=False)
    os.rename(tmp, os.path.join(EVID, prop.id + ".json"))
