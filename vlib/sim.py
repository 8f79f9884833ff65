"""Runs one simulated process and reads back what the runtime recorded."""
import ctypes, os, signal, struct, subprocess, time

OUT_RUNNING, OUT_DEADLOCK, OUT_STEPLIMIT, OUT_CRASHED, OUT_EXITED, OUT_INTERNAL = range(6)
KINDS = ["NONE", "read_short", "read_eintr", "read_eio", "write_short", "write_eintr", "write_eio", "write_enospc", "write_epipe",
         "open_fail", "sync_eio", "rename_fail", "crash_before_io", "crash_after_io", "torn_write_crash", "spurious_wakeup",
         "thread_stall", "thread_create_fail", "alloc_fail", "clock_jump", "preempt", "open_eintr", "wake_pick"]
K = {n: i for i, n in enumerate(KINDS)}
HDR = 16 + 32 + 1 + 8 + 1024 + 1
MAXDEV = 60000
DEVSZ = 24
HDRBYTES = HDR * 8

# A check needs only a handful of simulated CPUs' worth of steps; these bound a run.
FAIR_AFTER = 6_000_000
MAX_STEPS = 400_000_000


class HarnessError(Exception):
    pass


def no_aslr():
    """Fixed addresses make address-dependent choices (lock table buckets) repeatable too."""
    try:
        libc = ctypes.CDLL(None, use_errno=True)
        cur = libc.personality(0xffffffff)
        return libc.personality(cur | 0x0040000) != -1
    except Exception:
        return False


class Run:
    __slots__ = ("outcome", "rc", "steps", "syncs", "switches", "ioops", "creates", "allocs", "hash", "nthreads", "maxlive",
                 "clock", "faults", "blocked", "pairs", "devs", "devovf", "trace", "journal", "stderr", "stdout", "wall", "dir", "mem")

    def hung(self):
        return self.outcome in (OUT_DEADLOCK, OUT_STEPLIMIT)

    def how(self):
        o = self.outcome
        if o == OUT_DEADLOCK:
            return "deadlock (every thread waits; mask of waiting threads 0x%x)" % self.blocked
        if o == OUT_STEPLIMIT:
            return "no termination within %d steps" % self.steps
        if o == OUT_CRASHED:
            return "injected crash"
        if self.rc < 0:
            return "killed by signal %d" % -self.rc
        return "exit status %d" % self.rc


def cfg_text(sim):
    L = []
    for k in ("seed", "strat", "gap", "pct_len", "pct_d", "ncpu", "spurious", "clock_step", "clock_base", "crash_step"):
        if k in sim:
            L.append("%s %s" % (k, sim[k]))
    L.append("max_steps %d" % sim.get("max_steps", MAX_STEPS))
    L.append("fair_after %d" % sim.get("fair_after", FAIR_AFTER))
    if "stall" in sim:
        L.append("stall %d %d %d" % tuple(sim["stall"]))
    if sim.get("trace"):
        L.append("trace 1")
    if sim.get("journal"):
        L.append("journal 1")
    if "script" in sim:
        L.append("script 1")
        for d in sim["script"]:
            L.append("dev %s %d %d %d" % tuple(d))
    else:
        for r in sim.get("rules", []):
            L.append("rule %s %d %g %d %d" % (r[0], K[r[1]], r[2], r[3] if len(r) > 3 else 0, r[4] if len(r) > 4 else 0))
        for d in sim.get("devs", []):
            L.append("dev %s %d %d %d" % tuple(d))
    return "\n".join(L) + "\n"


_ENV = {"PATH": "/usr/bin:/bin", "LANG": "C.UTF-8", "RUST_BACKTRACE": "0"}


def run(binary, argv, sim, cwd, stdin=None, want_devs=False, timeout=None, env=None):
    for f in ("dst.out", "dst.jrn"):
        try:
            os.unlink(os.path.join(cwd, f))
        except FileNotFoundError:
            pass
    with open(os.path.join(cwd, "dst.cfg"), "w") as f:
        f.write(cfg_text(sim))
    so, se = os.path.join(cwd, "stdout.txt"), os.path.join(cwd, "stderr.txt")
    t0 = time.time()
    e = _ENV if env is None else dict(_ENV, **env)
    with open(so, "wb") as fo, open(se, "wb") as fe:
        p = subprocess.Popen([binary] + list(argv), cwd=cwd, stdin=subprocess.DEVNULL, stdout=fo, stderr=fe, env=e, close_fds=False)
        try:
            rc = p.wait(timeout or 120)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            raise HarnessError("simulated process did not finish within its real-time limit (argv %r)" % (argv,))
    r = Run()
    r.wall = time.time() - t0
    r.rc = rc
    r.dir = cwd
    try:
        with open(os.path.join(cwd, "dst.out"), "rb") as f:
            b = f.read(HDRBYTES)
            h = struct.unpack("<%dQ" % HDR, b)
            if h[0] != 0x4453543144535431:
                raise HarnessError("simulation output not initialised")
            ndev = h[14]
            r.devs = None
            if want_devs:
                d = f.read(ndev * DEVSZ)
                r.devs = [(chr(t), at, a, bb) for at, a, bb, t, _ in struct.iter_unpack("<QIIII", d)]
            r.trace = None
            if sim.get("trace"):
                f.seek(HDRBYTES + MAXDEV * DEVSZ)
                r.trace = f.read(h[HDR - 1]).decode("utf8", "replace")
    except FileNotFoundError:
        raise HarnessError("simulation did not start: rc %s, stderr %r" % (rc, open(se, "rb").read()[-500:]))
    (r.outcome, r.steps, r.syncs, r.switches) = h[1:5]
    r.ioops, r.creates, r.allocs, r.hash, r.nthreads, r.maxlive, r.clock = h[7], h[8], h[9], h[10], h[11], h[12], h[13]
    r.devovf = h[15]
    r.faults = {KINDS[i]: h[16 + i] for i in range(1, len(KINDS)) if h[16 + i]}
    r.blocked = h[48]
    r.mem = h[50]  # peak of the live heap
    r.pairs = h[57:57 + 1024]
    if r.outcome == OUT_INTERNAL:
        raise HarnessError("simulation runtime limit reached (rc %d)" % rc)
    r.journal = None
    if sim.get("journal"):
        with open(os.path.join(cwd, "dst.jrn"), "rb") as f:
            r.journal = parse_journal(f.read())
    with open(so, "rb") as f:
        r.stdout = f.read()
    with open(se, "rb") as f:
        r.stderr = f.read()
    return r


JREC = struct.Struct("<IIQQQQ64s64s")


def parse_journal(b):
    out, i = [], 0
    while i + JREC.size <= len(b):
        m, op, idx, ino, off, ln, n1, n2 = JREC.unpack_from(b, i)
        if m != 0x4a524e31:
            raise HarnessError("bad journal")
        i += JREC.size
        op = chr(op)
        data = b""
        if op == "w":
            data = b[i:i + ln]
            i += ln
        out.append((op, idx, ino, n1.split(b"\0")[0].decode(), n2.split(b"\0")[0].decode(), off, data))
    return out
