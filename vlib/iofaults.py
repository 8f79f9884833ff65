"""Where a simulated process performed which I/O operation, and how to disturb it."""
import re
from . import sim as S

_RE = re.compile(r"T\d+ io (\d+) \((.) ([^)]*)\)")


def ops(run):
    """[(index, class, file)] from a traced run"""
    return [(int(a), c, n) for a, c, n in _RE.findall(run.trace or "")]


HARD = {"w": ["write_eio", "write_enospc", "write_epipe"], "s": ["sync_eio"], "n": ["rename_fail"], "O": ["open_fail"]}
SOFT = {"w": ["write_short", "write_eintr"], "O": ["open_eintr"], "r": ["read_short", "read_eintr"]}
ERRNO = {"write_eio": [5, 0, 122], "write_enospc": [28], "write_epipe": [32], "sync_eio": [5, 28], "rename_fail": [5, 28, 13], "open_fail": [13, 24, 28, 30]}


def dev(rng, idx, cls, hard=True, sticky=None):
    if not hard and cls not in SOFT:
        hard = True
    kind = rng.choice((HARD if hard else SOFT)[cls])
    a = S.K[kind] | (rng.choice(ERRNO.get(kind, [0])) << 8)
    if sticky if sticky is not None else (hard and rng.random() < .5):
        a |= 1 << 30
    return ["I", idx, a, rng.getrandbits(30)]


def crash(rng, idx, cls):
    kind = rng.choice(["crash_before_io", "crash_after_io"] + (["torn_write_crash"] * 2 if cls == "w" else []))
    return ["I", idx, S.K[kind], rng.getrandbits(30)]


def power_loss(rng, journal, initial, ino0, upto=None):
    """A disk image a power failure could leave: {name: bytes}.

    initial: {name: bytes} durable before the run; ino0: {name: inode}.  Operations up to `upto` were issued.  Name
    operations reach the disk in order, at least as far as the last fsync; written data is certain only once the file
    was fsynced afterwards, before that each write may be there, missing (zeros) or cut short.
    """
    p = len(journal) if upto is None else upto
    J = journal[:p]
    lastsync = max([i for i, e in enumerate(J) if e[0] == "s"], default=-1)
    q = rng.choice([p, p, lastsync + 1, rng.randrange(lastsync + 1, p + 1)])
    names = {n: ino0[n] for n in initial}
    data = {ino0[n]: initial[n] for n in initial}
    for i, (op, idx, ino, n1, n2, off, b) in enumerate(J):
        meta = i < q
        if op == "c" and meta:
            names[n1] = ino
            data.setdefault(ino, b"")
        elif op == "t" and meta:
            data[ino] = b""
        elif op == "T" and meta:
            d = data.get(ino, b"")
            data[ino] = d[:off] + b"\0" * (off - len(d))
        elif op == "r" and meta:
            names.pop(n1, None)
            names[n2] = ino
            data.setdefault(ino, b"")
        elif op == "l" and meta:
            names[n2] = ino
        elif op == "u" and meta:
            names.pop(n1, None)
        elif op == "w":
            synced = any(e[0] == "s" and e[2] == ino for e in J[i + 1:])
            if not synced:
                k = rng.random()
                if k < .45:
                    continue
                if k < .65 and b:
                    b = b[:rng.randrange(len(b))]
            d = data.get(ino, b"")
            if off > len(d):
                d += b"\0" * (off - len(d))
            data[ino] = d[:off] + b + d[off + len(b):]
    return {n: data.get(i, b"") for n, i in names.items()}
