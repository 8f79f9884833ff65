"""Builds everything a check needs from /repo's current working tree.  Nothing is written inside /repo."""
import fcntl, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
TRIPLE = "x86_64-unknown-linux-gnu"
TARGET = os.path.join(BUILD, "t")
REL = os.path.join(TARGET, TRIPLE, "release")
REML = os.path.join(REL, "reml")
CORESIM = os.path.join(REL, "coresim")
PYEXT_SO = os.path.join(REL, "libreductionml.so")
DST_O = os.path.join(BUILD, "dst.o")
DST_PIC = DST_O


class BuildError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_PROFILE_RELEASE_LTO="off",
             CARGO_PROFILE_RELEASE_OPT_LEVEL="1", CARGO_PROFILE_RELEASE_DEBUG="0", CARGO_PROFILE_RELEASE_CODEGEN_UNITS="16",
             CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS="true", CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS="true",
             PYO3_PYTHON="/usr/bin/python3", CARGO_TERM_COLOR="never")
    e.pop("CARGO_TARGET_DIR", None)
    e.pop("RUSTC_WRAPPER", None)
    llvm = ["sancov-module", "function(tsan)"]
    args = ["-sanitizer-coverage-level=3", "-sanitizer-coverage-trace-pc-guard", "-tsan-instrument-func-entry-exit=0",
            "-tsan-instrument-memory-accesses=0", "-tsan-instrument-memintrinsics=0"]
    e["RUSTFLAGS"] = " ".join(["-Cpasses=" + p for p in llvm] + ["-Cllvm-args=" + a for a in args] +
                              ["-Clink-arg=" + DST_O, "-Clink-arg=-Wl,-z,now", "-Cdebuginfo=0"])
    return e


def _run(cmd, cwd, env=None):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def build(want):
    """want: subset of {'reml','coresim','pyext'}"""
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        src = os.path.join(VERIF, "sim", "dst.c")
        tag = DST_O + ".src"
        text = open(src, "rb").read()
        if not (os.path.exists(DST_O) and os.path.exists(tag) and open(tag, "rb").read() == text):
            _run(["gcc", "-O2", "-U_FORTIFY_SOURCE", "-fno-stack-protector", "-fno-builtin-malloc", "-fPIC", "-w", "-c", src, "-o", DST_O + ".tmp"], VERIF)
            os.rename(DST_O + ".tmp", DST_O)
            # the object is a link argument cargo does not track
            for b in (REML, CORESIM, PYEXT_SO):
                if os.path.exists(b):
                    os.unlink(b)
            import glob
            for d in glob.glob(os.path.join(TARGET, TRIPLE, "release", "deps", "*")):
                n = os.path.basename(d)
                if n.startswith(("reml-", "coresim-", "libreductionml-")) and not n.endswith(".d"):
                    os.unlink(d)
            open(tag, "wb").write(text)
        env = _env()
        common = ["--release", "--offline", "--target", TRIPLE, "--target-dir", TARGET]
        if "reml" in want:
            _run(["cargo", "build", "--locked", "-p", "reductionml-cli", "--bin", "reml"] + common, REPO, env)
        if "coresim" in want:
            h = os.path.join(VERIF, "harness")
            cwd = h
            if REPO != "/repo":  # development only: run against a scratch copy
                cwd = os.path.join(BUILD, "harness")
                subprocess.run(["rm", "-rf", cwd])
                subprocess.run(["cp", "-a", h, cwd], check=True)
                ct = os.path.join(cwd, "Cargo.toml")
                s = open(ct).read().replace("../../repo/", REPO + "/")
                open(ct, "w").write(s)
            _run(["cargo", "build"] + common, cwd, env)
        if "pyext" in want:
            _run(["cargo", "build", "--locked", "-p", "reductionml-python", "--lib"] + common, REPO, env)
    return time.time() - t0


if __name__ == "__main__":
    try:
        print("built in %.1fs" % build(sys.argv[1:] or ["reml", "coresim"]))
    except BuildError as e:
        print(e)
        sys.exit(3)
