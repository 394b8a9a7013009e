"""Build the system under test (from /repo's working tree), the workload driver and the simulator.

Everything lands in /verif/.build. The Rust code is compiled with LLVM's
sanitizer-coverage callbacks on every basic block, load and store; the preloaded
simulator implements them as its preemption points. No source of /repo changes.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, ".build")
TARGET = os.path.join(BUILD, "target")
REPO = "/repo"
TRIPLE = "x86_64-unknown-linux-gnu"
FLAGS = ("-Cpasses=sancov-module -Cpasses=function(tsan) -Cllvm-args=-tsan-instrument-func-entry-exit=0 -Cllvm-args=-sanitizer-coverage-level=3 "
         "-Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-loads "
         "-Cllvm-args=-sanitizer-coverage-trace-stores -Clink-arg=-Wl,--unresolved-symbols=ignore-all")


def tree_hash():
    h = hashlib.sha256()
    for base in ("src", "Cargo.toml", "Cargo.lock", "build.rs", ".cargo"):
        p = os.path.join(REPO, base)
        names = []
        if os.path.isfile(p):
            names = [p]
        else:
            for d, ds, fs in os.walk(p):
                ds.sort()
                names += [os.path.join(d, f) for f in sorted(fs)]
        for n in names:
            h.update(n.encode() + b"\0")
            with open(n, "rb") as f:
                h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def sh(cmd, cwd, env=None, quiet=True):
    r = subprocess.run(["bash", "-c", cmd], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout)
        raise SystemExit("build failed: " + cmd[:200])
    return r.stdout


def ensure(verbose=False):
    """build whatever is out of date; returns (seconds, source hash)"""
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        src = os.path.join(ROOT, "sim", "libsim.c")
        so = os.path.join(BUILD, "libsim.so")
        want = hashlib.sha256(open(src, "rb").read()).hexdigest()
        stamp = os.path.join(BUILD, "libsim.hash")
        if not os.path.exists(so) or not os.path.exists(stamp) or open(stamp).read() != want:
            sh("gcc -O2 -g -fPIC -shared -fvisibility=hidden -o %s.tmp %s -ldl -lpthread && mv %s.tmp %s"
               % (so, src, so, so), ROOT)
            with open(stamp, "w") as f:
                f.write(want)
        h = tree_hash()
        stamp = os.path.join(BUILD, "repo.hash")
        env = dict(os.environ)
        for k in list(env):
            if k.startswith("CARGO_") or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "LOUIS_TABLE_PATH", "RUST_LOG"):
                del env[k]
        pre = (". /opt/vp/env.sh; export CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_INCREMENTAL=0 "
               "CARGO_TARGET_DIR=%s RUSTFLAGS='%s'; " % (TARGET, FLAGS))
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old != h:
            # never trust file times: a source that changed since the last build is compiled again
            for d in (os.path.join(TARGET, TRIPLE, "debug", ".fingerprint"),):
                if os.path.isdir(d):
                    for n in os.listdir(d):
                        if n.startswith("louis-rs-") or n.startswith("simdriver-"):
                            shutil.rmtree(os.path.join(d, n), ignore_errors=True)
        out = sh(pre + "cargo build --offline --locked --bin louis --target " + TRIPLE, REPO, env)
        out += sh(pre + "cargo build --offline --target " + TRIPLE, os.path.join(ROOT, "harness"), env)
        if verbose:
            sys.stderr.write(out)
        with open(stamp, "w") as f:
            f.write(h)
    return time.time() - t0, h


if __name__ == "__main__":
    t, h = ensure(True)
    print("built in %.1f s, source %s" % (t, h[:12]))
