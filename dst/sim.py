"""Running one simulated execution: plan in, report out.

A plan fully determines a run (see sim/libsim.c). This module serialises plans,
spawns the system under test with the simulator preloaded, and reads back the
report from shared memory.
"""
import ctypes
import mmap
import os
import signal
import struct

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, ".build")
LIBSIM = os.path.join(BUILD, "libsim.so")
TRIPLE = "x86_64-unknown-linux-gnu"
CLI = os.path.join(BUILD, "target", TRIPLE, "debug", "louis")
DRIVER = os.path.join(BUILD, "target", TRIPLE, "debug", "simdriver")

OUT_CAP, ERR_CAP, EMIT_CAP, LOG_CAP = 8 << 20, 4 << 20, 16 << 20, 2 << 20
EDGE_CAP, DEC_CAP = 256 << 10, 64 << 10
OPS = ["open", "read", "stat", "realpath", "opendir", "readdir", "close", "stdin", "stdout", "stderr",
       "getrandom", "alloc", "thread", "seek", "futex", "phase", "cwd"]
HDR = ["magic", "status", "ticks", "switches", "sched_hash", "nthreads", "events", "open_fds", "live_bytes",
       "live_allocs", "peak_bytes", "clock_ns", "stdout_len", "stderr_len", "emit_len", "log_len", "ndec",
       "mutating", "foreign", "edges_total", "fired_total", "stdin_pos", "bad_close", "nguards",
       "leaked_at_exit", "rand_bytes", "preemptions", "maxfds"]
TAIL = ["chunked", "eintrs", "spurious", "shuffled", "dtunknown", "muts", "delays", "jumps"]
NHDR = len(HDR) + 24 + 24 + len(TAIL) + 256
HSIZE = NHDR * 8
O_OUT = (HSIZE + 4095) & ~4095
O_ERR = O_OUT + OUT_CAP
O_EMIT = O_ERR + ERR_CAP
O_LOG = O_EMIT + EMIT_CAP
O_EDGE = O_LOG + LOG_CAP
O_DEC = O_EDGE + EDGE_CAP
TOTAL = O_DEC + DEC_CAP * 8
STATUS = {0: "killed", 1: "exit", 2: "deadlock", 3: "hang", 4: "abort", 5: "internal"}

ERRNO = dict(EPERM=1, ENOENT=2, EINTR=4, EIO=5, EBADF=9, EAGAIN=11, ENOMEM=12, EACCES=13, ENOTDIR=20, EISDIR=21,
             EINVAL=22, ENFILE=23, EMFILE=24, ENOSPC=28, ESPIPE=29, EROFS=30, EPIPE=32, ELOOP=40, ENOSYS=38,
             ESTALE=116, EOVERFLOW=75, ETIMEDOUT=110, ENAMETOOLONG=36)
ACT = {"errno": 0, "short": 1, "delay": 2, "eof": 3}
MUT = {"replace": 0, "write": 1, "unlink": 2, "symlink": 3, "chmod": 4, "mkdir": 5}


def hx(s):
    if s is None:
        return "*"
    b = s if isinstance(s, bytes) else s.encode("utf-8", "surrogateescape")
    return b.hex() or "-"


class World:
    """A process to simulate: program, arguments, environment, and a plan."""

    __slots__ = ("prog", "argv", "env", "files", "dirs", "links", "cwd", "seed", "entropy", "dirseed", "schedseed",
                 "policy", "forced", "ncpu", "clock", "chunk", "eintr", "spurious", "dtunknown", "rdshuffle",
                 "urandom", "nostatx", "heapskew", "stdin", "stdin_chunks", "faults", "muts", "script", "maxticks", "maxmem",
                 "maxfds", "tty", "jump", "stack", "anyenv", "flap")

    def __init__(self, prog="cli", argv=(), env=None):
        self.prog, self.argv, self.env = prog, list(argv), dict(env or {})
        self.files, self.dirs, self.links = {}, {}, {}
        self.cwd = "/w"
        self.seed = 1
        self.entropy = self.dirseed = self.schedseed = None
        self.policy = (0, 1, 0, 0)
        self.forced = None
        self.ncpu = 4
        self.clock = None
        self.chunk = self.eintr = self.spurious = self.dtunknown = self.urandom = self.nostatx = self.heapskew = self.jump = self.anyenv = self.flap = 0
        self.rdshuffle = 1
        self.stdin, self.stdin_chunks = b"", []
        self.faults, self.muts = [], []
        self.script = None
        self.maxticks, self.maxmem, self.maxfds = 600_000_000, None, None
        self.stack = None
        self.tty = 0  # bits 0 to 2: standard descriptors that are terminals; above: columns

    def plan(self):
        o = ["seed %d" % self.seed]
        a = o.append
        for k in ("entropy", "dirseed", "schedseed", "clock", "maxmem", "maxfds", "stack"):
            v = getattr(self, k)
            if v is not None:
                a("%s %d" % (k, v))
        a("maxticks %d" % self.maxticks)
        a("policy %d %d %d %d" % tuple(self.policy))
        if self.forced is not None:
            a("useforced 1")
            for d in self.forced:
                a("forced %d %d %d" % tuple(d))
        a("ncpu %d" % self.ncpu)
        a("cwd " + hx(self.cwd))
        for k in ("chunk", "eintr", "spurious", "dtunknown", "rdshuffle", "urandom", "nostatx", "heapskew", "tty", "jump", "anyenv", "flap"):
            a("%s %d" % (k, getattr(self, k)))
        for p, m in self.dirs.items():
            a("dir %s %d" % (hx(p), m))
        for p, c in self.files.items():
            m = 0o644
            if isinstance(c, tuple):
                c, m = c
            a("file %s %d %s" % (hx(p), m, hx(c)))
        for p, t in self.links.items():
            a("link %s %s" % (hx(p), hx(t)))
        a("stdin " + hx(self.stdin))
        for c in self.stdin_chunks:
            a("stdinchunk %d" % c)
        for op, path, fr, to, act, arg in self.faults:
            a("fault %s %s %d %d %d %d" % (op, hx(path), fr, to, ACT[act], ERRNO[arg] if isinstance(arg, str) else arg))
        for op, path, nth, after, kind, target, data in self.muts:
            mode = data if kind == "chmod" else 0
            d = b"" if kind == "chmod" or data is None else data
            a("mut %s %s %d %d %d %s %d %s" % (op, hx(path), nth, 1 if after else 0, MUT[kind], hx(target), mode, hx(d)))
        if self.script is not None:
            a("script " + hx(self.script))
        return ("\n".join(o) + "\n").encode()


class Report:
    __slots__ = ("h", "fired", "op_count", "fault_fired", "stdout", "stderr", "emit", "log", "dec", "code", "sig",
                 "status", "digest")

    def outcome(self):
        """exit:<code> | signal:<n> | hang | deadlock"""
        if self.status == "hang":
            return "hang"
        if self.status == "deadlock":
            return "deadlock"
        if self.sig:
            return "hang" if self.sig == signal.SIGALRM else "signal:%d" % self.sig
        return "exit:%d" % self.code


class Runner:
    """One worker's channel to simulated processes."""

    def __init__(self):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
        self.dir = os.path.join(base, "dst-%d-%s" % (os.getpid(), os.urandom(4).hex()))
        os.mkdir(self.dir)
        self.shm_path = os.path.join(self.dir, "shm")
        self.plan_path = os.path.join(self.dir, "plan")
        with open(self.shm_path, "wb") as f:
            f.truncate(TOTAL)
        self.f = open(self.shm_path, "r+b")
        self.m = mmap.mmap(self.f.fileno(), TOTAL)
        self.nul = os.open("/dev/null", os.O_RDWR)
        self.edges = bytearray(EDGE_CAP)
        self.nrun = 0
        try:  # best effort: same address layout in every run
            ctypes.CDLL(None).personality(0x0040000)
        except Exception:
            pass

    def close(self):
        try:
            self.m.close()
            self.f.close()
            for p in (self.shm_path, self.plan_path):
                if os.path.exists(p):
                    os.unlink(p)
            os.rmdir(self.dir)
        except Exception:
            pass

    def coverage(self):
        """edges reached so far by all runs of this worker, per program"""
        return bytes(self.m[O_EDGE:O_EDGE + EDGE_CAP])

    def run(self, w, want_log=True):
        with open(self.plan_path, "wb") as f:
            f.write(w.plan())
        prog = CLI if w.prog == "cli" else DRIVER
        env = {"SIM_PLAN": self.plan_path, "SIM_SHM": self.shm_path, "LD_PRELOAD": LIBSIM}
        env.update(w.env)
        m = self.m
        m[0:HSIZE] = b"\0" * HSIZE
        raw = lambda s: s.encode("utf-8", "surrogateescape")
        pid = os.posix_spawn(prog, [b"louis"] + [raw(x) for x in w.argv], {raw(k): raw(v) for k, v in env.items()},
                             file_actions=[(os.POSIX_SPAWN_DUP2, self.nul, 0), (os.POSIX_SPAWN_DUP2, self.nul, 1),
                                           (os.POSIX_SPAWN_DUP2, self.nul, 2)])
        _, st = os.waitpid(pid, 0)
        self.nrun += 1
        v = struct.unpack_from("<%dQ" % NHDR, m, 0)
        r = Report()
        r.h = dict(zip(HDR, v))
        n = len(HDR)
        r.op_count = dict(zip(OPS, v[n:n + len(OPS)]))
        r.fired = dict(zip(OPS, v[n + 24:n + 24 + len(OPS)]))
        r.h.update(zip(TAIL, v[n + 48:n + 48 + len(TAIL)]))
        r.fault_fired = v[n + 48 + len(TAIL):n + 48 + len(TAIL) + len(w.faults)]
        h = r.h
        if h["magic"] != 0x51aa51aa:
            raise RuntimeError("simulator did not start (status %r, prog %s)" % (st, prog))
        r.stdout = bytes(m[O_OUT:O_OUT + h["stdout_len"]])
        r.stderr = bytes(m[O_ERR:O_ERR + h["stderr_len"]])
        r.emit = bytes(m[O_EMIT:O_EMIT + h["emit_len"]])
        r.log = bytes(m[O_LOG:O_LOG + h["log_len"]]).decode("utf-8", "surrogateescape") if want_log else ""
        r.dec = struct.unpack_from("<%dQ" % h["ndec"], m, O_DEC) if h["ndec"] else ()
        r.status = STATUS.get(h["status"], "?")
        r.sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
        r.code = os.WEXITSTATUS(st) if os.WIFEXITED(st) else -1
        if r.status == "internal" or r.code in (95, 96, 99):
            raise RuntimeError("simulator capacity exceeded (code %d)" % r.code)
        return r

    def digest(self, r):
        """everything observable about a run, for determinism comparison"""
        h = r.h
        return (r.stdout, r.stderr, r.emit, r.log, r.dec, r.outcome(), h["ticks"], h["switches"], h["sched_hash"],
                h["events"], h["peak_bytes"], h["clock_ns"])


def forced_from(r):
    """the recorded schedule of a run, as (tick, kind of decision, thread) switches"""
    return [(d >> 16, (d >> 8) & 255, d & 255) for d in r.dec]


# ---------------------------------------------------------------- driver scripts
class Script:
    def __init__(self):
        self.lines = []

    def phase(self):
        self.lines.append("phase")
        return self

    def thread(self):
        self.lines.append("thread")
        return self

    def new(self, slot, direction, paths):
        self.lines.append("N %d %s %s" % (slot, direction, " ".join(hx(p) for p in paths)))

    def src(self, slot, direction, text):
        self.lines.append("S %d %s %s" % (slot, direction, hx(text)))

    def tr(self, slot, text, modes=None, emph=()):
        """without modes: the call without options"""
        e = ",".join("%s:%d:%d" % (hx(c), a, b) for c, a, b in emph) or "-"
        self.lines.append("T %d %s %s %s" % (slot, "-" if modes is None else modes, e, hx(text)))

    def drop(self, slot):
        self.lines.append("D %d" % slot)

    def yield_(self, n):
        self.lines.append("Y %d" % n)

    def mem(self):
        self.lines.append("M")

    def setenv(self, k, v):
        self.lines.append("E %s %s" % (hx(k), "!" if v is None else hx(v)))

    def chdir(self, p):
        self.lines.append("W %s" % hx(p))

    def text(self):
        return "\n".join(self.lines) + "\n"


class OpResult:
    __slots__ = ("p", "t", "i", "t0", "t1", "ev", "fds", "fired", "live", "nt", "kind", "val", "errs")


def unhx(s):
    return b"" if s == "-" else bytes.fromhex(s)


def parse_emit(emit):
    """driver output -> {(phase, thread, index): OpResult}"""
    res = {}
    for line in emit.decode().splitlines():
        f = line.split(" ")
        o = OpResult()
        o.p, o.t, o.i, o.t0, o.t1, o.ev, o.fds, o.fired, o.live, o.nt = map(int, f[:10])
        o.kind = f[10]
        o.errs = []
        if o.kind == "ERR":
            for e in f[12:]:
                d, _, g = e.partition(":")
                o.errs.append((unhx(d).decode(), unhx(g).decode()))
            o.val = None
        else:
            o.val = unhx(f[11]).decode("utf-8", "replace")
        res[(o.p, o.t, o.i)] = o
    return res


def op_key(o):
    """what a caller sees of a result"""
    if o is None:
        return ("MISSING",)
    return (o.kind, o.val, tuple(o.errs))
