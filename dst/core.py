"""Check runner: seeded search over simulated runs, minimisation, replay, evidence."""
import copy
import hashlib
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback

from dst import build, sim

ROOT = sim.ROOT
KNOWN = os.path.join(ROOT, "known-findings.json")


class Violation:
    def __init__(self, kind, detail, run=None, sched=None):
        self.kind, self.detail = kind, detail
        self.run = run          # name of the run config in the case whose schedule matters
        self.sched = sched      # its recorded schedule


class Ctx:
    """What a judge uses to execute simulated runs, with accounting."""

    def __init__(self):
        self.R = sim.Runner()
        self.cache = {}
        self.reset()

    def reset(self):
        self.st = {"runs": 0, "ticks": 0, "sim_ns": 0, "switches": 0, "preemptions": 0, "events": 0, "faults": {},
                   "sched": set(), "probes": {}, "det": 0, "outcomes": {}, "threads_max": 0, "edges_total": 0, "ticks_share": 0.0}

    def probe(self, name, n=1):
        self.st["probes"][name] = self.st["probes"].get(name, 0) + n

    def run(self, w, log=False, det=False):
        r = self.R.run(w, log or det)
        s, h = self.st, r.h
        s["runs"] += 1
        s["ticks"] += h["ticks"]
        s["sim_ns"] += max(0, h["clock_ns"] - (w.clock if w.clock is not None else 0)) if w.clock is not None else h["ticks"] * 5
        s["switches"] += h["switches"]
        s["preemptions"] += h["preemptions"]
        s["events"] += h["events"]
        s["threads_max"] = max(s["threads_max"], h["nthreads"])
        s["edges_total"] = max(s["edges_total"], h["nguards"])
        s["ticks_share"] = max(s["ticks_share"], h["ticks"] / w.maxticks)
        o = r.outcome()
        s["outcomes"][o] = s["outcomes"].get(o, 0) + 1
        f = s["faults"]
        for (op, path, fr, to, act, arg), n in zip(w.faults, r.fault_fired):
            if n:
                k = "%s:%s" % (op, arg if act == "errno" else act)
                f[k] = f.get(k, 0) + n
        for k in ("chunked", "eintrs", "spurious", "shuffled", "dtunknown", "muts", "delays", "jumps"):
            if h[k]:
                f[k] = f.get(k, 0) + h[k]
        if len(s["sched"]) < 200000:
            s["sched"].add((h["sched_hash"], h["ticks"], h["events"]))
        if det:
            a = self.R.digest(r)
            b = self.R.digest(self.R.run(w, True))
            s["det"] += 1
            if a != b:
                raise NonDeterminism("two runs of one seed differ: %s" % [i for i, (x, y) in enumerate(zip(a, b)) if x != y])
        return r


class NonDeterminism(Exception):
    pass


def world(case, cfg, prog, argv=(), script=None, stdin=None):
    """a simulated process in this case's file system, under this run's configuration"""
    w = sim.World(prog, argv)
    w.cwd = case.get("cwd", "/w")
    w.env = dict(case.get("env", {}))
    fs = case.get("fs", {})
    for p, c in fs.get("files", {}).items():
        w.files[p] = c if isinstance(c, str) else (c[0], c[1])
    w.dirs = {w.cwd: 0o755}
    w.dirs.update(fs.get("dirs", {}))
    w.links = dict(fs.get("links", {}))
    apply_cfg(w, cfg)
    if script is not None:
        w.script = script_text(script)
    if stdin is not None:
        w.stdin = stdin
    return w


def apply_cfg(w, cfg):
    for k in ("seed", "entropy", "dirseed", "schedseed", "ncpu", "clock", "chunk", "eintr", "spurious", "dtunknown",
              "rdshuffle", "urandom", "nostatx", "heapskew", "maxticks", "maxmem", "maxfds", "tty", "jump", "stack",
              "anyenv", "flap"):
        if k in cfg:
            setattr(w, k, cfg[k])
    if "policy" in cfg:
        w.policy = tuple(cfg["policy"])
    if cfg.get("forced") is not None:
        w.forced = [tuple(d) for d in cfg["forced"]]
    w.faults = [tuple(f) for f in cfg.get("faults", [])]
    w.muts = [tuple(m[:6]) + ((m[6].encode("utf-8", "surrogateescape") if isinstance(m[6], str) else m[6]),)
              for m in cfg.get("muts", [])]
    if "stdin_chunks" in cfg:
        w.stdin_chunks = cfg["stdin_chunks"]


def script_text(phases):
    s = sim.Script()
    for ph in phases:
        s.phase()
        for th in ph:
            s.thread()
            for op in th:
                k = op[0]
                if k == "N":
                    s.new(op[1], op[2], op[3])
                elif k == "S":
                    s.src(op[1], op[2], op[3])
                elif k == "T":
                    s.tr(op[1], op[2], op[3] if len(op) > 3 else None, op[4] if len(op) > 4 else ())
                elif k == "D":
                    s.drop(op[1])
                elif k == "Y":
                    s.yield_(op[1])
                elif k == "M":
                    s.mem()
                elif k == "E":
                    s.setenv(op[1], op[2])
                elif k == "W":
                    s.chdir(op[1])
    return s.text()


PLAIN = {"seed": 1, "entropy": 77, "clock": 1_700_000_000_000_000_000}


# ---------------------------------------------------------------- minimisation
def ddmin(items, test, budget):
    """smallest sublist for which test holds (greedy, bounded)"""
    n = 2
    items = list(items)
    while len(items) >= 1 and budget[0] > 0:
        size = max(1, len(items) // n)
        i, shrunk = 0, False
        while i < len(items) and budget[0] > 0:
            cand = items[:i] + items[i + size:]
            budget[0] -= 1
            if test(cand):
                items, shrunk = cand, True
            else:
                i += size
        if size == 1 and not shrunk:
            break
        if not shrunk:
            n = min(len(items), n * 2) if items else 1
    return items


def walk(case, path):
    for k in path:
        case = case[k]
    return case


def set_at(case, path, v):
    c = copy.deepcopy(case)
    p = walk(c, path[:-1])
    p[path[-1]] = v
    return c


def targets(x, path=()):
    """every shrinkable place of a case, biggest structures first"""
    o = []
    if isinstance(x, dict):
        for k, v in x.items():
            if k in ("prop", "kind", "_keep") or str(k).startswith("_"):
                continue
            if k in ("files", "links", "dirs") and isinstance(v, dict):
                o.append((path + (k,), "dict"))
            o += targets(v, path + (k,))
    elif isinstance(x, list):
        o.append((path, "list"))
        for i, v in enumerate(x):
            o += targets(v, path + (i,))
    elif isinstance(x, str):
        o.append((path, "text"))
    elif isinstance(x, int) and not isinstance(x, bool):
        o.append((path, "int"))
    return o


class Shrinker:
    def __init__(self, check, ctx, case, v, budget=1500, secs=90):
        self.check, self.ctx, self.case, self.v = check, ctx, case, v
        self.budget = [budget]
        self.t_end = time.time() + secs

    def fails(self, case):
        if time.time() > self.t_end:
            self.budget[0] = 0
            return False
        try:
            v = self.check.judge(case, self.ctx)
        except NonDeterminism:
            raise
        except Exception:
            return False
        if v is not None and v.kind == self.v.kind:
            self.last = (case, v)
            return True
        return False

    def run(self):
        for _ in range(3):
            before = json.dumps(self.case, sort_keys=True)
            self.pass_()
            if json.dumps(self.case, sort_keys=True) == before or self.budget[0] <= 0:
                break
        self.schedule()
        return self.case, self.v

    def accept(self, case):
        if self.fails(case):
            self.case, self.v = self.last
            return True
        return False

    def pass_(self):
        allowed = self.check.shrink
        for path, kind in sorted(targets(self.case), key=lambda t: len(t[0])):
            if self.budget[0] <= 0:
                return
            if not any(match(path, a) for a in allowed):
                continue
            try:
                cur = walk(self.case, path)
            except (KeyError, IndexError, TypeError):
                continue
            if kind == "dict" and isinstance(cur, dict):
                keys = ddmin(sorted(cur), lambda ks: self.accept(set_at(self.case, path, {k: cur[k] for k in ks})), self.budget)
            elif kind == "list" and isinstance(cur, list):
                ddmin(cur, lambda it: self.accept(set_at(self.case, path, it)), self.budget)
            elif kind == "text" and isinstance(cur, str) and cur:
                if "\n" in cur:
                    ddmin(cur.split("\n"), lambda it: self.accept(set_at(self.case, path, "\n".join(it))), self.budget)
                else:
                    ddmin(list(cur), lambda it: self.accept(set_at(self.case, path, "".join(it))), self.budget)
            elif kind == "int" and cur not in (0, 1) and path[-1] not in ("seed", "maxticks", "maxmem", "maxfds", "stack"):
                for v in (0, 1):
                    self.budget[0] -= 1
                    if self.accept(set_at(self.case, path, v)):
                        break

    def schedule(self):
        """turn the failing run's random schedule into an explicit one and minimise it"""
        v = self.v
        if not v.run or v.sched is None or len(v.sched) > 4000:
            return
        path = tuple(v.run)
        cfg = dict(walk(self.case, path))
        if cfg.get("forced") is not None:
            return
        cfg["forced"] = [list(d) for d in v.sched]
        cfg["policy"] = [0, 1, 0, 0]
        self.budget[0] = max(self.budget[0], 400)
        self.t_end = max(self.t_end, time.time() + 45)
        if not self.accept(set_at(self.case, path, cfg)):
            return
        ddmin(cfg["forced"], lambda it: self.accept(set_at(self.case, path, dict(walk(self.case, path), forced=it))), self.budget)


def match(path, pat):
    """pat: tuple with '*' for one component and '**' as a tail"""
    for i, a in enumerate(pat):
        if a == "**":
            return True
        if i >= len(path) or (a != "*" and a != path[i]):
            return False
    return len(path) == len(pat)


# ---------------------------------------------------------------- checks
class Check:
    id = "C00"
    title = ""
    level = "exploration"
    quick_n = 400
    thorough_n = 20000
    quick_cap = 240
    thorough_cap = 3000
    det_every = 25
    shrink = [("fs", "files"), ("fs", "links"), ("fs", "dirs"), ("fs", "files", "*"), ("**",)]
    rule = ""
    real = "the louis library and command line (all of src/), clap, rayon, libyaml, search_path, tabled and Rust's std"
    assumptions = []

    def gen(self, r, i):
        raise NotImplementedError

    def judge(self, case, ctx):
        raise NotImplementedError

    def nontrivial(self, case):
        return True


def case_rng(seed, prop, i):
    return random.Random(int.from_bytes(hashlib.sha256(("%d:%s:%d" % (seed, prop, i)).encode()).digest()[:8], "big"))


def worker(check, seed, lo, n, step, t_end, q, stop):
    try:
        ctx = Ctx()
        out = {"cases": 0, "nontrivial": 0, "hashes": set(), "found": [], "samples": [], "last": lo}
        for i in range(lo, n, step):
            if time.time() > t_end or stop.value:
                break
            case = check.gen(case_rng(seed, check.id, i), i)
            case["prop"] = check.id
            ctx.det_now = (i % check.det_every) == 0
            v = check.judge(case, ctx)
            out["cases"] += 1
            out["last"] = i
            if check.nontrivial(case):
                hh = hashlib.sha256(json.dumps(case, sort_keys=True).encode("utf-8", "surrogatepass")).digest()[:8]
                if hh not in out["hashes"]:
                    out["hashes"].add(hh)
                    out["nontrivial"] += 1
            if len(out["samples"]) < 1 and check.nontrivial(case) and i >= 2:
                out["samples"].append(case)
            if v is not None:
                out["found"].append((i, case, v))
                if len(out["found"]) >= 3:
                    stop.value = 1
                    break
                if not getattr(check, "known_like", None):
                    stop.value = 1
        out["st"] = ctx.st
        out["edges"] = ctx.R.coverage()
        ctx.R.close()
        q.put(("ok", out))
    except Exception:
        q.put(("err", traceback.format_exc()))


def load_known():
    try:
        with open(KNOWN) as f:
            return json.load(f)
    except FileNotFoundError:
        return {"known": [], "fixed": []}


def match_known(prop, v, known):
    for k in known.get("known", []):
        if k["property"] == prop and k["kind"] == v.kind and k["match"] in v.detail:
            return k
    return None


def run_check(check, tier, seed, nworkers=None, n=None, cap=None):
    t0 = time.time()
    bt, h = build.ensure()
    n = n or (check.quick_n if tier == "quick" else check.thorough_n)
    cap = cap or (check.quick_cap if tier == "quick" else check.thorough_cap)
    nworkers = nworkers or min(os.cpu_count() or 4, 8)
    print("property=%s tier=%s VERIF_SEED=%d cases=%d workers=%d source=%s (build %.1f s)"
          % (check.id, tier, seed, n, nworkers, h[:12], bt), flush=True)
    t_end = time.time() + cap
    q = mp.Queue()
    stop = mp.Value("i", 0)
    ps = [mp.Process(target=worker, args=(check, seed, w, n, nworkers, t_end, q, stop)) for w in range(nworkers)]
    for p in ps:
        p.start()
    outs, errs = [], []
    for _ in ps:
        while True:
            try:
                k, o = q.get(timeout=5)
                break
            except Exception:
                if not any(p.is_alive() for p in ps) and q.empty():
                    k, o = "err", "worker died"
                    break
        (outs if k == "ok" else errs).append(o)
    for p in ps:
        p.join()
    if errs:
        print(errs[0], file=sys.stderr)
        print("%d worker(s) failed" % len(errs), file=sys.stderr)
        return 2
    found = sorted((f for o in outs for f in o["found"]), key=lambda f: f[0])
    known = load_known()
    rc = 0
    nviol = 0
    ctx = None
    reported = set()
    for i, case, v in found:
        k = match_known(check.id, v, known)
        if k:
            if k["id"] not in reported:
                print("KNOWN-FINDING: property=%s %s" % (check.id, k["what"]))
                reported.add(k["id"])
            continue
        nviol += 1
        if rc:
            continue
        rc = 1
        ctx = Ctx()
        ctx.det_now = False
        print("case %d of seed %d violates %s: %s: %s" % (i, seed, check.id, v.kind, v.detail[:600]), flush=True)
        path = os.path.join(ROOT, "replays", "%s-seed%d-case%d.json" % (check.id, seed, i))
        os.makedirs(os.path.dirname(path), exist_ok=True)
        try:
            sh = Shrinker(check, ctx, case, v)
            small, sv = sh.run()
        except NonDeterminism:
            raise
        except Exception:
            traceback.print_exc()
            small, sv = case, v
        doc = {"property": check.id, "kind": sv.kind, "detail": sv.detail[:4000], "seed": seed, "index": i, "case": small,
               "original_kind": v.kind}
        with open(path, "w") as f:
            json.dump(doc, f, indent=1, sort_keys=True)
        ctx.R.close()
        # a fresh process must fail the same way
        pid = os.fork()
        if pid == 0:
            ok = replay(path, quiet=True)
            os._exit(0 if ok else 1)
        _, st = os.waitpid(pid, 0)
        again = os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0
        print("minimised: %s: %s" % (sv.kind, sv.detail[:1500]))
        print("replay %s in a fresh process" % ("reproduces" if again else "DOES NOT reproduce"))
        print("VIOLATION property=%s replay=%s" % (check.id, path), flush=True)
    evidence(check, tier, seed, outs, time.time() - t0, bt, nviol, h)
    if rc == 0:
        print("property=%s held on everything explored (%d cases, %.1f s)" % (check.id, sum(o["cases"] for o in outs), time.time() - t0))
    return rc


def replay(path, quiet=False):
    from dst import props
    with open(path) as f:
        doc = json.load(f)
    check = props.get(doc["property"])
    ctx = Ctx()
    ctx.det_now = False
    v = check.judge(doc["case"], ctx)
    ctx.R.close()
    if not quiet:
        print("property=%s kind=%s" % (doc["property"], v.kind if v else "none"))
        if v:
            print(v.detail)
    return v is not None and v.kind == doc["kind"]


def evidence(check, tier, seed, outs, wall, bt, nviol, h):
    st = {}
    faults, probes, outcomes, sched, edges = {}, {}, {}, set(), bytearray(sim.EDGE_CAP)
    for o in outs:
        s = o["st"]
        for k in ("runs", "ticks", "sim_ns", "switches", "preemptions", "events", "det"):
            st[k] = st.get(k, 0) + s[k]
        for src, dst in ((s["faults"], faults), (s["probes"], probes), (s["outcomes"], outcomes)):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
        sched |= s["sched"]
        for j, b in enumerate(o["edges"]):
            if b:
                edges[j] = 1
    cases = sum(o["cases"] for o in outs)
    hashes = set()
    for o in outs:
        hashes |= o["hashes"]
    samples = [x for o in outs for x in o["samples"]][:1]
    srch = max(0.001, wall - bt)
    ev = {
        "property": check.id, "tier": tier, "seed": seed, "level": check.level, "wall_s": round(wall, 2), "violations": nviol,
        "coverage": {
            "evaluations": cases, "distinct_nontrivial": len(hashes), "rule": check.rule, "samples": samples,
            "simulated_runs": st["runs"], "runs_per_hour": int(st["runs"] / srch * 3600), "seeds_per_hour": int(cases / srch * 3600),
            "simulated_seconds": round(st["sim_ns"] / 1e9, 3), "scheduler_ticks": st["ticks"], "events": st["events"],
            "largest_share_of_tick_limit": round(max(o["st"]["ticks_share"] for o in outs), 4),
            "thread_switches": st["switches"], "preemptions": st["preemptions"],
            "threads_max_in_a_run": max(o["st"]["threads_max"] for o in outs),
            "faults_fired": dict(sorted(faults.items())), "probes": dict(sorted(probes.items())),
            "outcomes": dict(sorted(outcomes.items())),
            "distinct_executions": len(sched), "distinct_executions_measure": "distinct (schedule hash, ticks, events) triples",
            "code_edges_reached": sum(edges), "code_edges_total": max(o["st"]["edges_total"] for o in outs),
            "runs_repeated_for_determinism": st["det"],
            "real_components": check.real,
            "stub_components": "kernel services only: thread scheduling, futex, clocks, entropy, file system, terminal streams, "
                               "memory allocator, CPU count (sim/libsim.c)",
            "source_sha256": h,
        },
        "assumptions": check.assumptions + [
            "the simulator models the kernel interfaces the code uses; sampling, not enumeration",
            "preemption granularity: basic blocks, loads and stores of the crate and its Rust dependencies, and every "
            "intercepted call; sequentially consistent memory"],
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    p = os.path.join(ROOT, "evidence", check.id + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)


def main(argv):
    from dst import props
    if argv and argv[0] == "replay":
        build.ensure()
        return 0 if replay(argv[1]) else 1
    tier = os.environ.get("VERIF_TIER", "quick")
    n = cap = workers = None
    ids = []
    for a in argv:
        if a in ("quick", "thorough"):
            tier = a
        elif a.startswith("--n="):
            n = int(a[4:])
        elif a.startswith("--cap="):
            cap = float(a[6:])
        elif a.startswith("--workers="):
            workers = int(a[10:])
        else:
            ids.append(a)
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    rc = 0
    for i in ids or props.ids():
        r = run_check(props.get(i), tier, seed, workers, n, cap)
        rc = max(rc, r)
    return rc


def entry():
    """only 0 (held) and 1 (violation reported) are verdicts; anything else is an error of the check"""
    try:
        rc = main(sys.argv[1:])
    except BaseException as e:
        if not isinstance(e, SystemExit):
            traceback.print_exc()
        else:
            print(e, file=sys.stderr)
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
