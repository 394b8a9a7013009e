from dst import gen, work
from dst.core import PLAIN, Check, Violation, world
from dst.props.c03 import ERRNOS, faults
from dst.sim import forced_from, parse_emit

BIG = dict(PLAIN, maxticks=4_000_000_000)
SLACK = 60_000_000


def storm(r, files):
    """failures that last"""
    op = r.choice(["open", "read", "read", "stat", "realpath", "opendir", "readdir", "cwd"])
    path = r.choice(files + [None]) if op in ERRNOS and files else None
    a = r.randint(0, 8)
    return [op, path, a, a + r.choice([50, 10 ** 12]), "errno", r.choice([e for e in ERRNOS.get(op, ["EIO", "EACCES", "ENOMEM", "EBADF", "EMFILE"]) if e != "EINTR"])]


def change(r, files):
    """a file that changes, goes or becomes unreadable while the command runs"""
    f = r.choice(files)
    kind = r.choice(["replace", "write", "unlink", "chmod", "symlink"])
    data = {"replace": r.choice(["", "\udcff\udcfe", "include %s\n" % f.rsplit("/", 1)[-1], "bogus\n" * 30, "space \\s 0\n"]),
            "write": r.choice(["", "always", "letter a 1\n" * 40, "\udced"]), "unlink": None, "chmod": 0,
            "symlink": r.choice([f, "/nowhere", "/w", "/w/loop"])}[kind]
    op = r.choice(["open", "open", "read", "stat", "realpath", "readdir"])
    return [op, None, r.randint(1, 12), r.random() < 0.5 and op in ("open", "read"), kind, f, data]


class C(Check):
    id = "C16"
    title = "No failure of the system makes a command or a call crash or hang"
    quick_n = 14000
    thorough_n = 500000
    rule = ("random commands, interactive sessions and series of library calls, one and several threads, over random worlds, under transient and lasting "
            "failures of opening, reading, listing, status and path calls, interruptions, tiny reads, files that change, vanish or turn into loops "
            "and garbage while being read, and adversarial thread schedules; every run must come to its regular end without panic, abort or deadlock "
            "within a step budget derived from the undisturbed run; non-trivial: a disturbance was planned")
    shrink = [("fs", "files"), ("fs", "links"), ("fs", "dirs"), ("fs", "files", "*"), ("ops",), ("ops", "*"), ("argv",), ("stdin",), ("cfg", "*"),
              ("cfg", "faults", "*"), ("cfg", "muts", "*"), ("tables",)]

    def gen(self, r, i):
        c = work.world_of(r)
        c["cfg"] = gen.cfg(r, True)
        c["cfg"].pop("urandom", None)
        c["cfg"].pop("maxticks", None)
        if r.random() < 0.4:
            c["argv"] = None
            c["stdin"] = ""
            c["ops"] = []
            for t in range(r.choice([1, 1, 2, 3])):
                ops = []
                for k in range(r.randint(1, 3)):
                    s = 4 * t + k
                    d = r.choice("FFB")
                    ops.append(["N", s, d, c["tables"]] if r.random() < 0.85 else ["S", s, d, gen.render(r, gen.table_lines(r))])
                    for _ in range(r.randint(0, 3)):
                        x = gen.text(r) if d == "F" else gen.braille(r)
                        ops.append(["T", s, x, gen.modes(r), gen.spans(r, x)])
                    if r.random() < 0.3:
                        ops.append(["D", s])
                c["ops"].append(ops)
        else:
            c["ops"] = None
            c["argv"], c["stdin"] = work.command(r, c) if r.random() < 0.7 else work.suite(r, c)
        files = sorted(c["fs"]["files"])
        k = r.random()
        c["cfg"]["faults"], c["cfg"]["muts"] = [], []
        if k < 0.6:
            c["cfg"]["faults"] = faults(r, files, alloc=0)
        if 0.3 < k < 0.5 or k > 0.9:
            c["cfg"]["faults"].append(storm(r, files))
        if r.random() < 0.15:
            # the working directory is gone
            c["cfg"]["faults"].append(["cwd", None, 0, 10 ** 12, "errno", r.choice(["ENOENT", "EACCES"])])
            c["cfg"]["faults"].append(["realpath", None, r.randint(0, 4), 10 ** 12, "errno", r.choice(["ENOENT", "EIO", "EACCES"])])
        if 0.45 < k < 0.9:
            c["cfg"]["muts"] = [change(r, files) for _ in range(r.choice([1, 1, 2]))]
        if r.random() < 0.15:
            # failures that come and go for ever, a file that never stays the same
            c["cfg"]["flap"] = r.choice([1, 2, 2, 3, 7])
            c["cfg"]["faults"].append(storm(r, files))
            if r.random() < 0.5:
                f = r.choice(files)
                op = r.choice(["open", "open", "read", "stat"])
                c["cfg"]["muts"].append([op, r.choice([f, f, None]), r.randint(1, 3), r.random() < 0.5 and op != "stat", "write", f,
                                         r.choice(["space \\s 0\nletter a 1\nletter b 12\n", "letter a 1\n" * 40, "include %s\n" % f.rsplit("/", 1)[-1], "tests:\n  - [a, b]\n"])])
        if c["argv"] and r.random() < 0.15:
            a = r.randint(0, 6)
            c["cfg"]["faults"].append(["stdin", None, a, a + r.choice([1, 1, 10 ** 12]), "errno", r.choice(["EIO", "EISDIR", "ENOMEM"])])
        if c["argv"] and r.random() < 0.2:
            a = r.randint(0, 6)
            c["cfg"]["faults"].append([r.choice(["stdout", "stderr"]), None, a, a + r.choice([1, 30]), *r.choice([("short", 1), ("short", 5), ("errno", "EINTR")])])
        if r.random() < 0.1:
            c["cfg"]["maxfds"] = r.choice([4, 5, 8])
        return c

    def judge(self, case, ctx):
        if case["argv"]:
            if len(case["argv"]) < 2 and case["argv"] != ["parse"]:
                return None
            kw = dict(prog="cli", argv=case["argv"], stdin=case["stdin"].encode())
            what = "louis %r" % case["argv"]
        else:
            if not case["ops"] or not any(case["ops"]) or not case["tables"] or not all(case["tables"]):
                return None
            kw = dict(prog="driver", script=[case["ops"]])
            what = "the library calls %r" % [[op[0] for op in t] for t in case["ops"]]
        ref = ctx.run(world(case, BIG, **kw))
        if ref.outcome() != "exit:0":
            return Violation("undisturbed", "%s, undisturbed, end with %s: %s" % (what, ref.outcome(), ref.stderr.decode("utf-8", "replace")[-300:]))
        budget = 20 * ref.h["ticks"] + SLACK
        cfg = dict(case["cfg"], maxticks=budget)
        rep = ctx.run(world(case, cfg, **kw), det=getattr(ctx, "det_now", False))
        dist = "%r %r" % (case["cfg"]["faults"], case["cfg"]["muts"])
        at = (["cfg"], forced_from(rep))
        o = rep.outcome()
        if o == "hang":
            return Violation("hang", "%s do not end within %d steps (undisturbed: %d) under %s" % (what, budget, ref.h["ticks"], dist), *at)
        if o != "exit:0":
            return Violation("crash", "%s under %s end with %s: %s" % (what, dist, o, rep.stderr.decode("utf-8", "replace")[-400:]), *at)
        if not case["argv"]:
            got = parse_emit(rep.emit)
            for t, ops in enumerate(case["ops"]):
                for i, op in enumerate(ops):
                    g = got.get((0, t, i))
                    if g is None or g.kind == "PANIC":
                        return Violation("panic", "%s under %s: call %d of thread %d gives %s" % (what, dist, i, t, g and g.val), *at)
        ctx.probe("commands" if case["argv"] else "library")
        if rep.h["fired_total"]:
            ctx.probe("disturbed_by_faults")
        if rep.h["muts"]:
            ctx.probe("disturbed_by_changes")
        return None

    def nontrivial(self, case):
        return bool(case["cfg"]["faults"] or case["cfg"]["muts"])


CHECK = C()
