from dst import gen, tree
from dst.core import Check, Violation, world
from dst.props.c01 import tie_table
from dst.props.c03 import faults
from dst.sim import parse_emit

KINDS = ["cycle", "cycle", "repeat", "threads", "repl", "check"]


def growth(xs):
    """does the series keep growing up to its end"""
    if len(xs) < 6:
        return False
    if len(xs) >= 60:
        # buffers grow by leaps: look at ever longer stretches
        n = len(xs)
        return xs[n // 9] < xs[n // 3] < xs[-1]
    d = [b - a for a, b in zip(xs, xs[1:])][-max(4, len(xs) // 2):]
    return all(x > 0 for x in d)


class C(Check):
    id = "C09"
    title = "Files, memory and threads are given back"
    quick_n = 6000
    thorough_n = 200000
    rule = ("repeated cycles of loading (successful, rejected, and failing by injected I/O errors), translating and dropping; the same inputs "
            "translated over and over by one translator, by several threads, and through the interactive prompt; test files checked by worker "
            "threads under descriptor limits; open descriptors, live heap bytes and threads are read from the simulator after every step; "
            "non-trivial: at least six cycles")
    shrink = [("fs", "files"), ("fs", "links"), ("fs", "dirs"), ("fs", "files", "*"), ("tables",), ("ins",), ("ins", "*"), ("cfg", "faults"),
              ("cfg", "chunk"), ("cfg", "eintr"), ("lines",)]

    def gen(self, r, i):
        kind = r.choice(KINDS)
        if kind in ("cycle", "threads", "check"):
            c = tree.tree(r, p_bad=r.choice([0, 0, 0.05]), p_missing=r.choice([0, 0, 0.2]), p_cycle=r.choice([0, 0, 0.2]), p_dic=0.5,
                          p_utf8=r.choice([0, 0, 0, 0.2]), p_mode=r.choice([0, 0, 0, 0.2]), nmax=4,
                          p_scale=0 if kind == "threads" else 0.02)
        else:
            c = {"fs": {"files": {"/w/t.utb": gen.render(r, tie_table(r) if r.random() < 0.5 else gen.table_lines(r), noise=False)}},
                 "cwd": "/w", "env": {}, "tables": ["t.utb"]}
        c["kind"] = kind
        c["dir"] = r.choice(["F", "F", "B"])
        c["ins"] = [[s, gen.modes(r), gen.spans(r, s)] for s in gen.inputs(r, r.randint(2, 5), back=c["dir"] == "B")]
        if kind == "threads":
            # two threads take turns at every few steps of every cycle
            c["ins"] = [[x[0][:150], x[1], [y for y in x[2] if y[2] <= 150]] for x in c["ins"]]
        c["cfg"] = gen.cfg(r, kind in ("threads", "check"))
        c["cfg"].pop("urandom", None)   # the standard library keeps that descriptor
        c["cfg"]["maxticks"] = 4_000_000_000
        c["cycles"] = r.choice([7, 8, 12])
        if kind == "repeat" and r.random() < 0.25:
            # many short texts
            c["cycles"] = 90
            c["ins"] = [[r.choice(gen.LOWER + "xyzXYZ\u00e9") + gen.letters(r, 0, 2, gen.LOWER + "xq"), 0, []] for _ in range(2)]
        elif kind == "cycle" and r.random() < 0.04:
            c["cycles"] = 70
            c["ins"] = c["ins"][:1]
        if r.random() < 0.3:
            c["ins"][0][0] += "xyz\u00e9"
        c["ins"] = [x[:1] if not x[1] and not x[2] and r.random() < 0.4 else x for x in c["ins"]]
        if kind in ("cycle", "check") and r.random() < 0.5:
            c["cfg"]["faults"] = faults(r, sorted(c["fs"]["files"]), alloc=0)
            # some faults never stop
            if r.random() < 0.5:
                for f in c["cfg"]["faults"]:
                    f[3] = 10 ** 6
        if kind == "repl":
            c["lines"] = [s for s in gen.inputs(r, r.randint(1, 3), back=c["dir"] == "B") if s] or ["a"]
            c["cmd"] = r.choice(["translate", "translate", "trace", "parse"])
        if kind == "check":
            n = r.randint(3, 10)
            for k in range(n):
                inline = r.random() < 0.5
                t = "table: " + r.choice(c["tables"]) if not inline else "table: |\n  space \\s 0\n  letter a 1\n" + (
                    "  include %s\n" % r.choice(c["tables"]) if r.random() < 0.5 else "")
                y = t.rstrip("\n") + "\ntests:\n" + "".join("  - [\"%s\", \"x\"]\n" % gen.letters(r) for _ in range(r.randint(1, 3)))
                if r.random() < 0.2:
                    y = y[:r.randint(0, len(y))]
                c["fs"]["files"]["/w/y%d.yaml" % k] = y
            c["yamls"] = n
            c["env"]["RAYON_NUM_THREADS"] = str(r.choice([1, 2, 3]))
            if r.random() < 0.5:
                c["cfg"]["maxfds"] = 12
        return c

    def judge(self, case, ctx):
        v = getattr(self, case["kind"])(case, ctx)
        if v is not None and v.kind == "memory":
            # a steady rise, not a coincidence of a few samples or a buffer of limited size that fills up
            v = getattr(self, case["kind"])(dict(case, cycles=30 if case["cycles"] < 30 else 4 * case["cycles"]), ctx)
        return v

    def cycle(self, case, ctx):
        if not case["tables"] or not all(case["tables"]):
            return None
        ops = []
        per = len(case["ins"]) + 2
        for k in range(case["cycles"]):
            ops.append(["N", 0, case["dir"], case["tables"]])
            ops += [["T", 0] + x for x in case["ins"]]
            ops.append(["D", 0])
        rep = ctx.run(world(case, case["cfg"], "driver", script=[[ops]]), det=getattr(ctx, "det_now", False))
        if rep.outcome() != "exit:0":
            return Violation("ends", "process ends with %s" % rep.outcome())
        return self.levels(case, ctx, rep, ops, per)

    def levels(self, case, ctx, rep, ops, per):
        got = parse_emit(rep.emit)
        live = []
        for i, op in enumerate(ops):
            o = got.get((0, 0, i))
            if o is None:
                return Violation("missing", "no result of %r" % (op,))
            if o.kind == "PANIC":
                return Violation("panic", "%s %r panics: %s" % (op[0], op[2:4], o.val))
            if o.fds != 0:
                return Violation("descriptors", "%d descriptors open after %s %r (%s)" % (o.fds, op[0], op[2:4], o.kind))
            if o.nt != 1:
                return Violation("threads", "%d threads alive after %s" % (o.nt, op[0]))
            live.append(o.live)
        if rep.h["bad_close"]:
            return Violation("double-close", "%d closes of descriptors that were not open" % rep.h["bad_close"])
        ends = live[per - 1::per]
        if growth(ends):
            return Violation("memory", "live heap bytes after each cycle keep growing: %r (%r)" % (ends, case["tables"]))
        ctx.probe("cycles", len(ends))
        return None

    def repeat(self, case, ctx):
        ops = [["N", 0, case["dir"], case["tables"]]]
        per = len(case["ins"])
        if not per or not case["tables"]:
            return None
        for k in range(case["cycles"]):
            ops += [["T", 0] + x for x in case["ins"]]
        rep = ctx.run(world(case, case["cfg"], "driver", script=[[ops]]), det=getattr(ctx, "det_now", False))
        if rep.outcome() != "exit:0":
            return Violation("ends", "process ends with %s" % rep.outcome())
        got = parse_emit(rep.emit)
        live = [got[(0, 0, i)].live for i in range(1, len(ops))]
        if any(o.kind == "PANIC" for o in got.values()):
            return None
        for i in range(len(ops)):
            if got[(0, 0, i)].fds or got[(0, 0, i)].nt != 1:
                return Violation("descriptors", "%d descriptors and %d threads after operation %d" % (got[(0, 0, i)].fds, got[(0, 0, i)].nt, i))
        ends = live[per - 1::per]
        if growth(ends):
            return Violation("memory", "one translator asked the same inputs %r again and again holds ever more heap: %r" % (case["ins"], ends))
        ctx.probe("cycles", len(ends))
        return None

    def threads(self, case, ctx):
        if not case["tables"] or not all(case["tables"]):
            return None
        phases = []
        for k in range(case["cycles"]):
            phases.append([[["N", t, case["dir"], case["tables"]]] + [["T", t] + x for x in case["ins"]] + [["D", t]] for t in range(2)])
            phases.append([[["Y", 40], ["M"]]])
        rep = ctx.run(world(case, case["cfg"], "driver", script=phases), det=getattr(ctx, "det_now", False))
        if rep.outcome() != "exit:0":
            return Violation("ends", "process ends with %s" % rep.outcome())
        got = parse_emit(rep.emit)
        if any(o.kind == "PANIC" for o in got.values()):
            return None
        ms = [got[(2 * k + 1, 0, 1)] for k in range(case["cycles"])]
        if any(m.fds for m in ms):
            return Violation("descriptors", "descriptors left open after concurrent cycles: %r" % [m.fds for m in ms])
        if growth([m.live for m in ms]):
            return Violation("memory", "live heap bytes after concurrent cycles keep growing: %r" % [m.live for m in ms])
        if growth([m.nt for m in ms]):
            return Violation("memory", "threads left alive: %r" % [m.nt for m in ms])
        ctx.probe("cycles", len(ms))
        return None

    def repl(self, case, ctx):
        if not case["lines"]:
            return None
        text = "".join(x + "\n" for x in case["lines"])
        argv = [case["cmd"]] + (["-d", "backward"] if case["dir"] == "B" and case["cmd"] != "parse" else []) + (
            [case["tables"][0]] if case["cmd"] != "parse" else [])
        n = case["cycles"]
        w = world(case, case["cfg"], "cli", argv, stdin=(text * n).encode())
        w.stdin_chunks = [len(text.encode())] * n
        w.eintr = 0
        rep = ctx.run(w, log=True)
        if rep.outcome() != "exit:0":
            return None
        lives = [int(x.rsplit("live=", 1)[1]) for x in rep.log.split("\n") if " stdin " in x and "live=" in x]
        if rep.h["open_fds"]:
            return Violation("descriptors", "%d descriptors open at the end of louis %s" % (rep.h["open_fds"], argv))
        if growth(lives[2:-1]):
            return Violation("memory", "louis %s answering %r again and again holds ever more heap: %r" % (argv, case["lines"], lives))
        ctx.probe("cycles", len(lives))
        return None

    def check(self, case, ctx):
        names = [p[3:] for p in sorted(case["fs"]["files"]) if p.endswith(".yaml")]
        if not names:
            return None
        rep = ctx.run(world(case, case["cfg"], "cli", ["check"] + names))
        if rep.outcome() not in ("exit:0", "exit:101"):
            return Violation("ends", "louis check ends with %s" % rep.outcome())
        if rep.h["open_fds"] or rep.h["bad_close"]:
            return Violation("descriptors", "louis check leaves %d descriptors open, closes %d twice" % (rep.h["open_fds"], rep.h["bad_close"]))
        lim = case["cfg"].get("maxfds")
        if lim and not case["cfg"].get("faults"):
            free = dict(case["cfg"])
            del free["maxfds"]
            a = ctx.run(world(case, free, "cli", ["check"] + names))
            if (a.outcome(), a.stdout, a.stderr) != (rep.outcome(), rep.stdout, rep.stderr):
                return Violation("limit", "louis check of %d files under a limit of %d descriptors prints %r instead of %r" % (
                    len(names), lim, rep.stderr[:300], a.stderr[:300]))
        ctx.probe("checks")
        return None

    def nontrivial(self, case):
        return case["cycles"] >= 6


CHECK = C()
