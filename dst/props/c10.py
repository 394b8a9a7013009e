from dst import gen, work
from dst.core import Check, Violation, world
from dst.props.c03 import faults
from dst.sim import forced_from, parse_emit


class C(Check):
    id = "C10"
    title = "Nothing but reading, the terminal and worker threads"
    quick_n = 18000
    thorough_n = 600000
    rule = ("random commands and sequences of library calls over random worlds (with home, cache and temporary directories to be tempted by), with and "
            "without failures of opening, reading, listing, writing to the terminal, allocating and starting threads; every call that would change the "
            "file system, start a process, open a socket or change the environment is counted by the simulator; the library may not write to the "
            "terminal; non-trivial: the run performs at least one file operation")
    shrink = [("fs", "files"), ("fs", "links"), ("fs", "dirs"), ("fs", "files", "*"), ("ops",), ("argv",), ("stdin",), ("cfg", "*"), ("cfg", "faults", "*"),
              ("tables",)]

    def gen(self, r, i):
        c = work.world_of(r)
        c["cfg"] = gen.cfg(r, True)
        c["cfg"].pop("urandom", None)
        c["cfg"]["maxticks"] = 2_000_000_000
        if r.random() < 0.6:
            c["env"].update({"HOME": "/home/u", "XDG_CACHE_HOME": "/home/u/.cache", "TMPDIR": "/tmp"})
            for d in ("/home/u", "/home/u/.cache", "/tmp", "/home/u/.config"):
                c["fs"]["dirs"][d] = 0o777
        if r.random() < 0.4:
            c["cfg"]["tty"] = r.choice([2, 4, 7, 7]) + 8 * r.choice([0, 20, 80])
            c["env"].update({"PAGER": "less", "EDITOR": "vi", "TERM": "xterm"})
        if r.random() < 0.2:
            c["env"]["RUST_LOG"] = r.choice(["warn", "error", "debug", "louis=trace"])
        if r.random() < 0.35:
            ops = []
            slots = 0
            for _ in range(r.randint(1, 12)):
                k = r.random()
                if slots == 0 or k < 0.2:
                    ops.append(["N", slots, r.choice("FFB"), c["tables"]])
                    slots += 1
                elif k < 0.3:
                    ops.append(["S", slots, r.choice("FFB"), gen.render(r, gen.table_lines(r), noise=False)])
                    slots += 1
                elif k < 0.35:
                    ops.append(["D", r.randrange(slots)])
                else:
                    s = gen.text(r) if r.random() < 0.7 else gen.braille(r)
                    ops.append(["T", r.randrange(slots), s, gen.modes(r), gen.spans(r, s)])
            c["ops"] = ops
            c["argv"] = None
        else:
            c["ops"] = None
            c["argv"], c["stdin"] = work.command(r, c)
        if r.random() < 0.5:
            f = faults(r, sorted(c["fs"]["files"]), alloc=0.05)
            if c["argv"] and r.random() < 0.4:
                a = r.randint(1, 6)
                f.append([r.choice(["stdout", "stderr", "opendir", "readdir", "thread"]), None, a, a + r.choice([1, 100]), "errno",
                          r.choice(["EIO", "EACCES", "EAGAIN"])])
            c["cfg"]["faults"] = f
        return c

    def judge(self, case, ctx):
        if case["argv"]:
            if len(case["argv"]) < 2 and case["argv"] != ["parse"]:
                return None
            rep = ctx.run(world(case, case["cfg"], "cli", case["argv"], stdin=case["stdin"].encode()), log=True, det=getattr(ctx, "det_now", False))
            what = "louis %r" % case["argv"]
        else:
            if not case["ops"] or not case["tables"] or not all(case["tables"]):
                return None
            rep = ctx.run(world(case, case["cfg"], "driver", script=[[case["ops"]]]), log=True, det=getattr(ctx, "det_now", False))
            what = "the library calls %r" % [op[0] for op in case["ops"]]
        h = rep.h
        ctx.probe("commands" if case["argv"] else "library")
        ctx.probe("file_operations", sum(rep.op_count[k] for k in ("open", "stat", "realpath", "opendir")))
        if h["mutating"] or h["foreign"]:
            lines = [x for x in rep.log.split("\n") if "MUTATING" in x or "FOREIGN" in x]
            return Violation("foreign" if h["foreign"] else "mutating", "%s attempted %d changes of the file system and %d other outside effects: %r" % (
                what, h["mutating"], h["foreign"], lines[:4]), ["cfg"], forced_from(rep))
        if rep.outcome() in ("hang", "deadlock") or rep.outcome().startswith("signal") and rep.outcome() != "signal:6":
            return Violation("ends", "%s ends with %s" % (what, rep.outcome()))
        if not case["argv"] and rep.outcome() == "exit:0":
            e = parse_emit(rep.emit)
            if (rep.stdout or rep.stderr) and not any(o.kind == "PANIC" for o in e.values()):
                return Violation("chatter", "%s print %r and %r" % (what, rep.stdout[:300], rep.stderr[:300]))
            if rep.op_count["stdin"]:
                return Violation("input", "%s read standard input" % what)
        return None


CHECK = C()
