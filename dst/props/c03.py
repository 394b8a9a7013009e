from dst import gen, tree
from dst.core import PLAIN, Check, Violation, world
from dst.sim import forced_from, op_key, parse_emit
from dst.tree import show

ERRNOS = {"open": ["EIO", "EMFILE", "ENFILE", "EACCES", "ENOENT", "ENOMEM", "ELOOP", "EINTR", "ESTALE"],
          "read": ["EIO", "EIO", "EINTR", "EAGAIN", "ENOMEM", "EISDIR", "ESTALE", "ETIMEDOUT"],
          "stat": ["EIO", "EACCES", "ENOENT", "ENOMEM", "ELOOP", "ESTALE"],
          "realpath": ["EIO", "EACCES", "ENOENT", "ENOMEM", "ELOOP", "ENAMETOOLONG"],
          "alloc": ["ENOMEM"], "cwd": ["ENOENT", "EACCES"]}
LETTERS = "".join(tree.SHARED)
IO = ("TableNotReadable(", "TableNotFound(", "HyphenationTableNot", "Hyphenation", "TranslationFailed", "IoError", "Io(")


def faults(r, files, alloc=0.12):
    o = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        op = r.choice(["open", "open", "read", "read", "read", "stat", "realpath"])
        if r.random() < alloc:
            op = "alloc"
        path = None if op == "alloc" or r.random() < 0.4 else r.choice(files)
        a = r.randint(0, 2 if path else 12)
        if op == "alloc":
            a = r.randint(0, 4000)
        n = r.choice([1, 1, 1, 2, 5])
        act = "errno"
        arg = r.choice(ERRNOS[op])
        if op == "read" and r.random() < 0.15:
            act, arg = "short", r.randint(1, 9)
        elif op in ("open", "read") and r.random() < 0.08:
            act, arg = "delay", r.choice([1000, 10 ** 9, 10 ** 14])
        o.append([op, path, a, a + n, act, arg])
    return o


def unambiguous(fs, files):
    """a file whose status cannot be asked for counts as missing: another one of that name is right then"""
    if len({f.rsplit("/", 1)[-1] for f in files}) == len(files):
        return fs
    return [x for x in fs if x[0] != "stat"]


def plain(cfg):
    return dict(PLAIN)


class C(Check):
    id = "C03"
    title = "A load under I/O failures is all or nothing, and retryable"
    quick_n = 9000
    thorough_n = 400000
    rule = ("random trees of uniquely named tables and dictionaries; failures of open, read, stat, path resolution and allocation injected at random "
            "points of a sequence of loads; a load that reports success must translate like the fault-free load of the same files, a failed one must "
            "report an I/O error, loads after the last fault must succeed; same for the command line; non-trivial: a fault was planned for a "
            "world of at least two files")
    shrink = [("fs", "files"), ("fs", "dirs"), ("fs", "files", "*"), ("tables",), ("fprobes",), ("bprobes",), ("fprobes", "*"), ("cfg", "faults"),
              ("cfg", "chunk"), ("cfg", "eintr"), ("cfg", "dtunknown"), ("loads",), ("repair",)]

    def gen(self, r, i):
        c = tree.tree(r, p_links=0, unique=True, p_dirs=0, p_dic=0.5, p_bad=0.02 if r.random() < 0.2 else 0,
                      p_missing=0.15 if r.random() < 0.15 else 0)
        # make every file observable: a dictionary vetoes this rule's match
        for p, t in list(c["fs"]["files"].items()):
            if p.endswith(".dic") and len(p.rsplit("/", 1)[-1]) > 4:
                c["fs"]["files"][p] = t + "a1b\nc1d\n"
            elif "include" in t and ".dic" in t:
                c["fs"]["files"][p] = t.rstrip("\r\n") + "\nnocross always ab 123456\nnocross always cd 23456\n"
        c["fprobes"] = [LETTERS, "ab cd abcd", gen.text(r)]
        c["bprobes"] = tree.back_probes(r, 1)
        c["cfg"] = gen.cfg(r)
        files = sorted(c["fs"]["files"])
        c["cfg"].pop("urandom", None)
        c["cfg"]["faults"] = faults(r, files)
        if r.random() < 0.1:
            # one failure in the middle of one file
            c["cfg"]["chunk"] = r.choice([3, 7, 16, 31])
            c["cfg"].pop("eintr", None)
            n = r.randint(2, 6)
            c["cfg"]["faults"] = [["read", r.choice(files), n, n, "errno", r.choice(ERRNOS["read"] + ["ESTALE", "ETIMEDOUT"])]]
        dirs = sorted({f.rsplit("/", 1)[0] or "/" for f in files})
        if r.random() < 0.2:
            # later directories of the search path have other tables of the same names, which nobody asked for
            c["env"]["LOUIS_TABLE_PATH"] = (c["env"].get("LOUIS_TABLE_PATH") or "/w") + ":/other"
            for f in files:
                if r.random() < 0.7:
                    c["fs"]["files"].setdefault("/other/" + f.rsplit("/", 1)[-1], "\n".join(gen.table_lines(r, 3)) + "\n" if r.random() < 0.5 else c["fs"]["files"][f].replace(" 1", " 2"))
        c["cfg"]["faults"] = unambiguous(c["cfg"]["faults"], c["fs"]["files"])
        c["loads"] = ["F"] * r.randint(1, 3) + (["B"] if r.random() < 0.4 else [])
        if r.random() < 0.1:
            c["cfg"]["maxfds"] = r.choice([3, 4, 5])
        c["cli"] = r.random() < 0.5
        if r.random() < 0.15:
            # files that are broken for a while rather than a device that is
            c["repair"] = {}
            for f in r.sample(files, min(len(files), r.choice([1, 1, 1, 2]))):
                t = c["fs"]["files"][f]
                k = r.random()
                if k < 0.35:
                    c["repair"][f] = t + "# \udcff\n"
                elif k < 0.6:
                    c["repair"][f] = t + r.choice(gen.BAD_LINES) + "\n"
                elif k < 0.8:
                    c["repair"][f] = None
                else:
                    c["repair"][f] = t + "include /nowhere/x.ctb\n"
            c["cfg"]["faults"] = []
            c["cfg"].pop("maxfds", None)
        elif r.random() < 0.15:
            # several threads load at the same time
            c["threads"] = r.randint(2, 4)
            c["cfg"]["policy"] = gen.policy(r)
            c["cfg"]["schedseed"] = r.getrandbits(32)
            c["cfg"]["maxticks"] = 1_000_000_000
            c["cfg"].pop("maxfds", None)
            c["cfg"]["faults"] = [x for x in c["cfg"]["faults"] if x[0] != "alloc"]
        return c

    def judge(self, case, ctx):
        if not case["tables"] or not all(case["tables"]):
            return None
        if case.get("repair"):
            return self.repair(case, ctx)
        if case.get("threads"):
            return self.concurrent(case, ctx)
        ops = []
        for k, d in enumerate(case["loads"]):
            ops.append(["N", k, d, case["tables"]])
            ops += [["T", k, s] for s in case["fprobes" if d == "F" else "bprobes"]]
        ref = ctx.run(world(case, PLAIN, "driver", script=[[ops]]))
        want = parse_emit(ref.emit)
        if ref.outcome() != "exit:0":
            return None
        alloc = any(f[0] == "alloc" for f in case["cfg"]["faults"])
        rep = ctx.run(world(case, case["cfg"], "driver", script=[[ops]]), det=getattr(ctx, "det_now", False))
        got = parse_emit(rep.emit)
        if rep.outcome() != "exit:0":
            if alloc and rep.h["fired_total"] and rep.outcome() in ("signal:6", "exit:101"):
                ctx.probe("alloc_abort")
            else:
                return Violation("ends", "loading under faults %r ends the process with %s: %s" % (
                    case["cfg"]["faults"], rep.outcome(), rep.stderr.decode("utf-8", "replace")[-300:]))
        fired = 0
        loaded = False
        lim = "maxfds" in case["cfg"]
        for i, op in enumerate(ops):
            w, g = want.get((0, 0, i)), got.get((0, 0, i))
            if g is None:
                if rep.outcome() == "exit:0":
                    return Violation("no-result", "no result of %r" % (op,))
                break
            hit = g.fired - fired
            fired = g.fired
            if op[0] == "N":
                loaded = g.kind == "OK"
                if hit or lim:
                    ctx.probe("load_hit_ok" if loaded else "load_hit_error")
                    if g.kind == "ERR":
                        known = {d for _, d in w.errs}
                        for _, d in g.errs:
                            if d not in known and not any(x in d for x in IO):
                                return Violation("misreported", "a load of %r under faults %r reports %s, which is not true of the files" % (
                                    case["tables"], case["cfg"]["faults"], d))
                        if not g.errs:
                            return Violation("empty-report", "a failed load reports no error")
                        continue
                    if g.kind == "OK" and w.kind == "OK":
                        continue
                    if g.kind == "PANIC" and alloc:
                        continue
                    return Violation("accepted" if g.kind == "OK" else "panic", "load of %r under faults %r gives %s, without faults %s" % (
                        case["tables"], case["cfg"]["faults"], show(g), show(w)))
                ctx.probe("load_clean_after_fault" if fired else "load_clean")
                if op_key(w) != op_key(g):
                    return Violation("not-retryable" if fired else "wrong", "load %d of %r met no fault and gives %s, expected %s (faults %r)" % (
                        i, case["tables"], show(g), show(w), case["cfg"]["faults"]))
            elif loaded and not (hit and g.kind == "PANIC"):
                if op_key(w) != op_key(g):
                    return Violation("partial", "load of %r under faults %r succeeded but translates %r as %s, a complete load gives %s" % (
                        case["tables"], case["cfg"]["faults"], op[2], show(g), show(w)))
        if not case["cli"]:
            return None
        text = " ".join(case["fprobes"]) or "a"
        argv = [("trace" if len(text) % 2 else "translate"), case["tables"][0], text]
        ref = ctx.run(world(case, PLAIN, "cli", argv))
        rep = ctx.run(world(case, case["cfg"], "cli", argv))
        if ref.outcome() != "exit:0":
            return None
        if rep.outcome() != "exit:0":
            if alloc and rep.h["fired_total"] and ref.stdout.startswith(rep.stdout):
                ctx.probe("cli_alloc_abort")
                return None
            return Violation("cli-ends", "louis %s under faults %r ends with %s" % (argv, case["cfg"]["faults"], rep.outcome()))
        if rep.stdout != ref.stdout or (rep.stdout and rep.stderr != ref.stderr):
            if rep.stdout or not rep.stderr or not (rep.h["fired_total"] or lim):
                return Violation("cli-partial", "louis %s under faults %r prints %r and %r, without faults %r" % (
                    argv, case["cfg"]["faults"], rep.stdout.decode("utf-8", "replace")[:400], rep.stderr.decode("utf-8", "replace")[:400],
                    ref.stdout.decode("utf-8", "replace")[:400]))
            ctx.probe("cli_error")
        else:
            ctx.probe("cli_exact")
        return None

    def repair(self, case, ctx):
        """loads of broken files, a repair, loads of the repaired files, all in one process"""
        fix = {f: t for f, t in case["repair"].items() if f in case["fs"]["files"]}
        ops = []
        for k, d in enumerate(case["loads"]):
            ops.append(["N", k, d, case["tables"]])
            ops += [["T", k, s] for s in case["fprobes" if d == "F" else "bprobes"]]
        broken = dict(case["fs"], files={f: fix.get(f, t) for f, t in case["fs"]["files"].items() if fix.get(f, t) is not None})
        want = []
        for fs in (broken, case["fs"]):
            ref = ctx.run(world(dict(case, fs=fs), PLAIN, "driver", script=[[ops]]))
            if ref.outcome() != "exit:0":
                return None
            want.append(parse_emit(ref.emit))
        muts = [["phase", None, 2, False, "replace", f, case["fs"]["files"][f]] for f in sorted(fix)]
        rep = ctx.run(world(dict(case, fs=broken), dict(case["cfg"], muts=muts), "driver", script=[[ops], [ops], [ops]]),
                      det=getattr(ctx, "det_now", False))
        if rep.outcome() != "exit:0":
            return Violation("ends", "process ends with %s" % rep.outcome())
        got = parse_emit(rep.emit)
        ctx.probe("repaired_after_error" if any(o.kind == "ERR" for o in want[0].values()) else "repaired")
        for ph, ref in ((0, want[0]), (1, want[1]), (2, want[1])):
            loaded = False
            for i, op in enumerate(ops):
                w, g = ref.get((0, 0, i)), got.get((ph, 0, i))
                if op[0] == "N":
                    loaded = w.kind == "OK"
                elif not loaded:
                    # the translator of an earlier phase
                    continue
                if op_key(w) != op_key(g):
                    return Violation("not-retryable" if ph else "wrong", "%s of %r %s the files %r were repaired gives %s, expected %s" % (
                        "load" if op[0] == "N" else "translation %r after a load" % op[2], case["tables"], "after" if ph else "before",
                        sorted(fix), show(g), show(w)))
        return None

    def concurrent(self, case, ctx):
        """threads that load the same tables at the same time under failures, then once more one after the other"""
        n = case["threads"]
        load = lambda s, d: [["N", s, d, case["tables"]]] + [["T", s, x] for x in case["fprobes" if d == "F" else "bprobes"]]
        want = {}
        for d in "FB":
            ref = ctx.run(world(case, PLAIN, "driver", script=[[load(0, d)]]))
            if ref.outcome() != "exit:0":
                return None
            e = parse_emit(ref.emit)
            want[d] = [e[(0, 0, i)] for i in range(len(load(0, d)))]
        dirs = [case["loads"][t % len(case["loads"])] for t in range(n)]
        script = [[load(2 * t, dirs[t]) + load(2 * t + 1, dirs[t]) for t in range(n)], [load(2 * n, dirs[0]) + load(2 * n + 1, dirs[0])],
                  [load(2 * t, dirs[t]) for t in range(n)]]
        rep = ctx.run(world(case, case["cfg"], "driver", script=script), det=getattr(ctx, "det_now", False))
        got = parse_emit(rep.emit)
        at = (["cfg"], forced_from(rep))
        F = case["cfg"]["faults"]
        if rep.outcome() != "exit:0":
            return Violation("ends", "loading from %d threads under faults %r ends with %s: %s" % (
                n, F, rep.outcome(), rep.stderr.decode("utf-8", "replace")[-300:]), *at)
        fired = max([o.fired for k, o in got.items() if k[0] == 0] or [0])
        total = rep.h["fired_total"]
        for ph, threads in enumerate(script):
            for t, ops in enumerate(threads):
                loaded = False
                for i, op in enumerate(ops):
                    d = dirs[t if ph != 1 else 0]
                    w, g = want[d][i % len(load(0, d))], got.get((ph, t, i))
                    if g is None:
                        return Violation("no-result", "no result of %r" % (op,), *at)
                    hit = ph == 0 and bool(total) or ph == 1 and g.fired > fired or ph == 2 and total > fired
                    if ph == 1:
                        fired = g.fired
                    if op[0] == "N":
                        loaded = g.kind == "OK"
                        if g.kind == "ERR" and hit:
                            known = {x for _, x in w.errs}
                            for _, x in g.errs:
                                if x not in known and not any(y in x for y in IO):
                                    return Violation("misreported", "a load of %r under faults %r reports %s, which is not true of the files" % (
                                        case["tables"], F, x), *at)
                            if not g.errs:
                                return Violation("empty-report", "a failed load reports no error", *at)
                            ctx.probe("concurrent_error")
                        elif op_key(w) != op_key(g):
                            return Violation("not-retryable" if ph else "accepted", "load of %r by thread %d of phase %d gives %s, expected %s (faults %r)" % (
                                case["tables"], t, ph, show(g), show(w), F), *at)
                        else:
                            ctx.probe("concurrent_ok")
                    elif loaded and op_key(w) != op_key(g):
                        return Violation("partial", "load of %r by thread %d of phase %d under faults %r succeeded but translates %r as %s, a complete load gives %s" % (
                            case["tables"], t, ph, F, op[2], show(g), show(w)), *at)
        return None

    def nontrivial(self, case):
        return len(case["fs"]["files"]) > 1


CHECK = C()
