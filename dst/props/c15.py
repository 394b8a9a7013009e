from dst import gen, model, tree, yamlgen
from dst.core import PLAIN, Check, Violation, world
from dst.props.c01 import tie_table
from dst.sim import parse_emit

BIG = dict(PLAIN, maxticks=2_000_000_000)
NEVER = "\u4e8c\u4e8c\u4e8c"


class C(Check):
    id = "C15"
    title = "Command line, prompt, tracing, test runner and library agree"
    quick_n = 8000
    thorough_n = 300000
    rule = ("random tables (single files and include trees behind search paths, well-formed or not) and inputs in both directions; each translation asked "
            "of the library (from files and from memory), of louis translate, louis trace, the interactive prompts and louis check, in separate "
            "simulated processes with different nondeterminism; outputs and error reports must agree; non-trivial: at least one input")
    shrink = [("fs", "files"), ("fs", "links"), ("fs", "dirs"), ("fs", "files", "*"), ("ins",), ("ins", "*"), ("cfgs", "*", "*")]

    def gen(self, r, i):
        if r.random() < 0.5:
            c = tree.tree(r, p_bad=r.choice([0, 0, 0.05]), p_missing=r.choice([0, 0, 0.1]), p_cycle=r.choice([0, 0, 0, 0.1]), nmax=4)
            if r.random() < 0.7:
                c["tables"] = c["tables"][:1]
            elif len(c["tables"]) < 2:
                c["tables"] = c["tables"] + r.sample(sorted({p.rsplit("/", 1)[-1] for p in c["fs"]["files"]} | {"missing.utb"}), 1)
        else:
            lines = tie_table(r) if r.random() < 0.5 else gen.table_lines(r)
            if r.random() < 0.05:
                lines.insert(r.randrange(len(lines)), r.choice(gen.BAD_LINES))
            t = gen.render(r, lines, noise=r.random() < 0.3)
            if r.random() < 0.12:
                # characters that a reader of lines could treat in its own way
                k = r.choice([0, 0, r.randint(0, len(t)), len(t), t.find("\n") + 1])
                t = t[:k] + r.choice(["\ufeff", "\ufeff", "\x0c", "\r", "\0", "\u2028", "\u0085", "\x1a", "\x0b", "\n\n", "\r\n", "\\"]) + t[k:]
            c = {"fs": {"files": {"/w/t.utb": t}, "dirs": {"/w": 0o755}, "links": {}}, "cwd": "/w", "env": {}, "tables": ["t.utb"]}
        c["dir"] = r.choice(["F", "F", "B"])
        c["ins"] = []
        ins = gen.inputs(r, r.randint(1, 5), back=c["dir"] == "B")
        if r.random() < 0.15:
            # the other direction's texts, and texts that look like something else
            k = r.randint(0, len(ins))
            ins[k:k] = gen.inputs(r, 1, back=c["dir"] != "B") if r.random() < 0.7 else [
                r.choice(["-", "--help", "q", "quit", "exit", "help", ":q", "#", "# a", "include a.utb", "$HOME", "%a", "a\\x0041", "\\s", "1", "a=b"])]
        for s in ins:
            s = s.replace("\u0301", "e")
            if r.random() < 0.12:
                s = r.choice(["", "", " ", "\t", "\u00a0"]) + s + r.choice(["", " ", "  ", "\t", "\u00a0", "\u3000"])
            if r.random() < 0.06:
                # several lines, which only an argument, a test or a caller can give
                k = r.choice([0, r.randint(0, len(s)), r.randint(0, len(s)), len(s)])
                s = s[:k] + r.choice(["\n", "\n", "\r\n", "\n\n", "\r", "\x0b", "\x0c", "\u2028"]) + s[k:]
            c["ins"].append([s, gen.modes(r), [x for x in gen.spans(r, s)]])
        c["cfgs"] = [gen.cfg(r, k == 3) for k in range(5)]
        for k in c["cfgs"]:
            k["maxticks"] = 2_000_000_000
        c["cfgs"][3].pop("eintr", None)     # the YAML reader takes an interrupted read for a failure
        c["env"]["RAYON_NUM_THREADS"] = str(r.choice([1, 2, 3]))
        c["style"] = r.choice(["", "table", "blank"])
        return c

    def judge(self, case, ctx):
        t = case["tables"][0] if case["tables"] else ""
        if not t or t.startswith("-") or not all(case["tables"]):
            return None
        many = len(case["tables"]) > 1      # several tables together: only a test file can ask for them
        d = case["dir"]
        back = ["-d", "backward"] if d == "B" else []
        ops = [["N", 0, d, case["tables"]]]
        plain = [x[0] for x in case["ins"] if x[0] and "\n" not in x[0] and not x[0].endswith("\r")]
        for s in plain:
            ops.append(["T", 0, s])
        for x in case["ins"]:
            ops.append(["T", 0] + x)
        multi = [x[0] for x in case["ins"] if x[0] not in plain and "\0" not in x[0]]
        at_multi = len(ops)
        for s in multi:
            ops.append(["T", 0, s])
        src = None
        p = case["fs"]["files"].get("/w/t.utb")
        if not many and t == "t.utb" and isinstance(p, str) and "include" not in p:
            src = len(ops)
            ops.append(["S", 1, d, p])
            for s in plain:
                ops.append(["T", 1, s])
        rep = ctx.run(world(case, case["cfgs"][0], "driver", script=[[ops]]), det=getattr(ctx, "det_now", False))
        if rep.outcome() != "exit:0":
            return Violation("ends", "the library ends with %s" % rep.outcome())
        e = parse_emit(rep.emit)
        if any(o.kind == "PANIC" for o in e.values()):
            return Violation("panic", "the library panics where the other ways give an answer or a report: %r" % [
                (ops[k[2]][0], o.val) for k, o in sorted(e.items()) if o.kind == "PANIC"][:3])
        load = e[(0, 0, 0)]

        def cli(k, argv, stdin=b""):
            r = ctx.run(world(case, case["cfgs"][k], "cli", argv, stdin=stdin))
            return r.outcome(), r.stdout.decode("utf-8", "replace"), r.stderr.decode("utf-8", "replace")

        table = yamlgen.flow(case["tables"] if many else t)
        if src is not None:
            # the same text in memory and in a file
            m = e[(0, 0, src)]
            if (m.kind == "ERR") != (load.kind == "ERR"):
                return Violation("memory", "the same text: from the file %s, from memory %s" % (tree.show(load), tree.show(m)))
            if m.kind == "ERR":
                a = [x.replace('path: Some("./t.utb")', "path: None") for _, x in load.errs]
                b = [x for _, x in m.errs]
                if a != b:
                    return Violation("memory", "the same text is rejected with %r from the file and with %r from memory" % (a[:3], b[:3]))
        if load.kind == "ERR" and load.errs:
            y = "table: %s\nflags: {testmode: %s}\ntests:\n  - [a, b]\n" % (table, "forward" if d == "F" else "backward")
            fs = dict(case["fs"], files=dict(case["fs"]["files"], **{"/w/zz.yaml": y}))
            rep = ctx.run(world(dict(case, fs=fs), case["cfgs"][3], "cli", ["check", "zz.yaml"]))
            out, err = rep.stdout.decode("utf-8", "replace"), rep.stderr.decode("utf-8", "replace")
            dbg = [x for _, x in load.errs]
            if dbg[0].startswith("TranslationFailed("):
                exp = "zz.yaml: Error when compiling table %s\n" % dbg[0][len("TranslationFailed("):-1]
            else:
                exp = "zz.yaml: Errors in table [%s]\n" % ", ".join(dbg)
            if (rep.outcome(), out, err) != ("exit:0", "", exp):
                return Violation("check-errors", "the library rejects %r with %r, louis check prints %r and reports %r (%s)" % (
                    case["tables"], dbg[:4], out[:200], err[:400], rep.outcome()))
            ctx.probe("rejected_together" if many else "rejected_by_check")
        if load.kind == "ERR":
            ctx.probe("rejected")
            if many:
                return None
            first = plain[0] if plain else "a"
            reports = []
            for k, argv, stdin in ((1, ["translate"] + back + [t, "--", first], b""), (2, ["trace"] + back + [t, "--", first], b""),
                                   (4, ["translate"] + back + [t], b"a\n"), (1, ["trace"] + back + [t], b"a\n")):
                oc, out, err = cli(k, argv, stdin)
                if out or not err:
                    return Violation("accepted", "louis %r prints %r although the library rejects the table: %r" % (argv, out[:300], load.errs[:3]))
                reports.append((argv, err))
            for argv, err in reports[1:]:
                if err != reports[0][1]:
                    return Violation("reports-differ", "louis %r reports %r, louis %r %r" % (reports[0][0], reports[0][1][:400], argv, err[:400]))
            err = reports[0][1]
            if load.errs and load.errs[0][1].startswith("TranslationFailed("):
                inner = load.errs[0][1][len("TranslationFailed("):-1]
                if inner not in err:
                    return Violation("reports-differ", "the library reports %s, the command line %r" % (inner, err[:300]))
            else:
                lines = err.split("\n")[:-1]
                for (disp, dbg), ln in zip(load.errs, lines):
                    if not dbg.startswith("ParseError") and disp != ln:
                        return Violation("reports-differ", "the library reports %r, the command line %r" % (disp, ln))
                if len(lines) != len(load.errs):
                    return Violation("reports-differ", "the library reports %d errors, the command line %d" % (len(load.errs), len(lines)))
            return None
        want = [e[(0, 0, 1 + i)].val for i in range(len(plain))]
        full = [e[(0, 0, 1 + len(plain) + i)].val for i in range(len(case["ins"]))]
        if src is not None:
            for i, s in enumerate(plain):
                o = e[(0, 0, src + 1 + i)]
                if o.val != want[i]:
                    return Violation("memory", "%r gives %r from the file and %r from the same text in memory" % (s, want[i], o.val))
        stdin = "".join(s + "\n" for s in plain).encode()
        if plain and not many:
            s, v = plain[0], want[0]
            oc, out, err = cli(1, ["translate"] + back + [t, "--", s])
            if (oc, out, err) != ("exit:0", v + "\n", ""):
                return Violation("translate", "%r (%s): the library gives %r, louis translate %r (%s, %r)" % (s, d, v, out, oc, err[:200]))
            style = ["-s", case["style"]] if case["style"] else []
            s, v = plain[-1], want[-1]
            oc, out, err = cli(2, ["trace"] + style + back + [t, "--", s])
            if oc != "exit:0" or not out.startswith(v + "\n") or err:
                return Violation("trace", "%r (%s): the library gives %r, louis trace %r (%s, %r)" % (s, d, v, out[:300], oc, err[:200]))
            oc, out, err = cli(4, ["translate"] + back + [t], stdin)
            exp = "> " + "".join(v + "\n> " for v in want)
            if (oc, out, err) != ("exit:0", exp, ""):
                return Violation("prompt", "the library gives %r, the prompt %r (%s, %r)" % (exp[:400], out[:400], oc, err[:200]))
            oc, out, err = cli(0, ["trace"] + style + back + [t], stdin)
            at = 2
            for v in want:
                if not out[at:].startswith(v + "\n"):
                    return Violation("trace-prompt", "the library gives %r, the tracing prompt %r (%s, %r)" % (v, out[at:at + 200], oc, err[-200:]))
                j = out.find("\n> ", at + len(v))
                at = j + 3
            if oc != "exit:0":
                return Violation("trace-prompt", "the tracing prompt ends with %s: %r" % (oc, err[-300:]))
        for i, s in enumerate(multi[:2] if not many else []):
            v = e[(0, 0, at_multi + i)].val
            for k, cmd in ((1, ["translate"]), (2, ["trace"])):
                oc, out, err = cli(k, cmd + back + [t, "--", s])
                if oc != "exit:0" or err or not (out == v + "\n" if k == 1 else out.startswith(v + "\n")):
                    return Violation(cmd[0], "%r (%s): the library gives %r, louis %s %r (%s, %r)" % (s, d, v, cmd[0], out[:300], oc, err[:200]))
            ctx.probe("several_lines")
        # the test runner, with options
        y = "table: %s\nflags: {testmode: %s}\ntests:\n" % (table, "forward" if d == "F" else "backward")
        exp = []
        D = model.rust_debug_str
        for (s, modes, spans), v in zip(case["ins"], full):
            masks = {}
            ok = True
            for c, a, b in spans:
                if c in masks:
                    ok = False
                masks[c] = "-" * a + "+" * (b - a)
            if not ok:
                continue
            y += "  - [%s, %s, {typeform: %s, mode: %s}]\n" % (yamlgen.q(s), yamlgen.q(NEVER), yamlgen.flow(masks),
                                                              yamlgen.flow([m for i, m in enumerate(yamlgen.MODES) if modes >> i & 1]))
            exp.append("Failure { input: %s, expected: %s, actual: %s, direction: %s }" % (D(s), D(NEVER), D(v), "Forward" if d == "F" else "Backward"))
        if not exp:
            return None
        fs = dict(case["fs"], files=dict(case["fs"]["files"], **{"/w/zz.yaml": y}))
        rep = ctx.run(world(dict(case, fs=fs), case["cfgs"][3], "cli", ["check", "zz.yaml"]))
        out, err = rep.stdout.decode("utf-8", "replace"), rep.stderr.decode("utf-8", "replace")
        if (rep.outcome(), out, err) != ("exit:0", "".join(x + "\n" for x in exp), ""):
            got = out.split("\n")
            j = next((j for j, (a, b) in enumerate(zip(exp, got)) if a != b), min(len(exp), len(got)))
            return Violation("check", "the library gives %r, louis check %r (%s, %r)" % (exp[j:j + 1], got[j:j + 1], rep.outcome(), err[:300]))
        ctx.probe("agreed", len(plain) + len(exp))
        return None

    def nontrivial(self, case):
        return bool(case["ins"])


CHECK = C()
