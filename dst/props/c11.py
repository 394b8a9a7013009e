import bisect

from dst import gen, tree
from dst.core import PLAIN, Check, Violation, world
from dst.props.c01 import tie_table
from dst.sim import parse_emit

BIG = dict(PLAIN, maxticks=4_000_000_000)


def line(r, cmd, back):
    x = r.random()
    if cmd == "parse":
        if x < 0.15:
            return r.choice(gen.BAD_LINES)
        if x < 0.25:
            return r.choice(["", "# comment", "#", " ", "\t", "  # indented", "#+k:v"])
        return gen.rule(r, ["vowel"])
    if x < 0.06:
        return ""
    if x < 0.1:
        return r.choice([" ", "  ", "\t", "> ", "a\rb", "-", "--help", "#a", "\u00a0", "\u200b", "\ufeffa",
                         "exit", "quit", "q", ":q", "bye", "help", "?", ":help", "!!", "history", "clear", "\x04", "\x1b[A", "\x0c", "\0", "EOF", "."])
    if x < 0.14:
        return (gen.word(r) + " ") * r.choice([30, 200])
    if x < 0.2:
        return gen.text(r) if back else gen.braille(r)
    if x < 0.3:
        s = gen.braille(r) if back else gen.text(r)
        return r.choice(["", "", " ", "\t", "\u00a0"]) + s + r.choice(["", " ", "  ", "\t", "\u00a0", "\u3000", "\x0c"])
    return gen.braille(r) if back else gen.text(r)


class C(Check):
    id = "C11"
    title = "The interactive prompt answers every line, in order, before reading on"
    quick_n = 8000
    thorough_n = 300000
    rule = ("random interactive sessions (translate and trace in both directions and styles, parse) whose input arrives in random pieces with "
            "interruptions, split lines, long lines, either line end, a missing final newline, undecodable lines and failing reads, and whose output "
            "is taken in pieces; while the table files change underneath; transcript and its state at every read against single-line sessions in "
            "fresh processes and the library; non-trivial: at least one line")
    shrink = [("lines",), ("lines", "*"), ("fs", "files"), ("fs", "files", "*"), ("cfg", "*"), ("cfg", "faults", "*"), ("cfg", "muts", "*")]

    def gen(self, r, i):
        cmd = r.choice(["translate", "translate", "translate", "trace", "parse"])
        back = cmd != "parse" and r.random() < 0.3
        lines = tie_table(r) if r.random() < 0.5 else gen.table_lines(r)
        files = {"/w/t.utb": gen.render(r, lines, noise=False)}
        if r.random() < 0.3:
            files["/w/i.utb"] = gen.render(r, [gen.rule(r) for _ in range(4)])
            files["/w/t.utb"] += "\ninclude i.utb\n"
        c = {"fs": {"files": files}, "cwd": "/w", "env": {}, "cmd": cmd, "back": back, "style": r.choice(["", "", "table", "blank"])}
        n = r.choice([0, 1, 2, 3, 5, 8, 8, 20]) if cmd != "trace" else r.choice([0, 1, 2, 3])
        c["lines"] = [[line(r, cmd, back), r.choice(["\n"] * 5 + ["\r\n"])] for _ in range(n)]
        if n and cmd != "trace" and r.random() < 0.02:
            # a long session
            n = r.choice([70, 130, 260, 520])
            few = [[gen.braille(r, 1, 3) if back else line(r, cmd, back) if cmd == "parse" else gen.word(r), "\n"] for _ in range(r.choice([6, 20]) if cmd == "parse" else r.choice([6, 60, n]))]
            c["lines"] = [list(r.choice(few)) for _ in range(n)]
        long = cmd != "trace" and r.random() < 0.002
        if long:
            # a very long session
            c["lines"] = [["" if r.random() < 0.7 else "# x" if cmd == "parse" else "a", "\n"] for _ in range(r.choice([9000, 70000]))]
        if n and r.random() < 0.2:
            c["lines"].append(list(r.choice(c["lines"])))
        if n and r.random() < 0.3:
            c["lines"][-1][1] = ""
        if r.random() < 0.08 and n:
            c["lines"].insert(r.randint(0, n), [r.choice(["\udcff", "ab\udce2\udca0", "\udced\udca0\udc80"]), "\n"])
        if r.random() < 0.01:
            # (a small table: some rules make the time quadratic in the length of a word)
            c["fs"]["files"]["/w/t.utb"] = "space \\s 0\nletter a 1\nletter b 12\nalways ab 123\nsign # 3456\nuppercase A 1\ncapsletter 6\n"
            k = r.choice([1400, 2800, 4000, 5600, 11000, 22500, 45000]) if cmd != "trace" else r.choice([700, 1400, 2800])
            c["lines"].insert(r.randint(0, n), [r.choice(["ab ", "# x", "aab", "⠁"]) * (k + r.choice([-1, 0, 0, 1, 7])), "\n"])
        c["cfg"] = gen.cfg(r)
        c["cfg"].pop("urandom", None)
        if long:
            c["cfg"]["stack"] = 1 << 20
        c["cfg"]["maxticks"] = 4_000_000_000
        k = r.random()
        total = sum(len((a + b).encode("utf-8", "surrogateescape")) for a, b in c["lines"])
        if k < 0.3:
            c["chunks"] = [1] * min(total, 400)
        elif k < 0.7:
            c["chunks"] = [r.choice([1, 2, 3, 5, 8, 20, 60]) for _ in range(r.randint(1, 60))]
        else:
            # a terminal: one line per read
            c["chunks"] = [len((a + b).encode("utf-8", "surrogateescape")) for a, b in c["lines"]]
        fl = []
        x = r.random()
        if x < 0.15:
            fl.append(["stdin", None, r.randint(1, 6), 10 ** 6, "errno", r.choice(["EIO", "EAGAIN", "EISDIR", "EACCES", "EINVAL", "ENOMEM"])])
        elif x < 0.3:
            fl.append(["stdin", None, r.randint(1, 6), r.randint(7, 9), "errno", "EINTR"])
        if r.random() < 0.3:
            a = r.randint(1, 9)
            fl.append(["stdout", None, a, a + r.randint(1, 30), r.choice(["short", "errno"]), 1])
            fl[-1][5] = r.randint(1, 3) if fl[-1][4] == "short" else "EINTR"
        c["cfg"]["faults"] = fl
        if r.random() < 0.25 and cmd != "parse":
            c["cfg"]["muts"] = [["stdin", None, r.randint(1, 4), False, r.choice(["replace", "write", "unlink"]), r.choice(sorted(files)),
                                 gen.render(r, gen.table_lines(r))]]
        return c

    def argv(self, case):
        a = [case["cmd"]]
        if case["cmd"] == "trace" and case["style"]:
            a += ["-s", case["style"]]
        if case["back"]:
            a += ["-d", "backward"]
        if case["cmd"] != "parse":
            a.append("t.utb")
        return a

    def answers(self, case, ctx, texts):
        """what each line deserves: {text: (stdout, stderr)}"""
        a = {}
        if case["cmd"] == "translate":
            ops = [["N", 0, "B" if case["back"] else "F", ["t.utb"]]] + [["T", 0, t] for t in texts]
            e = parse_emit(ctx.run(world(case, BIG, "driver", script=[[ops]])).emit)
            if e[(0, 0, 0)].kind != "OK":
                return "bad"
            for i, t in enumerate(texts):
                o = e.get((0, 0, i + 1))
                if o is None or o.kind != "OK":
                    return Violation("panic", "translating %r gives %s" % (t, tree.show(o)))
                a[t] = (o.val + "\n", "")
            return a
        for t in texts:
            rep = ctx.run(world(case, BIG, "cli", self.argv(case), stdin=(t + "\n").encode()))
            out = rep.stdout.decode()
            if rep.outcome() != "exit:0":
                return Violation("ends", "louis %r given the single line %r ends with %s: %s" % (self.argv(case), t, rep.outcome(), rep.stderr[-300:]))
            if not out and rep.stderr:
                return "bad"
            if not (out.startswith("> ") and out.endswith("> ") and len(out) >= 4):
                return Violation("prompt", "louis %r given the single line %r prints %r" % (self.argv(case), t, out))
            a[t] = (out[2:-2], rep.stderr.decode())
            if case["cmd"] == "trace" and t:
                one = ctx.run(world(case, BIG, "cli", self.argv(case) + ["--", t]))
                if one.stdout.decode() != a[t][0]:
                    return Violation("one-shot", "louis %r prints %r for %r, the prompt %r" % (self.argv(case), one.stdout.decode()[:600], t, a[t][0][:600]))
        return a

    def judge(self, case, ctx):
        data, texts = b"", []
        ends = []           # byte offset after each line
        bad = None
        for t, nl in case["lines"]:
            raw = (t + nl).encode("utf-8", "surrogateescape")
            if nl == "" and (t, nl) != tuple(case["lines"][-1]):
                return None
            if nl == "" and t == "":
                continue
            data += raw
            ends.append(len(data))
            try:
                raw.decode()
            except UnicodeDecodeError:
                if bad is None:
                    bad = len(ends) - 1
            texts.append(t)
        if any("\n" in t or "\x00" in t for t in texts):
            return None
        # one "\r" before the line end belongs to it
        good = []
        for (t, nl) in [x for x in case["lines"] if x[0] or x[1]][:bad if bad is not None else len(texts)]:
            good.append(t[:-1] if nl == "\n" and t.endswith("\r") else t)
        ans = self.answers(case, ctx, sorted(set(good)) or ["a"])
        if isinstance(ans, Violation):
            return ans
        w = world(case, case["cfg"], "cli", self.argv(case), stdin=data)
        w.stdin_chunks = case["chunks"]
        rep = ctx.run(w, log=True, det=getattr(ctx, "det_now", False))
        if rep.outcome() != "exit:0":
            return Violation("ends", "louis %r ends with %s" % (self.argv(case), rep.outcome()))
        out, err = rep.stdout.decode("utf-8", "replace"), rep.stderr.decode("utf-8", "replace")
        if ans == "bad":
            if out or not err:
                return Violation("bad-table", "louis %r of a table with errors prints %r and reports %r" % (self.argv(case), out[:300], err[:300]))
            return None
        cum_out = [2]
        for t in good:
            cum_out.append(cum_out[-1] + len(ans[t][0].encode()) + 2)
        want = "> " + "".join(ans[t][0] + "> " for t in good)
        wanterr = "".join(ans[t][1] for t in good)
        # at every read, everything that was asked before is answered, and the prompt is shown
        closed = [e for e in ends if data[e - 1:e] == b"\n"]
        seen = 0
        nread = 0
        lost = False
        for x in rep.log.split("\n"):
            f = x.split(" ")
            if len(f) < 5 or f[1] != "stdin":
                continue
            nread += 1
            if f[3].startswith("!"):
                lost = lost or f[3] != "!4"
                continue
            nlines = bisect.bisect_right(closed, seen)
            have = int(next(y for y in f if y.startswith("out="))[4:])
            if not lost and have < cum_out[min(nlines, len(good))]:
                return Violation("late", "louis %r reads again after %d lines with only %d of %d bytes of their answers written" % (
                    self.argv(case), nlines, have, cum_out[min(nlines, len(good))]))
            seen += int(f[3])
        if case["cmd"] == "parse":
            # unordered sets of a dump have no order
            out, want = ("\n".join(tree.canon(x) for x in y.split("\n")) for y in (out, want))
        if bad is not None or lost:
            # what was asked before the failure is answered
            full = bisect.bisect_right(closed, seen)
            k = min(full, len(good))
            if not want.startswith(out) or len(rep.stdout) < cum_out[k]:
                return Violation("prefix", "louis %r, input ending in a failure after %d lines, prints %r, which is not the answers %r" % (
                    self.argv(case), k, out[:600], want[:cum_out[k]][:600]))
            ctx.probe("broken_input")
            return None
        if out != want or err != wanterr:
            j = next((j for j, (a, b) in enumerate(zip(out, want)) if a != b), min(len(out), len(want)))
            return Violation("transcript", "louis %r asked %r: prints %r at offset %d, expected %r (stderr %r, expected %r; changes %r)" % (
                self.argv(case), good[:6], out[j:j + 200], j, want[j:j + 200], err[:200], wanterr[:200], case["cfg"].get("muts")))
        ctx.probe("lines", len(good))
        ctx.probe("reads", nread)
        return None

    def nontrivial(self, case):
        return bool(case["lines"])


CHECK = C()
