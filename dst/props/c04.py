from dst import gen, tree
from dst.core import Check
from dst.props import c05


class C(Check):
    id = "C04"
    title = "Error reports are complete, in order and correctly located"
    quick_n = 10000
    thorough_n = 400000
    rule = ("random trees of tables in which lines are malformed, includes and dictionaries missing, files unreadable or not UTF-8, at random "
            "places and depths; the library's and the command line's error lists must equal the ones computed by an independent expansion "
            "of the same files, whatever the read sizes, interruptions and stat results; non-trivial: at least two files")
    shrink = [("fs", "files"), ("fs", "links"), ("fs", "dirs"), ("fs", "files", "*"), ("tables",), ("before",), ("fprobes",), ("bprobes",), ("cfg", "*")]

    def gen(self, r, i):
        k = r.random()
        c = tree.tree(r, p_bad=r.choice([0.05, 0.2, 0.5, 0.7]) if k < 0.8 else 0, p_missing=r.choice([0, 0.2, 0.5]), p_cycle=r.choice([0, 0, 0.1]),
                      p_mode=r.choice([0, 0, 0.1]), p_utf8=r.choice([0, 0, 0.1]), p_shadow=0.2)
        if r.random() < 0.03:
            # the depth limit and malformed files together
            c = c05.chain(r)
            fs = sorted(c["fs"]["files"])
            for f in r.sample(fs, min(len(fs), r.choice([0, 1, 3]))):
                t = c["fs"]["files"][f]
                c["fs"]["files"][f] = r.choice([r.choice(gen.BAD_LINES) + "\n" + t, t.rstrip("\r\n") + "\ninclude %s\n" % r.choice(["missing.cti", "nowhere.dic", "n0", "n3"])])
        c["fprobes"], c["bprobes"] = tree.probes(r, 1), []
        c["before"] = tree.before(r, c)
        c["cfg"] = gen.cfg(r)
        if r.random() < 0.02:
            self.long(r, c)
        return c

    def long(self, r, c):
        """a long file, or one with very many malformed lines"""
        f = r.choice(sorted(c["fs"]["files"]))
        t = c["fs"]["files"][f]
        if not isinstance(t, str) or f.endswith(".dic"):
            return
        k = r.choice([300, 5000, 33000, 66000])
        if r.random() < 0.6:
            t = r.choice(["\n", "#\n", " \n"]) * k + t
            t += r.choice(gen.BAD_LINES) + "\n" if r.random() < 0.7 else ""
        else:
            lines = t.split("\n")
            for _ in range(r.choice([60, 300, 1100])):
                lines.insert(r.randint(0, len(lines)), r.choice(gen.BAD_LINES))
            t = "\n".join(lines)
        c["fs"]["files"][f] = t
        c["cfg"] = {"seed": c["cfg"]["seed"], "maxticks": 2_000_000_000, "chunk": r.choice([4096, 1000])}

    def judge(self, case, ctx):
        return tree.judge_tree(ctx, case)

    def nontrivial(self, case):
        return len(case["fs"]["files"]) > 1


CHECK = C()
