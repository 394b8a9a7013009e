from dst import gen, tree
from dst.core import Check


class C(Check):
    id = "C02"
    title = "A table with includes equals its textual expansion"
    quick_n = 8000
    thorough_n = 400000
    rule = ("random search paths, file trees with nested, repeated and diamond includes, shadowed names, symbolic links, hyphenation "
            "dictionaries, line-end and comment noise; each load runs with random short reads, interrupted calls, missing d_type, stat "
            "fallbacks, entropy and clock; non-trivial: the tables open at least two files")
    shrink = [("fs", "files"), ("fs", "links"), ("fs", "dirs"), ("fs", "files", "*"), ("tables",), ("before",), ("fprobes",), ("bprobes",),
              ("fprobes", "*"), ("bprobes", "*"), ("cfg", "*")]

    def gen(self, r, i):
        c = tree.tree(r)
        c["fprobes"], c["bprobes"] = tree.probes(r), tree.back_probes(r)
        c["before"] = tree.before(r, c)
        c["cfg"] = gen.cfg(r)
        return c

    def judge(self, case, ctx):
        return tree.judge_tree(ctx, case)

    def nontrivial(self, case):
        return len(case["fs"]["files"]) > 1


CHECK = C()
