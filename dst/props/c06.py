from dst import gen, tree
from dst.core import PLAIN, Check, Violation, world
from dst.props.c07 import after, move_ops, moved
from dst.props.c17 import in_vain, put
from dst.sim import op_key, parse_emit


class C(Check):
    id = "C06"
    title = "Tables are found through the search path, first match wins"
    quick_n = 8000
    thorough_n = 400000
    rule = ("random search paths (absolute, relative, repeated, empty, blank and missing entries, or unset), the same names in several directories, "
            "directories and broken links in the way, absolute and dotted names, dictionaries; what is loaded must equal the model's resolution "
            "and what is missing must be reported by name, whatever the stat path, d_type and directory order; non-trivial: at least two files")
    shrink = [("fs", "files"), ("fs", "links"), ("fs", "dirs"), ("fs", "files", "*"), ("tables",), ("before",), ("fprobes",), ("bprobes",), ("cfg", "*"), ("env", "*"), ("moves",)]

    def gen(self, r, i):
        c = tree.tree(r, p_shadow=1.0, p_links=0.5, p_dirs=0.5, p_dic=0.5, p_missing=r.choice([0, 0, 0.3]), nmax=5, p_stray=0.35)
        c["fprobes"], c["bprobes"] = tree.probes(r, 1) + ["".join(tree.SHARED)], tree.back_probes(r, 1)
        c["before"] = tree.before(r, c)
        c["cfg"] = gen.cfg(r)
        c["elsewhere"] = r.random() < 0.25
        # the same process goes on with other search paths and working directories
        c["moves"] = [moved(r, c) for _ in range(r.randint(1, 4))] if r.random() < 0.3 else []
        return c

    def judge(self, case, ctx):
        v = tree.judge_tree(ctx, case) or (self.elsewhere(case, ctx) if case.get("elsewhere") and case["tables"] and all(case["tables"]) else None)
        if v is not None or not case["moves"] or not case["tables"] or not all(case["tables"]):
            return v
        load = [["N", 0, "F", case["tables"]]] + [["T", 0, s] for s in case["fprobes"]] + [["N", 1, "B", case["tables"]]]
        ops, want = list(load), []
        for k, m in enumerate([None] + case["moves"]):
            if m:
                ops += move_ops(m) + [[op[0], op[1] + 2 * k] + op[2:] for op in load]
            e = parse_emit(ctx.run(world(after(case, m) if m else case, PLAIN, "driver", script=[[load]])).emit)
            want.append([e.get((0, 0, i)) for i in range(len(load))])
        rep = ctx.run(world(case, case["cfg"], "driver", script=[[ops]]))
        got = parse_emit(rep.emit)
        if rep.outcome() != "exit:0":
            return Violation("ends", "a series of loads ends with %s" % rep.outcome())
        at = 0
        for k, m in enumerate([None] + case["moves"]):
            at += 2 if m else 0
            for i, op in enumerate(load):
                a, b = want[k][i], got.get((0, 0, at + i))
                if op_key(a) != op_key(b):
                    return Violation("moved", "%r with search path and directory %r, after %r: a fresh process gives %s, this one %s" % (
                        op[-1], m, case["moves"][:max(0, k - 1)], tree.show(a), tree.show(b)))
            at += len(load)
        ctx.probe("moves", len(case["moves"]))
        return None

    def elsewhere(self, case, ctx):
        """tables at other places that were looked at do not count"""
        ops = [["N", 0, "F", case["tables"]]] + [["T", 0, s] for s in case["fprobes"]]
        rep = ctx.run(world(case, PLAIN, "driver", script=[[ops]]), log=True)
        found = in_vain(case, rep, case["tables"])
        if not found:
            return None
        ctx.probe("looked_for_elsewhere", len(found))
        fs = dict(case["fs"], files=dict(case["fs"]["files"]), dirs=dict(case["fs"].get("dirs", {})))
        for p in found:
            put(case, fs, p, "dir", [t for t in case["tables"] if "/" not in t])
        oth = ctx.run(world(dict(case, fs=fs), PLAIN, "driver", script=[[ops]]))
        a, b = parse_emit(rep.emit), parse_emit(oth.emit)
        for i in range(len(ops)):
            x, y = a.get((0, 0, i)), b.get((0, 0, i))
            if op_key(x) != op_key(y):
                return Violation("elsewhere", "%r gives %s and, once there are files %r outside of the search path, %s" % (ops[i], tree.show(x), found, tree.show(y)))
        return None

    def nontrivial(self, case):
        return len(case["fs"]["files"]) > 1


CHECK = C()
