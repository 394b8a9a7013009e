from dst import gen, tree
from dst.core import Check, Violation, world
from dst.sim import forced_from, op_key, parse_emit
from dst.tree import show

REPS = 3


def mixed(r, t):
    """the same text in another case: rules match without regard to it"""
    return t if r.random() < 0.6 else "".join(c.upper() if r.random() < 0.6 else c for c in t)


def tie_table(r):
    """a table dense in rules that compete, and in unordered collections that feed the output"""
    names, o = gen.named_classes(r)
    o = gen.base_rules(r) + o
    if r.random() < 0.15:
        o += gen.passes(r, r.choice([x.split()[-1] for x in o if x.split()[0] in ("letter", "lowercase")] or [None]))
    for _ in range(r.randint(4, 16)):
        k = r.random()
        if k < 0.4:
            o += gen.conflict_rules(r)
        elif k < 0.5:
            t = gen.letters(r, 1, 2)
            for _ in range(r.randint(2, 4)):
                o.append("noback %s %s %s" % (r.choice(["context", "pass2", "pass3", "correct"]),
                                              r.choice(['"%s"', '["%s"]', '$l["%s"]', '["%s"]$ld', '$luU["%s"]', '`["%s"]']) % t,
                                              r.choice(["@%s" % gen.dots(r), "?"]) if r.random() < 0.7 else "@1"))
        elif k < 0.62:
            t = gen.letters(r, 1, 2)
            for _ in range(r.randint(2, 4)):
                o.append("%smatch %s %s %s %s" % (r.choice(["", "noback ", "nofor "]),
                                                  r.choice(["-", "%a", "%[_^]", "[abcde]", "%[al#]", "[xyz]?", "%#*"]), mixed(r, t),
                                                  r.choice(["-", "%a", "%[_$.]", "[edcba1]", "%[^#]", "[abc]+"]), gen.dots(r)))
        elif k < 0.72:
            e = r.sample(gen.EMPH, r.randint(2, 4))
            for c in e:
                o.append("emphclass %s" % c)
                for op in r.sample(["begemph", "endemph", "emphletter", "begemphword", "endemphword", "begemphphrase"], r.randint(2, 5)):
                    o.append("%s %s %s" % (op, c, gen.dots(r)))
                if r.random() < 0.5:
                    o.append("endemphphrase %s %s %s" % (c, r.choice(["before", "after"]), gen.dots(r)))
                    o.append("lenemphphrase %s %d" % (c, r.randint(1, 3)))
        elif k < 0.78:
            w = gen.letters(r, 1, 2)
            o += ["letsign %s" % gen.dots(r), "contraction %s" % w, "contraction %s" % gen.letters(r, 2, 3), "nocont %s" % w,
                  "nocontractsign %s" % gen.dots(r)]
        elif k < 0.81:
            o += gen.swaps(r)
        elif k < 0.83:
            o += gen.variables(r) if r.random() < 0.3 else [gen.odd_rule(r, names)]
        elif k < 0.86:
            c = r.choice(gen.LOWER)
            o += ["sign %s %s" % (c, gen.dots(r)), "%s %s %s" % (r.choice(["letter", "math", "punctuation"]), c, gen.dots(r))]
        else:
            o.append(gen.rule(r, names))
    x = o[10:]
    r.shuffle(x)
    return o[:10] + x


class C(Check):
    id = "C01"
    title = "Results never vary between processes, runs or translators"
    quick_n = 4200
    thorough_n = 300000
    rule = ("random rule tables dense in ties (equally long rules with different conditions, several emphasis classes, competing multipass and "
            "match rules, redefinitions) and table trees with errors; every load and translation repeated by several translators in several "
            "processes that differ in hash seeds, entropy, heap addresses, clock, CPU count, directory order and read sizes; trace, query, parse "
            "and error output compared byte for byte; non-trivial: at least one probe gives a translation or an error report")
    shrink = [("fs", "files"), ("fs", "links"), ("fs", "dirs"), ("fs", "files", "*"), ("fins",), ("bins",), ("lines",), ("query",),
              ("cfgs", "*", "*")]

    def gen(self, r, i):
        if r.random() < 0.75:
            lines = tie_table(r)
            if r.random() < 0.06:
                lines.insert(r.randrange(len(lines)), r.choice(gen.BAD_LINES))
            text = gen.render(r, lines, noise=False)
            files = {"/w/t.utb": text}
            if r.random() < 0.15:
                files["/w/h.dic"] = gen.dictionary(r)
                files["/w/t.utb"] += "\ninclude h.dic\n" + gen.nocross(r)
            c = {"fs": {"files": files}, "cwd": "/w", "env": {}, "tables": ["t.utb"]}
        else:
            c = tree.tree(r, p_bad=r.choice([0, 0.1]), p_missing=r.choice([0, 0.1]), p_cycle=r.choice([0, 0.05]))
        c["fins"] = []
        for s in gen.inputs(r, r.randint(4, 8)):
            c["fins"].append([s, gen.modes(r), gen.spans(r, s)])
        c["bins"] = [[s, gen.modes(r), []] for s in gen.inputs(r, r.randint(2, 4), back=True)]
        c["lines"] = [s for s in gen.inputs(r, 4) if s]
        c["query"] = None
        if r.random() < 0.3:
            k = r.choice(["language", "type", "grade"])
            for j in range(r.randint(2, 6)):
                d = r.choice(["/w", "/w", "/w/t"]) if not c["env"] else "/w"
                c["fs"]["files"]["%s/q%d.tbl" % (d, j)] = "#+%s:x\n#+type:literary\n" % k
            c["query"] = "%s=x" % k
        c["cfgs"] = [gen.cfg(r), gen.cfg(r)]
        c["style"] = r.choice(["table", "blank"])
        return c

    def judge(self, case, ctx):
        base = {}
        first = {}
        n = len(case["fins"]) + 1
        ops = []
        for rep in range(REPS):
            ops.append(["N", 2 * rep, "F", case["tables"]])
            ops += [["T", 2 * rep] + x for x in case["fins"]]
            ops.append(["N", 2 * rep + 1, "B", case["tables"]])
            ops += [["T", 2 * rep + 1] + x for x in case["bins"]]
        per = len(ops) // REPS
        for k, cfg in enumerate(case["cfgs"]):
            rep = ctx.run(world(case, cfg, "driver", script=[[ops]]), det=getattr(ctx, "det_now", False))
            if rep.outcome() != "exit:0":
                return Violation("outcome", "loading and translating ends with %s" % rep.outcome())
            e = parse_emit(rep.emit)
            for i, op in enumerate(ops):
                o = e.get((0, 0, i))
                kk = op_key(o)
                b = base.setdefault(i % per, (kk, o, k, i // per))
                if b[0] != kk:
                    what = "load of %r" % op[3] if op[0] == "N" else "translation of %r (modes %d, emphasis %r)" % tuple(op[2:5])
                    return Violation("varies", "%s, %s: process %d translator %d gives %s, process %d translator %d gives %s" % (
                        what, "forward" if i % per < n else "backward", b[2], b[3], show(b[1]), k, i // per, show(o)))
            ctx.probe("translations", sum(1 for o in e.values() if o.kind == "OK" and o.val))
            ctx.probe("error_reports", sum(1 for o in e.values() if o.kind == "ERR"))
            ctx.probe("panics", sum(1 for o in e.values() if o.kind == "PANIC"))
        runs = []
        t = case["tables"][0] if case["tables"] else "t.utb"
        stdin = "".join(x + "\n" for x in case["lines"])
        runs.append(("trace", ["trace", t, "-s", case["style"]], stdin))
        runs.append(("trace -d backward", ["trace", "-d", "backward", t], "".join(x[0] + "\n" for x in case["bins"])))
        runs.append(("parse", ["parse", t], ""))
        if case["query"]:
            runs.append(("query", ["query", case["query"]], ""))
        for name, argv, inp in runs:
            for k, cfg in enumerate(case["cfgs"]):
                rep = ctx.run(world(case, cfg, "cli", argv, stdin=inp.encode()))
                out = rep.stdout.decode("utf-8", "replace")
                res = (rep.outcome(), out, rep.stderr)
                b = first.setdefault(name, (res, k))
                if b[0] != res:
                    a, z = b[0][1].split("\n"), out.split("\n")
                    j = next((j for j, (p, q) in enumerate(zip(a, z)) if p != q), min(len(a), len(z)))
                    return Violation("cli-varies", "louis %s: one process prints %r, another %r (outcomes %s, %s; stderr %r, %r)" % (
                        " ".join(argv), a[j:j + 1], z[j:j + 1], b[0][0], res[0], b[0][2][:200], res[2][:200]))
            ctx.probe("cli_" + name.split()[0])
        return None


CHECK = C()
