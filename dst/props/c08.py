from dst import gen
from dst.core import PLAIN, Check, Violation, world
from dst.props.c01 import tie_table
from dst.sim import forced_from, op_key, parse_emit
from dst.tree import show


def related(r, s):
    """another input that is easily confused with s"""
    k = r.random()
    if k < 0.2:
        return s.upper() if r.random() < 0.5 else s.lower()
    if k < 0.4:
        return s + r.choice(["a", " ", ".", "1", "A"])
    if k < 0.55:
        return s[:-1] or "a"
    if k < 0.7 and s:
        i = r.randrange(len(s))
        return s[:i] + r.choice(gen.LOWER + gen.UPPER) + s[i + 1:]
    if k < 0.85:
        return s[::-1]
    return s + " " + s


BIG = dict(PLAIN, maxticks=2_000_000_000)


class C(Check):
    id = "C08"
    title = "Translations do not depend on history, sharing or concurrency"
    quick_n = 3600
    thorough_n = 200000
    rule = ("random translators (files and in-memory sources, both directions) shared by up to four threads that translate overlapping and easily "
            "confused inputs with different options while others load and drop translators, and long single-thread histories with repeats; every "
            "result must equal that of a fresh translator asked once; thread schedules random, preempting at basic blocks, loads and stores; "
            "non-trivial: at least ten translations")
    shrink = [("phases",), ("phases", "*"), ("phases", "*", "*"), ("fs", "files"), ("fs", "files", "*"), ("src", "*"), ("run", "*")]

    def gen(self, r, i):
        ntab = r.randint(1, 3)
        files, slots, src = {}, [], []
        for k in range(ntab):
            lines = tie_table(r) if r.random() < 0.6 else gen.table_lines(r)
            text = gen.render(r, lines, noise=False)
            if r.random() < 0.5:
                files["/w/t%d.utb" % k] = text + ("\ninclude h%d.dic\n" % r.choice([0, k]) + gen.nocross(r) if r.random() < 0.4 else "")
                files.setdefault("/w/h0.dic", gen.dictionary(r))
                files.setdefault("/w/h%d.dic" % k, gen.dictionary(r))
                src.append(None)
            else:
                src.append(text)
        for k in range(ntab):
            slots.append([k, "F"])
            if r.random() < 0.5:
                slots.append([k, "B"])
        case = {"fs": {"files": files}, "cwd": "/w", "env": {}, "src": src, "slots": slots}
        kind = r.random()
        pool = []
        size = r.randint(3, 14)
        if kind < 0.04:
            size = r.choice([80, 150, 300, 600])
        while len(pool) < size:
            sl = r.randrange(len(slots))
            back = slots[sl][1] == "B"
            if pool and r.random() < 0.5:
                o = list(r.choice(pool))
                x = r.random()
                if x < 0.4:
                    o[2] = related(r, o[2])
                    o[4] = [e for e in o[4] if e[2] <= len(o[2])]
                elif x < 0.6:
                    o[3] = gen.modes(r)
                elif x < 0.8:
                    o[4] = gen.spans(r, o[2])
                else:
                    o[1] = sl
                pool.append(o)
                continue
            s = gen.braille(r) if back else (gen.word(r) if size > 50 else gen.text(r))
            pool.append(["T", sl, s, gen.modes(r), gen.spans(r, s)])
        # half of the calls without options go through the call that has none
        pool = [o[:3] if o[3] == 0 and not o[4] and r.random() < 0.5 else o for o in pool]
        if r.random() < 0.25:
            # few texts, asked over and over
            pool = r.sample(pool, min(len(pool), r.choice([2, 2, 3])))
            pool = [[o[0], pool[0][1]] + o[2:] for o in pool]
            if r.random() < 0.6:
                # short ones, so that more calls overlap
                pool = [["T", o[1], c] for o, c in zip(pool, r.sample(gen.LOWER if slots[pool[0][1]][1] == "F" else "⠁⠂⠃⠅⠇", len(pool)))]
            else:
                pool = [o[:3] for o in pool]
                if r.random() < 0.4:
                    # long ones, which an implementation could treat in its own way
                    pool = [["T", o[1], ((o[2] or "a") + r.choice([" ", "", "\u2800"])) * max(1, r.choice([40, 70, 130, 260, 520]) // (len(o[2]) + 1))] for o in pool]
        n = len(slots)
        load = [self.load(case, k, k) for k in range(n)]
        phases = [[load]]
        if kind < 0.04:
            order = pool + [r.choice(pool) for _ in range(size // 2)] + pool[:40]
            phases.append([order])
        elif kind < 0.35:
            ops = []
            for _ in range(r.choice([20, 60, 150, 300])):
                x = r.random()
                if x < 0.94:
                    ops.append(r.choice(pool))
                elif x < 0.97:
                    k = r.randrange(n)
                    ops.append(self.load(case, k, k))
                else:
                    # another translator comes and goes
                    k = r.randrange(n)
                    ops += [self.load(case, k, n), ["T", n] + r.choice(pool)[2:], ["D", n]]
            phases.append([ops])
        else:
            nt = r.randint(2, 4)
            threads = []
            for t in range(nt):
                ops = []
                for _ in range(r.choice([8, 20, 40, 80]) if len(pool) < 7 else r.choice([3, 8, 20])):
                    x = r.random()
                    if x < 0.9:
                        ops.append(r.choice(pool))
                    elif x < 0.95:
                        ops.append(["Y", r.randint(1, 3)])
                    else:
                        k = r.randrange(n)
                        mine = n + 1 + t
                        ops += [self.load(case, k, mine), ["T", mine] + r.choice(pool)[2:], ["D", mine]]
                threads.append(ops)
            if r.random() < 0.4:
                threads[0] = [self.load(case, k, n + 10 + k) for k in range(n)] + threads[0]
            phases.append(threads)
            if r.random() < 0.3:
                phases.append([[r.choice(pool) for _ in range(5)]])
        # bounded work: a long text costs more than its length
        for ph in phases[1:]:
            for th in ph:
                if max([len(op[2]) for op in th if op[0] == "T"] + [0]) > 100:
                    left = 8000 // len(ph)
                    for k, op in enumerate(th):
                        left -= len(op[2]) if op[0] == "T" else 0
                        if left < 0:
                            del th[k + 1:]
                            break
        case["phases"] = phases
        case["run"] = dict(gen.cfg(r, True), maxticks=2_000_000_000)
        return case

    def load(self, case, k, slot):
        t, d = case["slots"][k]
        if case["src"][t] is None:
            return ["N", slot, d, ["t%d.utb" % t]]
        return ["S", slot, d, {"src": t}]

    def judge(self, case, ctx):
        fill = lambda op: op[:3] + [case["src"][op[3]["src"]]] if op[0] == "S" else op
        phases = [[[fill(op) for op in th] for th in ph] for ph in case["phases"]]
        # which translator a slot holds is fixed per thread-private slot, or set in the first phase
        want, loads = {}, {}
        for pi, ph in enumerate(phases):
            for ti, th in enumerate(ph):
                cur = {}
                for ii, op in enumerate(th):
                    if op[0] in "NS":
                        cur[op[1]] = op
                        if pi == 0:
                            loads[op[1]] = op
                        want[(pi, ti, ii)] = (repr(["L"] + op[2:]), op, None)
                    elif op[0] == "D":
                        cur.pop(op[1], None)
                    elif op[0] == "T":
                        ld = cur.get(op[1]) or loads.get(op[1])
                        if ld is None:
                            return None     # shrunk to nonsense
                        want[(pi, ti, ii)] = (repr([ld[2:], op[2:]]), ld, op)
        distinct = {}
        for k, ld, op in want.values():
            distinct.setdefault(k, (ld, op))
        keys = sorted(distinct)
        ref = {}
        for order in (keys, keys[::-1]):
            ops, at = [], {}
            for k in order:
                ld, op = distinct[k]
                ops.append([ld[0], 0] + ld[2:])
                at[k] = len(ops) - 1
                if op:
                    ops.append(["T", 0] + op[2:])
                    at[k] = len(ops) - 1
                ops.append(["D", 0])
            e = parse_emit(ctx.run(world(case, BIG, "driver", script=[[ops]])).emit)
            for k in order:
                o = e.get((0, 0, at[k]))
                if k in ref and op_key(ref[k]) != op_key(o):
                    return Violation("history", "fresh translators give %s and, in the reverse order of other work, %s for %s" % (
                        show(ref[k]), show(o), k[-300:]))
                ref.setdefault(k, o)
        rep = ctx.run(world(case, case["run"], "driver", script=phases), det=getattr(ctx, "det_now", False))
        if rep.outcome() == "hang":
            # hard work is not a hang
            rep = ctx.run(world(case, dict(case["run"], maxticks=10 * BIG["maxticks"]), "driver", script=phases))
        got = parse_emit(rep.emit)
        if rep.outcome() != "exit:0":
            return Violation("ends", "shared use ends the process with %s: %s" % (rep.outcome(), rep.stderr.decode("utf-8", "replace")[-300:]),
                             ["run"], forced_from(rep))
        for at in sorted(want):
            k, ld, op = want[at]
            g, w = got.get(at), ref[k]
            if op_key(g) != op_key(w):
                t = "translating %r (modes %r, emphasis %r)" % tuple((op[2:] + [None, None])[:3]) if op else "loading"
                return Violation("shared" if len(phases[at[0]]) > 1 else "history", "phase %d thread %d operation %d: %s %s gives %s, alone it gives %s" % (
                    at + (t, "forward" if ld[2] == "F" else "backward", show(g), show(w))), ["run"], forced_from(rep))
        ctx.probe("compared", len(want))
        ctx.probe("threads_%d" % max(len(p) for p in phases))
        return None

    def nontrivial(self, case):
        return sum(1 for p in case["phases"] for t in p for op in t if op[0] == "T") >= 10


CHECK = C()
