import copy

from dst import gen, tree
from dst.core import PLAIN, Check, Violation, world
from dst.sim import forced_from, op_key, parse_emit
from dst.tree import show

IDLE = 20
ALL = "".join(tree.SHARED) + " " + "".join(tree.ORDER)


def apply_edits(fs, edits):
    """the file system after the edits (model of the simulator's mutations)"""
    fs = copy.deepcopy(fs)
    for kind, target, data in edits:
        if kind == "replace" or kind == "write":
            if kind == "write" and (target not in fs["files"]):
                continue
            old = fs["files"].get(target)
            fs["links"].pop(target, None)
            fs["files"][target] = [data, old[1]] if kind == "write" and isinstance(old, list) else data
        elif kind == "unlink":
            fs["files"].pop(target, None)
            fs["links"].pop(target, None)
        elif kind == "symlink":
            fs["files"].pop(target, None)
            fs["links"][target] = data
        elif kind == "chmod":
            if target in fs["files"]:
                t = fs["files"][target]
                fs["files"][target] = [t if isinstance(t, str) else t[0], data]
    return fs


def tweak(r, text):
    """a change of the same size: one digit of a dot pattern becomes another"""
    ds = [i for i in range(1, len(text) - 1) if text[i] in "123456" and text[i - 1] == " " and text[i + 1] in "\r\n"]
    if not ds:
        return text
    i = r.choice(ds)
    return text[:i] + r.choice([c for c in "123456" if c != text[i]]) + text[i + 1:]


def redirect(r, text, files):
    """other tables are included instead, at the same lines"""
    o = []
    for line in text.split("\n"):
        t = line.split()
        if len(t) > 1 and t[0] == "include" and not t[1].endswith(".dic"):
            line = "include " + r.choice([f for f in files if not f.endswith(".dic")]).rsplit("/", 1)[-1]
        elif r.random() < 0.1:
            line = "# gone"
        o.append(line)
    return "\n".join(o)


def edit(r, fs, dirs, original=None):
    files = sorted(fs["files"])
    if not files:
        return []
    f = r.choice(files)
    t = fs["files"][f]
    t = t if isinstance(t, str) else t[0]
    k = r.random()
    if original and k < 0.2:
        # back to what it was
        f = r.choice(sorted(original["files"]))
        return [["replace", f, original["files"][f] if isinstance(original["files"][f], str) else original["files"][f][0]]]
    if k < 0.35:
        return [[r.choice(["replace", "write"]), f, tweak(r, t)]]
    if k < 0.5:
        lines = t.split("\n")
        x = "sign %s %s" % (r.choice(tree.SHARED + tree.ORDER), gen.dots(r))
        lines.insert(r.randint(1, len(lines)), x) if not f.endswith(".dic") else lines.append(gen.letters(r, 2, 3) + "1a")
        return [[r.choice(["replace", "write"]), f, "\n".join(lines)]]
    if k < 0.6:
        return [["unlink", f, None]]
    if k < 0.75:
        # the same name earlier (or later) in the search path
        d = r.choice(dirs)
        n = f.rsplit("/", 1)[-1]
        return [["replace", d.rstrip("/") + "/" + n, tweak(r, t) if r.random() < 0.5 else t + "\nsign %s %s\n" % (r.choice(tree.SHARED), gen.dots(r))]]
    if k < 0.85:
        o = [["replace", "/store/new", tweak(r, t)], ["symlink", f, "/store/new"]]
        return o
    if k < 0.88:
        return [["replace", f, t + "\n# \udcff\n"]]
    if k < 0.94:
        return [["replace", f, t + "\n" + r.choice(gen.BAD_LINES) + "\n"]]
    return [["chmod", f, 0]]


def moved(r, case):
    """another search path and working directory of the same process"""
    dirs = sorted(set(case["fs"]["dirs"]) | {"/w"})
    k = r.random()
    if k < 0.3:
        v = case["env"].get("LOUIS_TABLE_PATH")
    elif k < 0.45:
        v = None
    elif k < 0.6 and case["env"].get("LOUIS_TABLE_PATH"):
        v = ":".join(reversed(case["env"]["LOUIS_TABLE_PATH"].split(":")))
    else:
        v = ":".join(r.choice(dirs) for _ in range(r.randint(1, 3)))
    return [v, r.choice(dirs) if r.random() < 0.4 else "/w"]


def move_ops(m):
    return [["E", "LOUIS_TABLE_PATH", m[0]], ["W", m[1]]] if m else []


def after(case, m):
    """the case as a fresh process would find it"""
    env = {k: v for k, v in case["env"].items() if k != "LOUIS_TABLE_PATH"}
    if m[0] is not None:
        env["LOUIS_TABLE_PATH"] = m[0]
    return dict(case, env=env, cwd=m[1])


def muts(edits, phase):
    return [["phase", None, phase, False, k, t, d] for k, t, d in edits]


class C(Check):
    id = "C07"
    title = "A loaded translator is independent of later file changes"
    quick_n = 5000
    thorough_n = 300000
    rule = ("random table trees edited between and during loads (same-size edits, in-place writes, atomic replacement, deletion, shadowing, "
            "retargeted links, permission loss); translators loaded earlier must keep giving the results of the files they were loaded from, "
            "without any file access; every new load must see the files as they are now; a file replaced during a load is seen either old or "
            "new; non-trivial: at least one edit is applied")
    shrink = [("fs", "files"), ("fs", "links"), ("fs", "dirs"), ("fs", "files", "*"), ("tables",), ("fprobes",), ("fprobes", "*"), ("edits",),
              ("edits", "*"), ("cfg", "*")]

    def gen(self, r, i):
        c = tree.tree(r, p_links=0.2, p_dic=0.6, p_shadow=0.3, nmax=5)
        for p, t in list(c["fs"]["files"].items()):
            if p.endswith(".dic") and len(p.rsplit("/", 1)[-1]) > 4:
                c["fs"]["files"][p] = t + "a1b\nc1d\n"
            elif "include" in t and ".dic" in t:
                c["fs"]["files"][p] = t.rstrip("\r\n") + "\nnocross always ab 123456\nnocross always cd 23456\n"
        if r.random() < 0.12:
            # a big table
            p = r.choice([p for p in sorted(c["fs"]["files"]) if isinstance(c["fs"]["files"][p], str)])
            if not p.endswith(".dic"):
                c["fs"]["files"][p] = "# a comment of some length\n" * (r.choice([5000, 9000, 17000, 34000, 70000]) // 27) + c["fs"]["files"][p]
        dirs = sorted(c["fs"]["dirs"])
        c["fprobes"] = [ALL, "ab cd abcd", gen.text(r), gen.word(r)]
        c["cfg"] = gen.cfg(r, True)
        c["mode"] = "mid" if r.random() < 0.3 else "phases"
        if c["mode"] == "mid":
            files = sorted(c["fs"]["files"])
            f = r.choice(files)
            t = c["fs"]["files"][f]
            e = r.choice([["replace", f, tweak(r, t)], ["replace", f, redirect(r, tweak(r, t), files)], ["replace", f, redirect(r, tweak(r, t), files)], ["replace", f, t + "\nsign %s %s\n" % (r.choice(tree.SHARED), gen.dots(r))], ["unlink", f, None]])
            c["edits"] = [[e]]
            op = r.choice(["open", "open", "read", "stat", "realpath"])
            c["at"] = [op, None if r.random() < 0.7 else f, r.randint(1, 6), r.random() < 0.5 and op in ("open", "read")]
            c["loads"] = [["F"]]
        else:
            c["edits"] = []
            fs = c["fs"]
            for _ in range(r.choice([1, 2, 2, 3, 3])):
                e = []
                for _ in range(r.choice([1, 1, 2])):
                    e += edit(r, apply_edits(fs, e), dirs, c["fs"] if len(c["edits"]) else None)
                fs = apply_edits(fs, e)
                c["edits"].append(e)
            # the program moves on: another working directory, another search path
            c["moves"] = []
            if r.random() < 0.3:
                c["moves"] = [None] + [moved(r, c) if r.random() < 0.7 else None for _ in c["edits"]]
        return c

    def judge(self, case, ctx):
        if not case["tables"] or not all(case["tables"]):
            return None
        if case["mode"] == "mid":
            return self.mid(case, ctx)
        versions = [case["fs"]]
        for e in case["edits"]:
            versions.append(apply_edits(versions[-1], e))
        n = len(versions)
        # what a fresh process gives for each version
        refs = []
        moves = (case.get("moves") or []) + [None] * n
        here = case
        for p, fs in enumerate(versions):
            if moves[p]:
                here = after(case, moves[p])
            ops = [["N", 0, "F", case["tables"]]] + [["T", 0, s] for s in case["fprobes"]] + [["N", 1, "B", case["tables"]]]
            e = parse_emit(ctx.run(world(dict(here, fs=fs), PLAIN, "driver", script=[[ops]])).emit)
            refs.append([e.get((0, 0, i)) for i in range(len(ops))])
        np = len(case["fprobes"])
        phases, m, what = [], [], {}
        m = []
        ph = 0
        for p in range(n):
            if p:
                # phase numbers count from one
                m += muts(case["edits"][p - 1], ph + 1)
            # old translators only
            ops = move_ops(moves[p])
            for s in range(p):
                # the one that has been used before, and the one that was only loaded
                for slot in (s, IDLE + s):
                    for j, t in enumerate(case["fprobes"]):
                        what[(ph, 0, len(ops))] = (s, 1 + j, True)
                        ops.append(["T", slot, t])
            phases.append([ops])
            ph += 1
            # a new load beside the old translators
            ops = [["N", p, "F", case["tables"]], ["N", IDLE + p, "F", case["tables"]]]
            what[(ph, 0, 0)] = what[(ph, 0, 1)] = (p, 0, False)
            for j, t in enumerate(case["fprobes"]):
                what[(ph, 0, len(ops))] = (p, 1 + j, False)
                ops.append(["T", p, t])
            threads = [ops]
            for s in range(p):
                ops = []
                for j, t in enumerate(case["fprobes"]):
                    what[(ph, 1 + s, len(ops))] = (s, 1 + j, False)
                    ops.append(["T", s, t])
                threads.append(ops)
            phases.append(threads)
            ph += 1
        cfg = dict(case["cfg"], muts=m)
        rep = ctx.run(world(case, cfg, "driver", script=phases), det=getattr(ctx, "det_now", False))
        got = parse_emit(rep.emit)
        if rep.outcome() != "exit:0":
            return Violation("ends", "process ends with %s" % rep.outcome(), ["cfg"], forced_from(rep))
        for k, (s, j, quiet) in sorted(what.items()):
            g, w = got.get(k), refs[s][j]
            if op_key(g) != op_key(w):
                probe = "the load" if j == 0 else "the translation of %r" % case["fprobes"][j - 1]
                now = k[0] // 2
                return Violation("stale" if now == s else "changed", "tables %r after edits %r: %s by the translator of version %d, asked at version %d, gives %s, the files then gave %s" % (
                    case["tables"], case["edits"][:now], probe, s, now, show(g), show(w)), ["cfg"], forced_from(rep))
            if quiet and g.ev:
                return Violation("io", "translating %r with a loaded translator performed %d file or device operations" % (case["fprobes"][j - 1], g.ev))
        ctx.probe("versions", n)
        ctx.probe("versions_that_differ", sum(1 for a, b in zip(refs, refs[1:]) if [op_key(x) for x in a] != [op_key(x) for x in b]))
        return None

    def mid(self, case, ctx):
        if len(case["edits"]) != 1 or len(case["edits"][0]) != 1:
            return None
        kind, target, data = case["edits"][0][0]
        new = apply_edits(case["fs"], [[kind, target, data]])
        ops = [["N", 0, "F", case["tables"]]] + [["T", 0, s] for s in case["fprobes"]]
        rs = []
        opens = []
        for fs in (case["fs"], new):
            ref = ctx.run(world(dict(case, fs=fs), PLAIN, "driver", script=[[ops]]), log=True)
            e = parse_emit(ref.emit)
            rs.append([op_key(e.get((0, 0, i))) for i in range(len(ops))])
            opens.append(sum(1 for x in ref.log.split("\n") if x.split(" ")[1:3] == ["open", target]))
        if target.endswith(".dic"):
            if max(opens) > 1:
                return None     # read more than once: each reading may see its own version
        else:
            for fs in (case["fs"], new):
                ex, _ = tree.expand(ctx, dict(case, fs=fs))
                try:
                    ex.tables(case["tables"])
                except OverflowError:
                    return None
                if ex.opened.get(target, 0) > 1:
                    return None     # included more than once: each inclusion may see its own version
        op, path, nth, after = case["at"]
        cfg = dict(case["cfg"], muts=[[op, path, nth, after, kind, target, data]])
        rep = ctx.run(world(case, cfg, "driver", script=[[ops]]), det=getattr(ctx, "det_now", False))
        got = parse_emit(rep.emit)
        if rep.outcome() != "exit:0":
            return Violation("ends", "process ends with %s" % rep.outcome())
        a = [op_key(got.get((0, 0, i))) for i in range(len(ops))]
        ctx.probe("mid_" + ("old" if a == rs[0] else "new" if a == rs[1] else "other"))
        if a != rs[0] and a != rs[1] and not (kind == "unlink" and a[0][0] == "ERR"):
            return Violation("mixture", "tables %r, %s of %s during the load: the load gives %r, with the old file %r, with the new one %r" % (
                case["tables"], kind, target, a, rs[0], rs[1]))
        return None

    def nontrivial(self, case):
        return bool(case["edits"])



CHECK = C()
