from dst import gen, tree, work
from dst.core import PLAIN, Check, Violation, world
from dst.sim import forced_from

HARD = ["EIO", "ENOSPC", "EPIPE", "EAGAIN", "EINVAL", "ENOMEM", "EROFS", "ETIMEDOUT", "ESTALE"]
BIG = dict(PLAIN, maxticks=2_000_000_000)


class C(Check):
    id = "C12"
    title = "Output that cannot be written is never a silent success"
    quick_n = 14000
    thorough_n = 500000
    rule = ("random commands (translate, trace, parse, check, query, interactive sessions) whose standard output or error fails (I/O error, full "
            "device, closed pipe, zero-length writes), accepts only pieces, or is interrupted, at random writes; or whose memory or threads run out; "
            "compared with the run without faults; non-trivial: a fault was planned and the run writes something")
    shrink = [("fs", "files"), ("fs", "files", "*"), ("fs", "links"), ("fs", "dirs"), ("stdin",), ("argv",), ("cfg", "*"), ("cfg", "faults", "*")]

    def gen(self, r, i):
        c = work.world_of(r)
        c["big"] = int(r.random() < 0.1)
        if c["big"]:
            # output that takes many writes
            tree.scale(r, c)
        c["argv"], c["stdin"] = work.command(r, c)
        if c["big"] and r.random() < 0.7:
            c["argv"], c["stdin"] = ["parse", c["tables"][0]], ""
        c["cfg"] = gen.cfg(r, c["argv"][0] == "check")
        c["cfg"].pop("urandom", None)
        c["cfg"].pop("eintr", None)
        c["cfg"]["maxticks"] = 2_000_000_000
        fl = []
        mode = r.random()
        for _ in range(r.choice([1, 1, 2, 3])):
            s = r.choice(["stdout"] * 4 + ["stderr"])
            a = r.choice([1, 1, 2, 3, r.randint(1, 40), r.randint(1, 400) if c["big"] else 1])
            n = r.choice([1, 1, 3, 10 ** 6])
            if mode < 0.25:
                fl.append([s, None, a, a + n, *r.choice([("short", r.choice([1, 2, 7, 50])), ("errno", "EINTR")])])
                if fl[-1][5] == "EINTR":
                    fl[-1][3] = a + r.randint(1, 30)
            elif mode < 0.85:
                k = r.random()
                fl.append([s, None, a, a + n] + (["errno", r.choice(HARD)] if k < 0.75 else ["short", r.choice([1, 5])] if k < 0.9 else ["eof", 0]))
            elif mode < 0.95 or c["argv"][0] != "check":
                a = r.randint(1, 6000)
                fl.append(["alloc", None, a, a + r.choice([1, 1, 1000]), "errno", "ENOMEM"])
            else:
                a = r.randint(1, 4)
                fl.append(["thread", None, a, a + r.choice([1, 100]), "errno", "EAGAIN"])
        c["cfg"]["faults"] = fl
        return c

    def judge(self, case, ctx):
        if len(case["argv"]) < 2 and case["argv"] != ["parse"]:
            return None
        stdin = case["stdin"].encode()
        ref = ctx.run(world(case, BIG, "cli", case["argv"], stdin=stdin))
        if ref.outcome() != "exit:0":
            ctx.probe("reference_" + ref.outcome())
            return None
        rep = ctx.run(world(case, case["cfg"], "cli", case["argv"], stdin=stdin), det=getattr(ctx, "det_now", False))
        hard = {f[0] for f, n in zip(case["cfg"]["faults"], rep.fault_fired) if n and (f[4] == "eof" or f[4] == "errno" and f[5] != "EINTR")}
        S, E = ref.stdout, ref.stderr
        so, se = rep.stdout, rep.stderr
        if case["argv"][0] == "parse":
            # dumps contain unordered sets: compare their canonical form
            from dst.tree import canon
            f = lambda b: "\n".join(canon(x) for x in b.decode("utf-8", "replace").split("\n"))
            S, so = f(S), f(so)
            if hard and so != S:
                # a dump cut inside a set has no canonical form: compare the complete lines
                S, so = S.encode(), so.encode()
                so = so[:so.rfind(b"\n") + 1]
            else:
                S, so = S.encode(), so.encode()
        oc = rep.outcome()
        at = (["cfg"], forced_from(rep))
        what = "louis %r under %r" % (case["argv"], case["cfg"]["faults"])
        if oc in ("hang", "deadlock") or oc.startswith("signal") and not (oc == "signal:6" and "alloc" in hard):
            return Violation("ends", "%s ends with %s" % (what, oc), *at)
        if not hard:
            if (oc, so, se) != ("exit:0", S, E):
                j = next((j for j, (a, b) in enumerate(zip(so, S)) if a != b), min(len(so), len(S)))
                return Violation("altered", "%s: ends with %s and prints %r at offset %d of %d, expected %r of %d; errors %r, expected %r" % (
                    what, oc, so[j:j + 200], j, len(so), S[j:j + 200], len(S), se[:300], E[:300]), *at)
            ctx.probe("exact")
            return None
        if oc == "exit:0":
            if "stdout" in hard or "stderr" in hard:
                return Violation("silent", "%s exits with success although a write failed; it printed %r of %r, and %r of %r" % (
                    what, rep.stdout[-200:], ref.stdout[-200:], rep.stderr[-200:], E[-200:]), *at)
            if (so, se) != (S, E) and len(se) <= len(E):
                return Violation("silent", "%s exits with success, prints %r instead of %r and reports %r instead of %r" % (
                    what, so[-300:], S[-300:], se[-300:], E[-300:]), *at)
            ctx.probe("survived")
            return None
        ctx.probe("failed_" + oc)
        if "alloc" in hard and case["argv"][0] == "check" and se[:len(E)] != E:
            return None
        if not S.startswith(so):
            return Violation("not-a-prefix", "%s prints %r, which is not the beginning of %r" % (what, so[-300:], S[:600]), *at)
        return None

    def nontrivial(self, case):
        return True


CHECK = C()
