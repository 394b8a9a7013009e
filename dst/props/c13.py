import json
import re

from dst import gen, tree, yamlgen
from dst.core import PLAIN, Check, Violation, world
from dst.props.c03 import faults, unambiguous
from dst.sim import forced_from


SECTIONS = {"table": ["inline", "simple", "list", "match", "query"], "display": ["inline", "simple", "list", "comma"], "tests": [],
            "flags": ["forward", "backward", "bothDirections", "display", "hyphenate"]}


def base(p):
    return p.rsplit("/", 1)[-1]


class C(Check):
    id = "C13"
    title = "Checking test files reports exactly their results, in order"
    quick_n = 6000
    thorough_n = 100000
    rule = ("random test files (inline, listed and searched tables, display tables, every test mode, expected failures, emphasis, modes, malformed and "
            "missing files, tables with errors) checked together by a simulated work-stealing pool under random schedules and thread counts, with and "
            "without I/O faults; every printed result, error and summary cell against a model fed with the library's own translations; non-trivial: at "
            "least one file with a test")
    shrink = [("docs",), ("docs", "*", "sections"), ("docs", "*", "sections", "*", "*"), ("fs", "files"), ("fs", "files", "*"), ("fs", "links"), ("order",),
              ("run", "*"), ("run", "faults", "*")]

    def gen(self, r, i):
        faulty = r.random() < 0.3
        # under faults a name has one meaning: a failing lookup must not find another file
        c = tree.tree(r, p_bad=r.choice([0, 0, 0.03]), p_missing=r.choice([0, 0, 0, 0.15]), p_cycle=r.choice([0, 0, 0, 0.1]), nmax=4, p_dic=0.15,
                      p_utf8=r.choice([0, 0, 0, 0.1]), p_mode=0, unique=faulty, p_links=0 if faulty else 0.3)
        # only tables that the model can compare: names without spaces are used as they are
        dirs = sorted(c["fs"]["dirs"])
        names = sorted({base(p) for p in c["fs"]["files"]})
        if not tree.model.search_dirs(c["env"]):
            c["env"] = {}
        d0 = tree.model.search_dirs(c["env"])
        for n, t in yamlgen.display_files(r).items():
            if r.random() < 0.95:
                c["fs"]["files"].setdefault(r.choice(dirs).rstrip("/") + "/" + n, t)
        if r.random() < 0.1:
            names.append("missing.utb")
        c["docs"] = []
        errors = r.choice([0, 0, 0.1])
        n = r.choice([1, 2, 3, 4, 6, 10])
        while len(c["docs"]) < n:
            d = yamlgen.doc(r, names, d0, errors, small=n > 6)
            if r.random() < 0.12:
                d["damage"] = r.getrandbits(32)
            c["docs"].append(d)
            if r.random() < 0.2 and len(c["docs"]) < n:
                c["docs"].append(self.sibling(r, d))
        if r.random() < 0.06:
            # a whole suite: many files, few of them different
            some = [d for d in c["docs"] if len(d["sections"]) < 5][:3] or c["docs"][:1]
            c["docs"] = [json.loads(json.dumps(r.choice(some))) for _ in range(r.randint(21, 48))]
            c["suite"] = 1
        n = len(c["docs"])
        c["order"] = list(range(n))
        r.shuffle(c["order"])
        if r.random() < 0.1:
            c["order"].insert(r.randint(0, n), n)       # a file that does not exist
        c["where"] = [r.choice(["y%d.yaml", "sub/y%d.yaml", "/tests/y%d.yaml", "y %d.yml"]) % k for k in range(n + 1)]
        if r.random() < 0.3:
            # test files that share their name
            pat = r.choice(["s%d/y.yaml", "/tests/%d/y.yaml", "sub/s%d/en.yaml"])
            c["where"] = [pat % k if r.random() < 0.8 else w for k, w in enumerate(c["where"])]
        if not faulty and r.random() < 0.15:
            c["order"].insert(r.randint(0, len(c["order"])), r.choice(c["order"]))      # the same file twice
        c["summary"] = r.choice(["", "", "-s", "--summary"]) if not c.pop("suite", 0) or r.random() < 0.3 else "-s"
        c["run"] = gen.cfg(r, True)
        c["run"].pop("eintr", None)
        c["run"]["maxticks"] = 2_000_000_000
        if r.random() < 0.7:
            c["env"]["RAYON_NUM_THREADS"] = str(r.choice([1, 2, 3, 4]))
        if faulty:
            c["run"].pop("urandom", None)
            files = sorted(c["fs"]["files"]) + [self.path(c["where"][k]) for k in range(n)]
            c["run"]["faults"] = unambiguous(faults(r, files, alloc=0), c["fs"]["files"])
        return c

    @staticmethod
    def sibling(r, d):
        """the same test file with a table that differs in one digit or letter"""
        d = json.loads(json.dumps(d))
        for s in d["sections"]:
            if s[0] in ("table", "display") and s[1] == "inline":
                t = s[2]
                at = [k for k, ch in enumerate(t) if ch in "123456abcde" and t[k - 1:k] in " ,-\n" + "123456"]
                at = [k for k in at if k > len(t) // 2] or at
                if at:
                    k = r.choice(at)
                    s[2] = t[:k] + r.choice("123456" if t[k].isdigit() else "abcde") + t[k + 1:]
        return d

    @staticmethod
    def path(p):
        return p if p.startswith("/") else "/w/" + p

    def judge(self, case, ctx):
        docs = case["docs"]
        order = [k for k in case["order"] if k <= len(docs)]
        if not order or len(case["where"]) <= max(order):
            return None
        for d in docs:
            for s in d["sections"]:
                if s[0] not in SECTIONS or (s[0] != "tests" and s[1] not in SECTIONS[s[0]]) or (s[0] not in ("tests", "flags") and not s[2]):
                    return None     # shrunk to nonsense
        try:
            M = yamlgen.Model(ctx, case, docs)
            exp = M.run()
        except yamlgen.Panics:
            return Violation("panic", "a translation that a test asks for panics")
        except OverflowError:
            return None
        fs = {k: dict(v) for k, v in case["fs"].items()}
        w = dict(case, fs=fs)
        import random
        for k, d in enumerate(docs):
            text = exp[k][0]
            if d.get("damage"):
                text = yamlgen.damage(random.Random(d["damage"]), text)
                exp[k] = (text, "raw", None, None)
            fs["files"][self.path(case["where"][k])] = text
        # what each file must give
        blocks = {}
        for k in sorted(set(order)):
            p = case["where"][k]
            if k == len(docs):
                blocks[k] = ("err", 'Could not open yaml file "%s" (No such file or directory (os error 2))' % p, None)
            elif exp[k][1] == "raw":
                # alone, in a quiet process
                a = ctx.run(world(w, PLAIN, "cli", ["check", p]))
                b = ctx.run(world(w, PLAIN, "cli", ["check", "-s", p]))
                if a.outcome() != "exit:0" or b.outcome() != "exit:0":
                    return Violation("ends", "louis check %r of a malformed file ends with %s: %r" % (p, a.outcome(), a.stderr[-300:]))
                ctx.probe("damaged")
                if a.stderr:
                    if a.stdout:
                        return Violation("both", "louis check %r prints results %r although it rejects the file: %r" % (p, a.stdout[:300], a.stderr[:300]))
                    blocks[k] = ("raw", a.stderr.decode("utf-8", "replace"), None)
                else:
                    rows = yamlgen.summary_rows(b.stdout.decode("utf-8", "replace"))
                    blocks[k] = ("ok", a.stdout.decode("utf-8", "replace").split("\n")[:-1], None if len(rows) < 2 else rows[-2])
            elif exp[k][1] == "err":
                blocks[k] = ("err", "%s: %s" % (p, exp[k][2]), None)
                ctx.probe("file_error")
            else:
                blocks[k] = ("ok", exp[k][2], exp[k][3])
                ctx.probe("tests", exp[k][3][0])
                for nm, v in zip(["success", "failure", "xfail", "xpass"], exp[k][3][1:]):
                    ctx.probe(nm, v)
        argv = ["check"] + ([case["summary"]] if case["summary"] else []) + [case["where"][k] for k in order]
        rep = ctx.run(world(w, case["run"], "cli", argv), det=getattr(ctx, "det_now", False))
        at = (["run"], forced_from(rep))
        if rep.outcome() != "exit:0":
            return Violation("ends", "louis %r ends with %s: %r" % (argv, rep.outcome(), rep.stderr[:300]), *at)
        out = rep.stdout.decode("utf-8", "replace")
        err = rep.stderr.decode("utf-8", "replace")
        faulty = bool(case["run"].get("faults"))
        # errors, in the order of the arguments
        failed, rest = [], err
        for n, k in enumerate(order):
            p = case["where"][k]
            kind, msg, _ = blocks[k]
            heads = ["%s: " % p, 'Could not open yaml file "%s"' % p, 'Could not create parser "%s"' % p]
            if kind == "raw" and rest.startswith(msg):
                failed.append(n)
                rest = rest[len(msg):]
                continue
            line, nl, tail = rest.partition("\n")
            if kind == "err" and nl and yamlgen.message_matches(msg, line):
                failed.append(n)
                rest = tail
                continue
            if faulty and nl and any(line.startswith(h) for h in heads):
                failed.append(n)
                rest = tail
                ctx.probe("fault_reported")
                continue
            if kind != "ok":
                return Violation("wrong-error", "louis %r must report %r for %s, it reports %r" % (argv, msg, p, rest[:600]), *at)
        if rest:
            return Violation("extra-error", "louis %r reports %r beyond what the files %r deserve" % (argv, rest[:400], [blocks[k][0] for k in order]), *at)
        good = [n for n in range(len(order)) if n not in failed]
        if any(blocks[order[n]][0] != "ok" for n in good):
            return Violation("accepted", "louis %r accepts files that it must reject: %r" % (argv, [case["where"][order[n]] for n in good]), *at)
        if case["summary"]:
            rows = yamlgen.summary_rows(out)
            body = [(base(case["where"][order[n]]), blocks[order[n]][2]) for n in good]
            if any(not isinstance(c, list) or not all(isinstance(x, int) for x in c) for _, c in body):
                ctx.probe("summary_unmodelled")
                return None
            want = yamlgen.expected_rows(body)
            got = rows[-len(want):] if len(rows) >= len(want) else rows
            head = rows[:-len(want)] if len(rows) >= len(want) else []
            if got != want or len(head) > 2 or "Tests" not in str(head):
                return Violation("summary", "louis %r must summarise %r, it prints %r" % (argv, want, rows), *at)
            ctx.probe("summaries")
        else:
            want = [x for n in good for x in blocks[order[n]][1]]
            got = out.split("\n")[:-1]
            if want != got:
                j = next((j for j, (a, b) in enumerate(zip(want, got)) if a != b), min(len(want), len(got)))
                return Violation("results", "louis %r must print %d results, prints %d; number %d must be %r and is %r (faults %r)" % (
                    argv, len(want), len(got), j, want[j:j + 1], got[j:j + 1], case["run"].get("faults")), *at)
            ctx.probe("reports")
        return None

    def nontrivial(self, case):
        return any(s[0] == "tests" and s[1] for d in case["docs"] for s in d["sections"])


CHECK = C()
