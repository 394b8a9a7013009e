import re

from dst import gen, model, tree
from dst.core import PLAIN, Check, Violation, world

KEYS = ["language", "type", "grade", "region", "contraction", "k1", "K1"]
VALS = ["en", "de", "en-GB", "literary", "computer", "1", "2", "a:b", "x/y", "full", "EN", "e"]
ERR = {"opendir": ["EACCES", "EIO", "EMFILE", "ENOENT", "ENOMEM", "ENFILE", "EINTR"], "readdir": ["EIO", "EINTR", "ENOENT"],
       "open": ["EACCES", "EIO", "EMFILE", "ENOENT", "ENFILE", "ELOOP"], "read": ["EIO", "EISDIR", "ENOMEM", "EAGAIN", "ESTALE"]}


def meta(r):
    k, v = r.choice(KEYS), r.choice(VALS)
    x = r.random()
    if x < 0.7:
        return "#+%s:%s" % (k, v)
    if x < 0.8:
        return "#+%s%s%s:%s%s%s" % (r.choice(["", " ", "\t"]), k, r.choice(["", " "]), r.choice([" ", "  ", "\t"]), v, r.choice(["", " ", " \t"]))
    return r.choice(["# +%s:%s", " #+%s:%s", "#-%s: %s", "#%s:%s", "#+%s:%s y", "#+%s x:%s", "#+%s:é%s", "#+é%s:%s", "##+%s:%s", "%s:%s", "#+%s %s",
                     "#+:%s%s", "#+%s-a:%s", "#+%s:%s\u00a0z", "always %s %s", "#+ %s:%s", "#+%s:%.0s", "#+%.0s:%s", "#+%s:a %s", "#+x%s y:%s", "#+%s_:%s", "#+%s:é %s", "#+%s: %s\u2028"]) % (k, v)


def content(r):
    o = []
    for _ in range(r.choice([0, 1, 2, 3, 5, 8])):
        o.append(meta(r))
    for _ in range(r.randint(0, 3)):
        o.insert(r.randint(0, len(o)), r.choice(["", "# text", "letter a 1", "include x.tbl", "-" * 80]))
    e = r.choice(["\n", "\n", "\r\n"])
    if r.random() < 0.1:
        # a table of some size: its rules may stand anywhere
        n = r.choice([300, 900, 2100, 4200, 9000, 40000] + [140000] * (r.random() < 0.1))
        rules, k = [], 0
        while k < n:
            rules.append(r.choice(["letter %s 1", "always %s 1-2", "# %s", "always x%s 12", "include %s.cti"]) % ("abcdefgh"[:r.randint(1, 8)] * r.choice([1, 1, 4])))
            k += len(rules[-1]) + len(e)
        at = r.randint(0, len(o))
        o[at:at] = rules
    s = e.join(o) + (e if r.random() < 0.8 else "")
    return s if r.random() < 0.94 else s + "\udcff" + e + meta(r) + e


def pairs(text):
    """the metadata of a file"""
    o = set()
    for ln in model.rust_lines(text):
        if not ln.startswith("#+") or ":" not in ln:
            continue
        k, v = ln[2:].split(":", 1)
        k, v = k.strip(), v.strip()
        if k and v and all(c.isascii() and c.isalnum() for c in k) and all("!" <= c <= "~" for c in v):
            o.add((k, v))
    return o


def comps(p):
    """a path compares by its components"""
    o = [("", p.startswith("/"))]
    for i, c in enumerate(p.split("/")):
        if c and (c != "." or i == 0):
            o.append(c)
    return tuple(o)


ITEM = re.compile(r'"((?:[^"\\]|\\u\{[0-9a-f]+\}|\\x[0-9A-F]{2}|\\[^ux])*)"(, )?')
ESC = re.compile(r"\\(?:u\{([0-9a-f]+)\}|x([0-9A-F]{2})|(.))")
NAMED = {"n": "\n", "r": "\r", "t": "\t", "0": "\0"}


def debug_list(out):
    """["a", "b"] in Debug form of a set -> list of strings, or None"""
    if not (out.startswith("{") and out.endswith("}\n")):
        return None
    out, at, o = out[1:-2], 0, []
    while at < len(out):
        m = ITEM.match(out, at)
        if not m or bool(m.group(2)) != (m.end() < len(out)):
            return None
        o.append(ESC.sub(lambda e: chr(int(e.group(1), 16)) if e.group(1) else chr(0xdc00 + int(e.group(2), 16)) if e.group(2)
                         else NAMED.get(e.group(3), e.group(3)), m.group(1)))
        at = m.end()
    return o


class C(Check):
    id = "C14"
    title = "A metadata query lists exactly the matching tables"
    quick_n = 70000
    thorough_n = 1000000
    rule = ("random table directories and search paths (repeated and overlapping directories, links, unreadable and non-text files, subdirectories) with "
            "well-formed and malformed metadata lines; random queries over several pairs; directory order, read sizes and hash seeds random; with "
            "failures of listing and reading, and files that change during the query; against a model of the index; non-trivial: some file has metadata")
    shrink = [("fs", "files"), ("fs", "links"), ("fs", "dirs"), ("fs", "files", "*"), ("query",), ("cfg", "*"), ("cfg", "faults", "*"), ("cfg", "muts", "*")]

    def gen(self, r, i):
        env, dirs = tree.search_path(r)
        if env is not None and r.random() < 0.75:
            env = ":".join(d for d in env.split(":") if d.strip() and d not in ("/nowhere", "missing", "/w/file.txt")) or "/w"
        fs = {"files": {}, "links": {}, "dirs": {d: 0o755 for d in dirs}}
        if r.random() < 0.08:
            # directories of the same name, one in the other
            d = r.choice([x for x in dirs if x.startswith("/")] or ["/t"]).rstrip("/")
            d = d if d.count("/") and d != "" else "/t"
            sub = d + "/" + r.choice([d.rsplit("/", 1)[-1], d.rsplit("/", 1)[-1], "sub/" + d.rsplit("/", 1)[-1], "x"])
            fs["dirs"].update({d: 0o755, sub: 0o755})
            if "sub/" in sub:
                fs["dirs"][d + "/sub"] = 0o755
            dirs = sorted({d, sub} | set(dirs[:1]))
            ds = [d, sub]
            r.shuffle(ds)
            env = ":".join(ds if r.random() < 0.7 else ds + [env or "/w"])
        names = ["a.tbl", "b.ctb", "c", "é.utb", "d e.tbl", ".hidden", "z.tbl", "f-1.tbl", "quote\".tbl"]
        if r.random() < 0.15:
            names = ["a.tbl", "a.tbl~", "#a.tbl#", ".#a.tbl", "a.tbl.bak", ".a.tbl.swp", "A.TBL", "a.dic", "a.yaml", "README", "a.tbl.orig", "a.tmp", "a.dis", "a.cti", "Makefile.am", "x" * 200]
        if r.random() < 0.15:
            names = ["a.tbl", "t\udce9.tbl", "t\udcea.tbl", "\udcff", "l\nf.tbl", "t\ufffd.tbl", "\u0301.tbl", "\u200b.ctb", "tab\t", "'q'", "b\\"]
        for _ in range(r.randint(1, 9)):
            p = r.choice(dirs).rstrip("/") + "/" + r.choice(names)
            t = content(r)
            fs["files"][p] = t if r.random() < 0.93 else [t, r.choice([0, 0o200])]
        if r.random() < 0.01:
            # a whole collection
            for k in range(r.choice([70, 130, 260, 400])):
                fs["files"].setdefault(r.choice(dirs).rstrip("/") + "/n%d.tbl" % k, "\n".join(meta(r) for _ in range(r.randint(1, 3))) + "\n")
        if r.random() < 0.25:
            p = r.choice(dirs).rstrip("/") + "/" + r.choice(["l.tbl", "m.tbl"])
            fs["links"][p] = r.choice(sorted(fs["files"]) + ["/nowhere", r.choice(dirs), "l.tbl"])
        if r.random() < 0.15:
            # names of the same directory, of the one above
            q = r.choice(sorted(fs["files"]))
            at, n = q.rsplit("/", 1)
            p = at + "/" + r.choice(["0.tbl", "zz.tbl", "l2.tbl"])
            fs["links"][p] = r.choice([n, n, "./" + n, "../" + at.rsplit("/", 1)[-1] + "/" + n])
            if r.random() < 0.3:
                fs["links"][at + "/" + r.choice(["1.tbl", "y.tbl"])] = p.rsplit("/", 1)[-1]
        if r.random() < 0.2:
            fs["dirs"][r.choice(dirs).rstrip("/") + "/" + r.choice(["subdir", "x.tbl"])] = r.choice([0o755, 0])
        have = sorted({kv for t in fs["files"].values() for kv in pairs(t if isinstance(t, str) else t[0])})
        q = []
        for _ in range(r.choice([1, 1, 1, 2, 2, 3, 4])):
            kv = r.choice(have) if have and r.random() < 0.8 else (r.choice(KEYS), r.choice(VALS))
            q.append("%s=%s" % kv)
        if r.random() < 0.5 and fs["files"]:
            # several pairs of one file
            ps = sorted(pairs(r.choice([t if isinstance(t, str) else t[0] for t in fs["files"].values()])))
            if ps:
                q = ["%s=%s" % kv for kv in r.sample(ps, r.randint(1, min(4, len(ps))))]
        if r.random() < 0.06:
            # what only a malformed line says
            bad = [ln[ln.find("#+") + 2:].split(":", 1) for t in fs["files"].values() for ln in model.rust_lines(t if isinstance(t, str) else t[0]) if "#+" in ln and ":" in ln]
            bad = [kv for kv in bad if len(kv) == 2 and not any(c in kv[0] + kv[1] for c in "=,\udcff")]
            if bad:
                k, v = r.choice(bad)
                q = ["%s=%s" % ((k.strip(), v.strip()) if r.random() < 0.9 else (k, v))]
        if r.random() < 0.04:
            q.append(r.choice(["language=", "=en", "=", " language=en", "language=en "]))
        c = {"fs": fs, "cwd": "/w", "env": {} if env is None else {"LOUIS_TABLE_PATH": env}, "query": q, "cfg": gen.cfg(r)}
        c["cfg"].pop("urandom", None)
        x = r.random()
        files = sorted(fs["files"])
        if x < 0.25:
            fl = []
            for _ in range(r.choice([1, 1, 2])):
                op = r.choice(["opendir", "readdir", "open", "open", "read", "read"])
                path = None
                if op in ("open", "read"):
                    path = r.choice(files)
                a = r.randint(1, 3) if op != "readdir" else r.randint(1, 8)
                act, arg = ("errno", r.choice(ERR[op]))
                if op == "read" and r.random() < 0.2:
                    act, arg = "short", r.randint(1, 5)
                fl.append([op, path, a, a + r.choice([1, 1, 50]), act, arg])
            c["cfg"]["faults"] = fl
        elif x < 0.35:
            f = r.choice(files)
            c["cfg"]["muts"] = [[r.choice(["open", "read", "opendir", "readdir"]), None, r.randint(1, 6), r.random() < 0.5,
                                 r.choice(["unlink", "replace"]), f, content(r)]]
        return c

    def expect(self, case, skip=()):
        """-> (all listed paths or None for an error, {path: True if it may be missing})"""
        vfs = model.VFS(case["fs"], case["cwd"])
        want = [tuple(x.split("=")[:2]) for x in case["query"]]
        have = {}
        for d in model.search_dirs(case["env"]):
            e, canon, n = vfs.stat(d)
            if e or n[0] != "d" or not n[1] & 0o400:
                return None
            pre = canon.rstrip("/") + "/"
            for p in vfs.node:
                if p.startswith(pre) and p != canon and "/" not in p[len(pre):]:
                    name = p[len(pre):]
                    e, text = vfs.read(p)
                    if e:
                        continue
                    real = vfs.stat(p)[1]
                    s = have.setdefault(comps(model.join(d, name)), [set(), real, model.join(d, name)])
                    s[0] |= pairs(text)
        return {k: (path, real) for k, (ps, real, path) in have.items() if all(w in ps for w in want)}

    def judge(self, case, ctx):
        if not case["query"] or not all("=" in x for x in case["query"]):
            return None
        want = self.expect(case)
        argv = ["query", ",".join(case["query"])]
        rep = ctx.run(world(case, case["cfg"], "cli", argv), det=getattr(ctx, "det_now", False))
        if rep.outcome() != "exit:0":
            return Violation("ends", "louis %r ends with %s" % (argv, rep.outcome()))
        out, err = rep.stdout.decode("utf-8", "replace"), rep.stderr.decode("utf-8", "replace")
        flt, muts = case["cfg"].get("faults") or [], case["cfg"].get("muts") or []
        listing = any(n and f[0] in ("opendir", "readdir") for f, n in zip(flt, rep.fault_fired))
        if err:
            if out or not err.startswith("Could not index all tables") or not (want is None or listing):
                return Violation("error", "louis %r reports %r and prints %r" % (argv, err[:300], out[:300]))
            ctx.probe("cannot_index")
            return None
        if want is None:
            if flt:
                return None
            return Violation("no-error", "louis %r prints %r although the search path %r cannot be listed" % (argv, out[:300], case["env"]))
        got = debug_list(out)
        if got is None:
            return Violation("format", "louis %r prints %r" % (argv, out[:300]))
        g = [comps(p) for p in got]
        if len(set(g)) != len(g):
            return Violation("duplicate", "louis %r lists a table twice: %r" % (argv, got))
        loose = {f[1] for f, n in zip(flt, rep.fault_fired) if n and f[0] in ("open", "read") and f[4] == "errno"}
        mutated = {m[5] for m in muts}
        if listing:
            # a failed listing that is not reported must not have lost anything
            pass
        for p in got:
            k = comps(p)
            real = model.VFS(case["fs"], case["cwd"]).stat(p)[1]
            if k not in want and real not in mutated:
                return Violation("extra", "louis %r lists %r, which does not match (%r)" % (argv, p, sorted(x[0] for x in want.values())))
        for k, (p, real) in sorted(want.items()):
            if k not in g and real not in loose and real not in mutated and None not in loose:
                return Violation("missing", "louis %r does not list %r, which matches; it lists %r (faults %r)" % (argv, p, got, flt))
        ctx.probe("listed", len(got))
        ctx.probe("faulty" if any(rep.fault_fired) else "mutated" if rep.h["muts"] else "exact")
        return None

    def nontrivial(self, case):
        return any(pairs(t if isinstance(t, str) else t[0]) for t in case["fs"]["files"].values())


CHECK = C()
