from dst import gen, tree
from dst.core import Check


def chain(r):
    """a long chain of inclusions around the depth limit, with or without a way back"""
    n = r.choice([r.randint(2, 12), r.randint(58, 70), 63, 64, 65, 66])
    files, links = {}, {}
    # the same file name in every directory, or names of their own
    pat = r.choice(["n%d", "n%d", "n%d", "x%d/t", "x%d/t.cti", "deep/er/x%d/t"])
    few = r.random() < 0.3
    name = lambda k: (pat if not few or k % 3 else "y%d/u.cti") % k
    for k in range(n):
        lines = (gen.base_rules(r) if k == n - 1 else []) + ["sign %s %s" % (tree.SHARED[k % len(tree.SHARED)], gen.dots(r))]
        if k + 1 < n:
            nxt = name(k + 1)
            if r.random() < 0.15:
                nxt = r.choice(["./", "/w/"]) + nxt
            if r.random() < 0.05:
                links["/w/l%d" % (k + 1)] = "/w/" + name(k + 1)
                nxt = "l%d" % (k + 1)
            lines.insert(r.randint(0, len(lines)), "include " + nxt)
            if r.random() < 0.03:
                lines.append("include " + name(n - 1))
        files["/w/" + name(k)] = gen.render(r, lines, noise=False)
    for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
        # another way down
        a = r.randrange(n)
        files["/w/" + name(a)] += r.choice(["", "\n"]) + "\ninclude %s\n" % name(r.randint(a, min(n - 1, a + 3)) if r.random() < 0.9 else r.randrange(n))
    if r.random() < 0.4:
        a = r.randrange(n)
        b = r.randint(0, a)
        t = name(b)
        k = r.random()
        if k < 0.3:
            links["/w/back"] = "/w/" + t
            t = "back"
        elif k < 0.5:
            links["/w/d"] = "/w"
            t = "d/" + t
        files["/w/" + name(a)] = files["/w/" + name(a)].rstrip("\r\n") + "\ninclude %s\n" % t
    return {"fs": {"files": files, "links": links, "dirs": {}}, "env": {}, "cwd": "/w", "tables": [name(0) if r.random() < 0.8 else name(r.randrange(n))]}


def diamonds(r):
    """layers of tables that share what they include"""
    files = {}
    layers = r.randint(2, 4)
    width = r.randint(2, 3)
    for a in range(layers):
        for b in range(width if a else 1):
            lines = ["sign %s %s" % (tree.SHARED[(a * 3 + b) % len(tree.SHARED)], gen.dots(r)), "sign %s %s" % (tree.ORDER[a], gen.dots(r))]
            if a == 0:
                lines = gen.base_rules(r) + lines
            if a + 1 < layers:
                for w in range(width):
                    if r.random() < 0.7:
                        lines.insert(r.randint(0, len(lines)), "include l%dw%d" % (a + 1, w))
            elif r.random() < 0.15:
                lines.append("include l%dw%d" % (r.randint(0, a), 0))
            files["/w/l%dw%d" % (a, b)] = gen.render(r, lines, noise=False)
    return {"fs": {"files": files, "links": {}, "dirs": {}}, "env": {}, "cwd": "/w", "tables": ["l0w0"] if r.random() < 0.8 else ["l0w0", "l1w0"]}


def dotted(r):
    """names with dots behind links to directories, where the name alone does not tell the file"""
    files, links = {}, {}
    deep = r.choice(["/w/a/b", "/w/a/b/c", "/t/a/b"])
    links["/w/c"] = deep if r.random() < 0.5 or not deep.startswith("/w/") else deep[3:]
    up = deep.rsplit("/", 1)[0]
    names = ["x", "y.utb", "z.cti"]
    places = ["/w", up, deep]
    use = [p + "/" + n for p in places for n in r.sample(names, r.randint(1, 3))]
    for k, p in enumerate(use):
        lines = (gen.base_rules(r) if k == 0 else []) + ["sign %s %s" % (tree.SHARED[k % len(tree.SHARED)], gen.dots(r))]
        for _ in range(r.choice([0, 1, 1, 2])):
            # mostly down the list, so that there is no circle
            t = r.choice(use[k + 1:] or use) if r.random() < 0.85 else r.choice(use)
            d, n = t.rsplit("/", 1)
            how = [t, t]
            if d == up:
                how += ["/w/c/../" + n] * 4 + ["c/../" + n] * 2
            if d == deep:
                how += ["/w/c/" + n, "c/" + n]
            if d == "/w":
                how += [n, "./" + n, "/w/./" + n, "/w/a/../" + n if deep.startswith("/w") else n]
                if deep == "/w/a/b":
                    how += ["/w/c/../../" + n] * 2
            lines.insert(r.randint(0, len(lines)), "include " + r.choice(how))
        files[p] = gen.render(r, lines, noise=False)
    return {"fs": {"files": files, "links": links, "dirs": {deep: 0o755}}, "env": {}, "cwd": "/w", "tables": [use[0]]}


class C(Check):
    id = "C05"
    title = "Circular and too deep includes are rejected, shared ones accepted"
    quick_n = 8000
    thorough_n = 300000
    rule = ("random include graphs: cycles of any length and through symbolic links, directory links and alternative spellings, chains on both "
            "sides of the depth limit, diamonds and repeated includes; every load must end within the step budget with exactly the errors (cycle "
            "members included) or rules of an independent expansion; non-trivial: at least two files")
    shrink = [("fs", "files"), ("fs", "links"), ("fs", "files", "*"), ("tables",), ("before",), ("fprobes",), ("bprobes",), ("cfg", "*")]

    def gen(self, r, i):
        k = r.random()
        if k < 0.3:
            c = chain(r)
        elif k < 0.45:
            c = diamonds(r)
        elif k < 0.55:
            c = dotted(r)
        else:
            c = tree.tree(r, p_cycle=r.choice([0.1, 0.3]), p_links=0.6, p_shadow=0.2, p_bad=r.choice([0, 0, 0.02]))
        c["fprobes"], c["bprobes"] = tree.probes(r, 1) + ["".join(tree.SHARED)], tree.back_probes(r, 1)
        c["before"] = tree.before(r, c)
        c["cfg"] = gen.cfg(r)
        return c

    def judge(self, case, ctx):
        return tree.judge_tree(ctx, case)

    def nontrivial(self, case):
        return len(case["fs"]["files"]) > 1


CHECK = C()
