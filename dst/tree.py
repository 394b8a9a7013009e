"""Worlds of tables including tables, and what loading them must give."""
import re

from dst import gen, model
from dst.core import PLAIN, Violation, world
from dst.sim import op_key, parse_emit

NAMES = ["a.utb", "b.ctb", "c.cti", "d.uti", "e.dis", "base.utb", "sub/f.utb", "f.utb", "g", "é.utb", "h.tbl", "dic.utb", ".dic", "A.utb", "B.ctb", "base.UTB"]
DICS = ["x.dic", "sub/y.dic", "y.dic", "hyph_é.dic"]
RAW = ["/t/\udce9", "/\udcff\udcfet", "/data/\u00e9\udc80"]
DIRS = ["/w", "/w/t", "/t", "/t/sub", "/my tables", "/data/é"]
SHARED = [chr(0x4e00 + i) for i in range(24)]
ORDER = [chr(0x5e00 + i) for i in range(10)]


def search_path(r, p_raw=0.04):
    """(LOUIS_TABLE_PATH value or None, the real directories behind it)"""
    if r.random() < 0.3:
        return None, ["/w"]
    n = r.randint(1, 4)
    ds = [r.choice(DIRS) for _ in range(n)]
    if r.random() < p_raw:
        # names are bytes
        ds[r.randrange(n)] = r.choice(RAW)
    spelled = []
    for d in ds:
        s = d
        if d == "/w" and r.random() < 0.5:
            s = r.choice([".", "./", "/w"])
        elif d == "/w/t" and r.random() < 0.5:
            s = r.choice(["t", "./t", "t/", "../w/t"])
        elif r.random() < 0.2:
            s = d + "/"
        spelled.append(s)
    for _ in range(r.choice([0, 0, 0, 1, 2])):
        spelled.insert(r.randint(0, len(spelled)), r.choice(["", "/nowhere", " ", "missing", "/w/file.txt"]))
    if r.random() < 0.02:
        # a search path without directories
        return r.choice(["", ":", " ", ": :"]), ["/w"]
    return ":".join(spelled), ds


def text(p):
    return all(not "\udc80" <= c <= "\udcff" for c in p)


def small_rules(r, k):
    o = []
    for _ in range(r.randint(0, 4)):
        o.append(gen.rule(r, ["vowel"]))
    o.append("sign %s %s" % (SHARED[k % len(SHARED)], gen.dots(r)))
    if r.random() < 0.01:
        o.append(r.choice(gen.BROKEN))
    for c in r.sample(ORDER, r.randint(1, 4)):
        o.append("%s %s %s" % (r.choice(["sign", "always", "letter"]), c, gen.dots(r)))
    return o


def tree(r, p_bad=0.0, p_missing=0.0, p_cycle=0.0, p_links=0.3, p_shadow=0.5, p_mode=0.0, p_utf8=0.0, p_dirs=0.2, p_dic=0.25,
         unique=False, nmax=7, p_stray=0.0, p_scale=0.03):
    """a file system of tables; returns case pieces"""
    env, dirs = search_path(r)
    if unique:
        p_shadow = 0
    files, links, fdirs = {}, {}, {}
    names = r.sample(NAMES, r.randint(1, nmax))
    dics = r.sample(DICS, r.randint(1, 2)) if r.random() < p_dic else []
    for d in dirs:
        fdirs.setdefault(d, 0o755)
    base_at = r.randrange(len(names))

    def ref(n, d):
        x = r.random()
        if x < 0.8:
            return n
        if x < 0.88:
            return "./" + n
        if x < 0.95 and " " not in d and text(d):
            return d.rstrip("/") + "/" + n
        return n

    def place(n, content):
        d = r.choice(dirs)
        files[d.rstrip("/") + "/" + n] = content
        return d

    home = {}
    for n in names + dics:
        home[n] = r.choice(dirs)
    k = 0
    for i, n in enumerate(names):
        copies = 1 + (r.random() < p_shadow * 0.5)
        for c in range(copies):
            lines = gen.base_rules(r) if (i == base_at or r.random() < 0.05) else []
            lines += small_rules(r, k)
            k += 1
            incs = []
            later = names[i + 1:]
            for m in later:
                if r.random() < 0.55 / max(1, len(later) ** 0.5):
                    incs.append(m)
            if later and not incs and r.random() < 0.7:
                incs.append(r.choice(later))
            if r.random() < p_cycle:
                incs.append(r.choice(names[:i + 1]))
            if r.random() < p_missing:
                o = r.choice(names)
                incs.append(r.choice([o.rsplit(".", 1)[0] or "x", o + ".utb", o.upper(), "tables/" + o, o + "~", "missing.utb"]) if r.random() < 0.3 else r.choice(["missing.utb", "nope.dic", "sub/none.cti", "/abs/none.utb", "a.utb/x", "t"]))
            if r.random() < 0.1 and incs:
                incs.append(r.choice(incs))
            for m in incs:
                lines.insert(r.randint(0, len(lines)), "include " + ref(m, home[m] if m in home else "/w"))
            for m in dics:
                if r.random() < 0.3:
                    lines.insert(r.randint(0, len(lines)), "include " + ref(m, home[m]))
            while r.random() < p_bad:
                at = r.randint(0, len(lines))
                # the same mistake may be made on every line of a block
                lines[at:at] = [r.choice(gen.BAD_LINES)] * r.choice([1, 1, 1, 1, 2, 3])
            content = gen.render(r, lines)
            if r.random() < p_utf8:
                content += "# \udcff\udcfe\n"
            d = home[n] if c == 0 else r.choice(dirs)
            p = d.rstrip("/") + "/" + n
            if p in files:
                continue
            files[p] = content if r.random() >= p_mode else [content, 0o000]
    if r.random() < 0.08:
        # a file with nothing in it is a file all the same
        for _ in range(r.choice([1, 1, 2])):
            p = r.choice(dirs).rstrip("/") + "/" + r.choice(names)
            if p not in files or r.random() < 0.5:
                files[p] = r.choice(["", "", "\n", "#", "# nothing\n", " "])
    for n in dics:
        files[home[n].rstrip("/") + "/" + n] = gen.dictionary(r)
        if r.random() < p_shadow * 0.4:
            files.setdefault(r.choice(dirs).rstrip("/") + "/" + n, gen.dictionary(r))
    if r.random() < p_links:
        for _ in range(r.randint(1, 3)):
            n = r.choice(names)
            p = r.choice(dirs).rstrip("/") + "/" + n
            if p in files or p in links:
                # replace a file by a link to a moved copy, or a name by another
                if p in files and r.random() < 0.6:
                    q = "/store/" + n.replace("/", "_")
                    files[q] = files.pop(p)
                    links[p] = q
                continue
            links[p] = r.choice([r.choice(sorted(files)), "/nowhere", n.split("/")[-1]])
    if r.random() < p_dirs:
        # a directory of that name in the way
        for _ in range(r.choice([1, 1, 2])):
            n = r.choice(names + dics + dics)
            p = r.choice(dirs).rstrip("/") + "/" + n
            if p not in files and p not in links:
                fdirs[p] = 0o755
    if r.random() < p_stray:
        # a table that exists, but not where tables are looked for
        n = r.choice(names + names[1:] * 2 + dics)
        outside = [d for d in ["/w", "/w", "/", "/w/sub", "/store", "/t/sub", "/w/t/sub", "/home/u", "/usr/share/liblouis/tables"]
                   + [d.rstrip("/") + "/" + x for d in dirs for x in ("sub", "tables", "tables", r.choice(["liblouis", "include", "share", "lib", "dictionaries", "braille"]))]
                   if d not in dirs]
        gone = [d.rstrip("/") + "/" + n for d in dirs if d.rstrip("/") + "/" + n in files]
        q = r.choice(outside).rstrip("/") + "/" + r.choice([n, n.split("/")[-1]])
        for p in sorted(set(gone)):
            files.setdefault(q, files[p])
            if r.random() < 0.9:
                del files[p]
        for p in [p for p in links if p.endswith("/" + n) and r.random() < 0.8]:
            del links[p]
    case = {"fs": {"files": files, "links": links, "dirs": fdirs}, "env": {} if env is None else {"LOUIS_TABLE_PATH": env}, "cwd": "/w",
            "tables": [names[0]] if r.random() < 0.75 else r.sample(names, r.randint(1, min(3, len(names))))}
    if r.random() < 0.1 and text(home[case["tables"][0]]):
        case["tables"][0] = home[case["tables"][0]].rstrip("/") + "/" + case["tables"][0]
    if r.random() < p_missing * 0.3:
        case["tables"].append("missing.utb")
    if r.random() < p_scale:
        scale(r, case)
    return case


BULK = [chr(0x6000 + i) for i in range(400)]


def scale(r, case):
    """sizes at which an implementation could start to work differently"""
    files, dirs = case["fs"]["files"], case["fs"]["dirs"]
    texts = sorted(p for p, t in files.items() if isinstance(t, str) and not p.endswith(".dic"))
    if not texts:
        return
    p = r.choice(texts)
    k = r.random()
    eol = "\r\n" if "\r\n" in files[p] else "\n"
    lines = files[p].split(eol)
    if k < 0.4:
        # many rules, some of them in competition
        n = r.choice([130, 260, 520, 1030])
        cs = r.sample(BULK, r.choice([20, 100, 400]))
        new = [r.choice(["sign %s %s", "letter %s %s", "always %s %s", "always " + r.choice(cs) + "%s %s"]) % (r.choice(cs), gen.dots(r)) for _ in range(n)]
        if r.random() < 0.4:
            new = [x + r.choice(["", "", " " + "long comment " * 12]) for x in new]
    elif k < 0.6:
        # many includes
        leaf = "many%d.cti" % r.randint(0, 9)
        at = p.rsplit("/", 1)[0]
        if p.count("/") > 1 and at.endswith("/sub"):
            leaf = "sub/" + leaf
            at = at[:-4]
        files[at + "/" + leaf] = "\n".join(gen.rule(r) for _ in range(r.randint(1, 3))) + "\n"
        new = []
        for _ in range(r.choice([17, 33, 65, 110])):
            new += ["include " + leaf] + ([gen.rule(r)] if r.random() < 0.3 else [])
    elif k < 0.75 and "LOUIS_TABLE_PATH" in case["env"]:
        # many directories to search
        new = []
        ds = case["env"]["LOUIS_TABLE_PATH"].split(":")
        for j in range(r.choice([12, 20, 40, 70])):
            d = r.choice(["/many/%d" % j, "/nowhere%d" % j, "many%d" % j])
            ds.insert(r.randint(0, len(ds)), d)
            if d.startswith("/many/") and r.random() < 0.5:
                dirs[d] = 0o755
        case["env"]["LOUIS_TABLE_PATH"] = ":".join(ds)
    elif k < 0.88:
        # long lines
        new = [r.choice(["# %s", "always %s 1-2", "sign \u6001 1 %s", "   %s", "always \u6001\u6002 12 %s"]) % (r.choice(["x", "long ", "#", "\u00e9"]) * r.choice([90, 300, 1100, 5000]))
               for _ in range(r.randint(1, 4))]
    elif k < 0.97:
        # empty and almost empty
        new = r.choice([[""] * 300, ["#"] * 300, [" "] * 1100])
    else:
        # a file of very many lines
        new = [r.choice(["", "", "#"])] * r.choice([4100, 16400, 33000, 66000])
    at = r.randint(0, len(lines))
    lines[at:at] = new
    files[p] = eol.join(lines)


def before(r, case, p=0.1):
    """loads that come first in the same process"""
    if r.random() >= p:
        return []
    names = sorted({f.rsplit("/", 1)[-1] for f in case["fs"]["files"] if not f.endswith(".dic")}) + ["missing.utb"]
    few = r.random() < 0.8
    return [[[r.choice(names)] if r.random() < 0.7 else case["tables"], r.choice("FFB"), r.choice([1, 1, 2, 5]) if few else r.choice([20, 40, 70, 130])]
            for _ in range(r.randint(1, 3) if few else 1)]


def probes(r, n=3):
    o = []
    for _ in range(n):
        o.append("".join(r.sample(SHARED, 4)) + " " + "".join(r.sample(ORDER, 5)) + " " + gen.text(r))
    o.append("".join(ORDER))
    if r.random() < 0.1:
        o.append("".join(r.choice(BULK) for _ in range(60)))
    return o


def back_probes(r, n=2):
    return [gen.braille(r) for _ in range(n)]


# ---------------------------------------------------------------- classification of lines
def classify(ctx, lines):
    """{line: (debug, display)} for the lines that do not parse, decided one line at a time"""
    cache = ctx.cache.setdefault("lines", {})
    todo = sorted(x for x in lines if x not in cache)
    if len(cache) > 60000:
        cache.clear()
        todo = sorted(lines)
    if todo:
        case = {"cwd": "/w"}
        rep = ctx.run(world(case, PLAIN, "driver", script=[[[["S", 0, "F", ln] for ln in todo]]]))
        e = parse_emit(rep.emit)
        bad = []
        for i, ln in enumerate(todo):
            o = e.get((0, 0, i))
            cache[ln] = None
            if o is not None and o.kind == "ERR" and o.errs[0][1].startswith("ParseError {"):
                cache[ln] = [o.errs[0][1], None]
                bad.append(ln)
        if bad:
            case = {"cwd": "/w", "fs": {"files": {"/w/bad": "\n".join(bad) + "\n"}}}
            rep = ctx.run(world(case, PLAIN, "cli", ["parse", "bad"]))
            out = rep.stderr.decode("utf-8", "replace").split("\n")[:-1]
            if len(out) == len(bad):
                for ln, m in zip(bad, out):
                    cache[ln][1] = m.split(": ", 1)[1]
    return {ln: cache[ln] for ln in lines if cache[ln] is not None}


SETS = re.compile(r"(\(|attrs: )\{(.*?)\}(\)| |,)")


def canon(line):
    """unordered sets print in no particular order in debug dumps"""
    return SETS.sub(lambda m: m.group(1) + "{" + "".join(sorted(m.group(2))) + "}" + m.group(3), line)


ANCHORED = re.compile(r"AnchoredRule \{ rule: (.*), path: (?:None|Some\(.*\)), line: \d+ \}$")
MALFORMED = re.compile(r"ParseError \{ path: (?:None|Some\(.*?\)), line: \d+, ")


def rule_debug(ctx, rules):
    """Debug text of each rule, from a single flat file in a quiet world (None where unavailable)"""
    cache = ctx.cache.setdefault("ruledebug", {})
    texts = sorted({x.text for x in rules if x.dic is None} - set(cache))
    if len(cache) > 60000:
        cache.clear()
        texts = sorted({x.text for x in rules if x.dic is None})
    if texts:
        case = {"cwd": "/w", "fs": {"files": {"/w/flat": "\n".join(texts) + "\n"}}}
        rep = ctx.run(world(case, PLAIN, "cli", ["parse", "flat"]))
        out = rep.stdout.decode("utf-8", "replace").split("\n")[:-1]
        ok = len(out) == len(texts)
        for i, t in enumerate(texts):
            m = ANCHORED.match(canon(out[i])) if ok else None
            # where it says it is from is judged against the model, not taken from here
            cache[t] = m.group(1) if m else None
    return cache


def expected_cli_parse(ctx, rules):
    cache = rule_debug(ctx, rules)
    o = []
    for x in rules:
        d = cache.get(x.text) if x.dic is None else "IncludeHyphenation { path: %s }" % model.rust_debug_str(x.dic)
        if d is None:
            return None
        o.append("AnchoredRule { rule: %s, path: Some(%s), line: %d }" % (d, model.rust_debug_str(x.path), x.line))
    return o


def lib_error(e, bad):
    """the Debug text the library must give for a model error; a trailing * matches any rest"""
    k = e[0]
    if k == "parse":
        d = bad[e[3]][0]
        path = "None" if e[1] is None else "Some(%s)" % model.rust_debug_str(e[1])
        return "ParseError { path: %s, line: %d, %s" % (path, e[2], MALFORMED.sub("", d, count=1))
    if k == "notfound":
        return "TableNotFound(%s)" % model.rust_debug_str(e[1])
    if k == "nodic":
        return "HyphenationTableNotFound(%s)" % model.rust_debug_str(e[1])
    if k == "unreadable":
        return "TableNotReadable(*"
    if k == "circular":
        return "CircularInclude([%s])" % ", ".join(model.rust_debug_str(p) for p in e[1])
    if k == "deep":
        return "IncludeTooDeep(%d)" % model.MAX_DEPTH


def cli_error(e, bad):
    k = e[0]
    if k == "parse":
        d = bad[e[3]][1]
        p = "%s:%d: " % (model.display(e[1]), e[2]) if e[1] is not None else "%d: " % e[2]
        return p + d if d is not None else p + "*"
    if k == "notfound":
        return "Cannot find table %s" % model.rust_debug_str(e[1])
    if k == "nodic":
        return "Hyphenation table %s not found" % model.display(e[1])
    if k == "unreadable":
        return "Cannot read table*"
    if k == "circular":
        return "circular table inclusion detected: [%s]" % ", ".join(model.rust_debug_str(p) for p in e[1])
    if k == "deep":
        return "table inclusion chain exceeds the maximum depth of %d" % model.MAX_DEPTH


def same(exp, got):
    return len(exp) == len(got) and all(g == x or (x.endswith("*") and g.startswith(x[:-1])) for x, g in zip(exp, got))


def expand(ctx, case, fs=None):
    vfs = model.VFS(fs or case["fs"], case.get("cwd", "/w"))
    bad = classify(ctx, model.all_lines(vfs))
    return model.Expander(vfs, model.search_dirs(case.get("env", {})), bad), bad


def reference(ctx, case, rules, script_ops):
    """outcome of loading the flat equivalent of `rules` in each direction and running the probes"""
    files = {}
    dic = any(x.dic is not None for x in rules)
    vfs = model.VFS(case["fs"], case.get("cwd", "/w"))
    lines = []
    for x in rules:
        if x.dic is None:
            lines.append(x.text)
            continue
        n = vfs.stat(x.dic)[2]
        files["/ref/d%d.dic" % len(lines)] = [n[2], n[1]]
        lines.append("include d%d.dic" % len(lines))
    flat = "\n".join(lines) + "\n"
    files["/ref/flat.utb"] = flat
    c = {"cwd": "/ref", "fs": {"files": files}, "env": {}}
    ops = []
    for op in script_ops:
        if op[0] == "N":
            ops.append(["N", op[1], op[2], ["flat.utb"]] if dic else ["S", op[1], op[2], flat])
        else:
            ops.append(op)
    rep = ctx.run(world(c, PLAIN, "driver", script=[[ops]]))
    return rep, parse_emit(rep.emit)


def judge_tree(ctx, case):
    """the table set of `case`, loaded through the library and the command line under case['cfg'], against the model"""
    if not case["tables"] or not all(case["tables"]):
        return None
    ex, bad = expand(ctx, case)
    try:
        rules, errs = ex.tables(case["tables"])
    except OverflowError:
        ctx.probe("model_overflow")
        return None
    cfg = case["cfg"]
    det = getattr(ctx, "det_now", False)
    ctx.probe("files_opened", ex.opens)
    ctx.probe("load_ok" if not errs else "load_error")
    for e in errs:
        ctx.probe("error_" + e[0])
    # library
    probe_ops = [["N", 0, "F", case["tables"]]] + [["T", 0, p] for p in case["fprobes"]]
    probe_ops += [["N", 1, "B", case["tables"]]] + [["T", 1, p] for p in case["bprobes"]]
    # what the same thread loaded before, with whatever result
    warm = [["N", 90, d, ts] for ts, d, n in case.get("before", []) for _ in range(n)]
    rep = ctx.run(world(case, cfg, "driver", script=[[warm + probe_ops]]), det=det)
    got = parse_emit(rep.emit)
    got = {(p, t, i - len(warm)): o for (p, t, i), o in got.items()}
    if rep.outcome() != "exit:0":
        return Violation("load-" + rep.outcome().split(":")[0], "loading %r ends the process with %s: %s" % (
            case["tables"], rep.outcome(), rep.stderr.decode("utf-8", "replace")[-400:]), ["cfg"], sched(rep))
    if errs:
        exp = [lib_error(e, bad) for e in errs]
        for i, op in enumerate(probe_ops):
            o = got.get((0, 0, i))
            if op[0] != "N":
                continue
            if o is None or o.kind != "ERR":
                return Violation("accepted", "%r must be rejected with %r, the library gives %s" % (case["tables"], exp[:4], show(o)))
            g = [d for _, d in o.errs]
            if not same(exp, g):
                return Violation("wrong-errors", "%r must be rejected with %r, the library reports %r" % (case["tables"], exp, g))
    else:
        _, want = reference(ctx, case, rules, probe_ops)
        for i, op in enumerate(probe_ops):
            a, b = want.get((0, 0, i)), got.get((0, 0, i))
            if op_key(a) != op_key(b):
                return Violation("wrong-table" if op[0] == "T" else "wrong-load",
                                 "%r %s: the flat equivalent gives %s, the loaded table gives %s" % (
                                     case["tables"], op[0] + " " + repr(op[-1])[:200], show(a), show(b)))
    # command line, on the first table only
    if case.get("cli", True):
        t = case["tables"][0]
        rules, errs = ex.table(t)
        rep = ctx.run(world(case, cfg, "cli", ["parse", t]))
        if rep.outcome() != "exit:0":
            return Violation("parse-" + rep.outcome().split(":")[0], "louis parse %r ends with %s" % (t, rep.outcome()))
        out = rep.stdout.decode("utf-8", "replace").split("\n")[:-1]
        err = rep.stderr.decode("utf-8", "replace").split("\n")[:-1]
        if errs:
            exp = [cli_error(e, bad) for e in errs]
            if out or not same(exp, err):
                return Violation("cli-errors", "louis parse %r must report %r, it reports %r%s" % (
                    t, exp, err, " and prints rules" if out else ""))
        else:
            exp = expected_cli_parse(ctx, rules)
            out = [canon(x) for x in out]
            if exp is not None and (out != exp or err):
                k = next((i for i, (a, b) in enumerate(zip(exp, out)) if a != b), min(len(exp), len(out)))
                return Violation("cli-rules", "louis parse %r: %d rules expected, %d printed, first difference at %d: %r vs %r %r" % (
                    t, len(exp), len(out), k, exp[k:k + 1], out[k:k + 1], err[:2]))
            ctx.probe("rules_compared", len(rules))
    return None


def sched(rep):
    from dst.sim import forced_from
    return forced_from(rep)


def show(o):
    if o is None:
        return "nothing"
    if o.kind == "ERR":
        return "errors %r" % [d for _, d in o.errs][:4]
    return "%s %r" % (o.kind, o.val)
