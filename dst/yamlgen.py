"""Liblouis YAML test files: generation, rendering, and what checking them must report."""
import re

from dst import gen, model, tree
from dst.core import PLAIN, world
from dst.sim import parse_emit

MODES = ["noContractions", "compbrlAtCursor", "dotsIO", "compbrlLeftCursor", "ucBrl", "noUndefined", "partialTrans"]
BIG = dict(PLAIN, maxticks=2_000_000_000)


# ---------------------------------------------------------------- generation
def inline(r, names, errors=0.1):
    lines = gen.base_rules(r) + [gen.rule(r, ["vowel"]) for _ in range(r.randint(0, 8))]
    for _ in range(r.randint(0, 2)):
        if names and r.random() < 0.5:
            lines.append("include " + r.choice(names))
    while r.random() < errors:
        lines.insert(r.randint(1, len(lines)), r.choice([x for x in gen.BAD_LINES if x.strip() == x and "\u00a0" not in x]))
    return "\n".join(lines) + "\n"


def display_lines(r):
    o = []
    for _ in range(r.randint(1, 8)):
        o.append("display %s %s" % (r.choice("ABCXYZabc.,!$%&"), r.choice(gen.SINGLE)))
    return o


def test(r, errors):
    back = r.random() < 0.15
    s = gen.braille(r) if back else gen.text(r, 1, 3)
    s = s.replace("\u0301", "e")
    t = {"in": s, "exp": r.choice([["="], ["="], ["="], ["=", "x"], ["lit", gen.braille(r, 1, 4)], ["lit", ""], ["lit", "ab c"]])}
    if r.random() < 0.15:
        t["desc"] = r.choice(["a description", "", "x: y", "it's"])
    if r.random() < 0.35:
        t["xfail"] = r.choice(["on", "off", "true", "false", "some reason", {"forward": "true"}, {"backward": "true"}, {"forward": "on", "backward": "off"},
                               {"forward": "off", "backward": "broken since 1999"}, {"backward": "on", "forward": "because"}, {}])
    if r.random() < 0.25 and s:
        t["typeform"] = [[r.choice(gen.EMPH), "".join(r.choice("+-") for _ in range(r.randint(1, len(s))))] for _ in range(r.randint(1, 2))]
        t["typeform"] = [x for i, x in enumerate(t["typeform"]) if x[0] not in [y[0] for y in t["typeform"][:i]]]
    if r.random() < 0.25:
        t["mode"] = r.sample(MODES, r.randint(0, 3))
    if r.random() < 0.1:
        t["extra"] = r.choice([["cursorPos", 0], ["cursorPos", [0, 1]], ["inputPos", [0, 1, 2]], ["outputPos", [0]], ["maxOutputLength", 12],
                               ["realInputLength", 3], ["expected_typeform", {"italic": "+"}]])
    if r.random() < 0.15:
        # escape sequences in the file, not in the meaning
        t["esc"] = 1
    return t


def doc(r, names, dirs, errors=0.1, small=False):
    """a test file, as sections"""
    names = [n for n in names if n.endswith("b") or n.endswith("i") or n in ("g", "h.tbl")] or ["a.utb"]
    o = []
    for _ in range(r.choice([1, 1, 2]) if not small else 1):
        if r.random() < 0.35:
            k = r.random()
            if k < 0.4:
                o.append(["display", "inline", "\n".join(display_lines(r)) + "\n"])
            elif k < 0.7:
                o.append(["display", "simple", r.choice(["disp0.dis", "disp1.dis", "disp0.dis", r.choice(names)])])
            elif k < 0.85:
                o.append(["display", "list", r.sample(["disp0.dis", "disp1.dis"], r.randint(1, 2))])
            else:
                o.append(["display", "comma", ["disp0.dis", "disp1.dis"]])
        for _ in range(r.choice([1, 1, 1, 2])):
            k = r.random()
            if k < 0.35:
                o.append(["table", "inline", inline(r, names, errors)])
            elif k < 0.65:
                o.append(["table", "simple", r.choice(names)])
            elif k < 0.8:
                o.append(["table", "list", r.sample(names, r.randint(1, min(3, len(names))))])
            elif k < 0.95:
                o.append(["table", "match", r.choice(names)])
            else:
                o.append(["table", "query", [["language", "xy"]]] if errors and r.random() < 0.4 else ["table", "simple", r.choice(names)])
        if r.random() < 0.6:
            o.append(["flags", r.choice(["forward", "forward", "backward", "backward", "bothDirections", "bothDirections", "display", "hyphenate"])])
        for _ in range(r.choice([1, 1, 2])):
            n = r.randint(0, 6) if not small else r.randint(1, 2)
            if not small and r.random() < 0.01:
                n = r.choice([40, 70, 130, 260, 600])
            o.append(["tests", [test(r, errors) for _ in range(n)]])
    if r.random() < errors * 0.5:
        o.insert(r.randint(0, len(o)), ["tests", [test(r, errors)]])
    return {"sections": o, "block": int(r.random() < 0.3), "marks": int(r.random() < 0.3)}


def display_files(r):
    return {"disp%d.dis" % k: "\n".join(display_lines(r)) + "\n" for k in range(2)}


def damage(r, text):
    """a file that is not a well-formed test file"""
    k = r.random()
    if k < 0.4:
        return text[:r.randint(0, max(0, len(text) - 2))]
    if k < 0.6:
        return text + r.choice(["bogus: 1\n", "flags: {testmode: sideways}\n", "tests:\n  - [\"a\"]\n", "  - x\n", "tests: 3\n", "\t- \n", "]\n",
                                "tests:\n  - [\"a\", \"b\", {nothing: 1}]\n", "tests:\n  - [\"a\", \"b\", {mode: [fast]}]\n", "table: {}\n",
                                "tests:\n  - [\"\\\\q\", \"b\"]\n", "flags: {}\n", "display: {}\n", "tests:\n  - [\"a\", \"b\", {xfail: {up: on}}]\n"])
    if k < 0.8:
        i = r.randint(0, len(text))
        return text[:i] + r.choice(["{", "]", "\"", ":", "- ", "\n---\n", "&", "*x"]) + text[i:]
    return r.choice(["", "\n", "# nothing\n", "[]\n", "just text\n", "\udcff\udcfe\udc80\n"])


# ---------------------------------------------------------------- rendering
BREAKS = "\n\r\x0b\x0c\x85\u2028\u2029"


def q(s, esc=False):
    s = s.replace("\\", "\\\\")
    if esc and s:
        # only an even cut: never inside an escaped backslash
        i = len(s) // 2
        if "\\" not in s:
            c = ord(s[i])
            s = s[:i] + ("\\x%04x" % c if c < 0x10000 else "\\y%05x" % c) + s[i + 1:]
            s = s.replace(" ", "\\s", 1)
    s = s.replace("\\", "\\\\").replace('"', '\\"')
    if any(c in BREAKS for c in s):
        s = "".join("\\u%04X" % ord(c) if c in BREAKS else c for c in s)
    return '"' + s + '"'


def flow(v):
    if isinstance(v, dict):
        return "{" + ", ".join("%s: %s" % (k, flow(x)) for k, x in v.items()) + "}"
    if isinstance(v, list):
        return "[" + ", ".join(flow(x) for x in v) + "]"
    if isinstance(v, int):
        return str(v)
    return v if re.fullmatch(r"[a-zA-Z]\w*", v) else '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'


def opts(t):
    o = {}
    if t.get("xfail") is not None:
        o["xfail"] = t["xfail"]
    if t.get("typeform"):
        o["typeform"] = {c: m for c, m in t["typeform"]}
    if t.get("mode") is not None:
        o["mode"] = t["mode"]
    if t.get("extra"):
        o[t["extra"][0]] = t["extra"][1]
    return o


def render(d, expect):
    """expect(section index, test index) -> the expected text of that test"""
    o = []
    if d.get("marks"):
        o += ["# a comment", "---"]
    for i, s in enumerate(d["sections"]):
        k = s[0]
        if k == "flags":
            o.append("flags: {testmode: %s}" % s[1] if not d.get("block") else "flags:\n  testmode: " + s[1])
        elif k == "tests":
            o.append("tests:" if s[1] else "tests: []")
            for j, t in enumerate(s[1]):
                items = ([q(t["desc"])] if t.get("desc") is not None else []) + [q(t["in"], t.get("esc")), q(expect(i, j), t.get("esc"))]
                op = opts(t)
                if d.get("block"):
                    o.append("  - - " + items[0])
                    o += ["    - " + x for x in items[1:]]
                    if op:
                        pre = "    - "
                        for a, v in op.items():
                            o.append("%s%s: %s" % (pre, a, flow(v)))
                            pre = "      "
                else:
                    o.append("  - [" + ", ".join(items + ([flow(op)] if op else [])) + "]")
        else:
            kind, v = s[1], s[2]
            if kind == "inline":
                o.append(k + ": |")
                o += ["  " + x for x in v.rstrip("\n").split("\n")]
            elif kind == "simple":
                o.append("%s: %s" % (k, flow(v)))
            elif kind == "comma":
                o.append("%s: %s" % (k, ",".join(v)))
            elif kind == "list":
                o.append("%s: %s" % (k, flow(v)) if not d.get("block") else k + ":\n" + "\n".join("  - " + flow(x) for x in v))
            elif kind == "match":
                o.append("%s: {__assert-match: %s}" % (k, flow(v)) if not d.get("block") else "%s:\n  __assert-match: %s" % (k, flow(v)))
            elif kind == "query":
                o.append("%s: {%s}" % (k, ", ".join("%s: %s" % (a, b) for a, b in v)))
    return "\n".join(o) + "\n"


# ---------------------------------------------------------------- model
def cells(d):
    if d == "0":
        return "\u2800"
    n = 0
    for c in d:
        n |= 1 << (int(c) - 1)
    return chr(0x2800 + n)


def spans(t):
    o = []
    for c, mask in t.get("typeform") or []:
        start = None
        for i, ch in enumerate(mask + "-"):
            if ch == "+" and start is None:
                start = i
            elif ch != "+" and start is not None:
                o.append([c, start, i])
                start = None
    return o


def bits(t):
    return sum(1 << MODES.index(m) for m in t.get("mode") or [])


def xfails(x, direction):
    if x is None:
        return False
    if isinstance(x, dict):
        v = x.get(direction)
        return v is not None and v not in ("off", "false")
    return x not in ("off", "false")


class Panics(Exception):
    pass


class Model:
    """what `louis check` must report of `docs`, with the translations taken from the library"""

    def __init__(self, ctx, case, docs):
        self.ctx, self.case, self.docs = ctx, case, docs
        fs = {k: dict(v) for k, v in case["fs"].items()}
        self.inl = {}
        for d in docs:
            for s in d["sections"]:
                if s[0] in ("table", "display") and s[1] == "inline":
                    self.inl.setdefault(s[2], "/inl/%d" % len(self.inl))
        fs.setdefault("files", {}).update({p: t for t, p in self.inl.items()})
        self.fs = fs
        self.ex, self.bad = tree.expand(ctx, case, fs)
        self.slots = {}
        self.results = {}
        self.pending = []

    def rules(self, kind, v):
        """-> (rules, error texts)"""
        if kind == "inline":
            rs, errs = self.ex.source(v, None)
        elif kind in ("list", "comma"):
            rs, errs = self.ex.tables(v)
        else:
            rs, errs = self.ex.table(v)
        return rs, [tree.lib_error(e, self.bad) for e in errs]

    def display(self, s, direction):
        if s is None:
            return {}, []
        rs, errs = self.rules(s[1], s[2])
        m = {}
        for x in rs:
            f = x.text.split() if x.dic is None else []
            if len(f) >= 3 and f[0] == "display":
                a, b = cells(f[2]), f[1]
                if direction == "B":
                    a, b = b, a
                m.setdefault(a, b)
        return m, errs

    def paths(self, s):
        if s[1] == "inline":
            return [self.inl[s[2]]]
        return s[2] if s[1] == "list" else [s[2]]

    # translations are collected, then asked in one simulated process
    def want(self, s, direction, text, t):
        k = (tuple(self.paths(s)), direction, text, bits(t), tuple(map(tuple, spans(t))))
        if k not in self.results:
            self.pending.append(k)
        return k

    def ask(self):
        todo = sorted(set(self.pending) - set(self.results))
        self.pending = []
        if not todo:
            return
        ops, at = [], {}
        last = None
        for k in todo:
            ps, d, text, m, e = k
            if last != (ps, d):
                ops.append(["N", 0, d, list(ps)])
                at[(ps, d)] = len(ops) - 1
                last = (ps, d)
            if text is not None:
                ops.append(["T", 0, text, m, [list(x) for x in e]])
                at[k] = len(ops) - 1
        rep = self.ctx.run(world(dict(self.case, fs=self.fs), BIG, "driver", script=[[ops]]))
        em = parse_emit(rep.emit)
        for k, i in at.items():
            o = em.get((0, 0, i))
            if o is None or o.kind == "PANIC":
                raise Panics()
            self.results[k] = o

    def loaded(self, s, direction):
        """error text of compiling the table, or None"""
        k = (tuple(self.paths(s)), direction)
        if k not in self.results:
            self.pending.append(k + (None, 0, ()))
            self.ask()
        o = self.results[k]
        if o.kind == "ERR":
            d = o.errs[0][1]
            if d.startswith("TranslationFailed("):
                return "Error when compiling table " + d[len("TranslationFailed("):-1]
            return "?"
        return None

    def run(self):
        """-> per doc: (rendered text, 'ok'|'err', [lines]|message, counts)"""
        return [self.doc(d) for d in self.docs]

    def doc(self, d):
        disp, tables, mode, prev = None, [], "forward", False
        mats = []
        for i, s in enumerate(d["sections"]):
            if s[0] == "display":
                disp = s
            elif s[0] == "flags":
                mode = s[1]
            elif s[0] == "table":
                tables = (tables if prev else []) + [s]
            else:
                mats.append((i, disp, tables, mode, s[1]))
            prev = s[0] == "table"
        exp, lines, err = {}, [], None
        counts = [0, 0, 0, 0, 0]
        for m in mats:
            if err is None:
                err = self.matrix(m, exp, lines, counts)
        text = render(d, lambda i, j: exp.get((i, j)) if (i, j) in exp else self.literal(d["sections"][i][1][j]))
        if err is not None:
            return text, "err", err, counts
        return text, "ok", lines, counts

    @staticmethod
    def literal(t):
        return t["exp"][1] if t["exp"][0] == "lit" else (t["exp"] + [""])[1]

    def matrix(self, m, exp, lines, counts):
        i, disp, tables, mode, tests = m
        dirs = {"forward": "F", "backward": "B", "bothDirections": "FB"}.get(mode, "")
        for d in dirs:
            dm, errs = self.display(disp, d)
            if errs:
                return self.table_errors(errs)
            rev = mode == "bothDirections" and d == "B"
            for s in tables:
                if s[1] == "query":
                    return "Table queries have not been implemented (yet)"
                _, errs = self.rules(s[1], s[2])
                if errs:
                    return self.table_errors(errs)
                e = self.loaded(s, d)
                if e is not None:
                    return e
                ks = []
                for j, t in enumerate(tests):
                    inp = exp[(i, j)] if rev else t["in"]
                    if d == "B":
                        inp = "".join(dm.get(c, c) for c in inp)
                    ks.append(self.want(s, d, inp, t))
                self.ask()
                for j, t in enumerate(tests):
                    o = self.results[ks[j]]
                    actual = o.val
                    if d == "F":
                        actual = "".join(dm.get(c, c) for c in actual)
                    if (i, j) not in exp:
                        exp[(i, j)] = t["exp"][1] if t["exp"][0] == "lit" else actual + (t["exp"] + [""])[1]
                    want = t["in"] if rev else exp[(i, j)]
                    inp = exp[(i, j)] if rev else t["in"]
                    self.result(lines, counts, t, inp, want, actual, "Forward" if d == "F" else "Backward")
            if not tables:
                for j, t in enumerate(tests):
                    exp.setdefault((i, j), self.literal(t))
        return None

    def result(self, lines, counts, t, inp, want, actual, direction):
        counts[0] += 1
        x = xfails(t.get("xfail"), direction.lower())
        D = model.rust_debug_str
        if actual == want:
            if not x:
                counts[1] += 1
            else:
                counts[4] += 1
                lines.append("UnexpectedSuccess { input: %s, direction: %s }" % (D(inp), direction))
        else:
            counts[3 if x else 2] += 1
            lines.append("%s { input: %s, expected: %s, actual: %s, direction: %s }" % (
                "ExpectedFailure" if x else "Failure", D(inp), D(want), D(actual), direction))

    @staticmethod
    def table_errors(errs):
        """a trailing * of an error stands for any rest, so the whole report is a pattern"""
        return "Errors in table [" + "\0".join(errs) + "]"


def message_matches(pattern, got):
    """pattern: a message of the model, whose table errors may end in *"""
    m = re.escape(pattern).replace("\\\0", ", ").replace("\0", ", ")
    m = m.replace("TableNotReadable\\(\\*", "TableNotReadable\\(.*")
    return re.fullmatch(m, got, re.S) is not None


def summary_rows(text):
    """cells of the summary table"""
    rows = []
    for ln in text.split("\n"):
        if "│" in ln:
            rows.append([c.strip() for c in ln.strip("│ ").split("│")])
    return rows


def expected_rows(files):
    """files: [(name, counts)] of the files that could be checked, in order"""
    def row(name, c):
        p = lambda n: "%s%%" % ("NaN" if c[0] == 0 else "%.1f" % (n * 100.0 / c[0]))
        return [name, str(c[0]), p(c[1]), p(c[2]), p(c[3]), p(c[4])]
    o = [row(n, c) for n, c in sorted(files, key=lambda x: x[1][0])]
    return o + [row("Total", [sum(c[k] for _, c in files) for k in range(5)])]
