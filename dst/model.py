"""Reference models: a tiny file system, the search path, and textual include expansion."""
import re
import unicodedata

MAX_DEPTH = 64
ENOENT, EACCES, ENOTDIR, EISDIR, ELOOP = 2, 13, 20, 21, 40


def norm(path, cwd="/"):
    """lexically absolute, no dots resolved through links (model paths contain no '..')"""
    if not path.startswith("/"):
        path = cwd.rstrip("/") + "/" + path
    return "/" + "/".join(c for c in path.split("/") if c and c != ".")


def tobytes(s):
    return s.encode("utf-8", "surrogateescape")


class VFS:
    """files: {path: text | [text, mode]}, dirs: {path: mode}, links: {path: target}"""

    def __init__(self, fs, cwd):
        self.cwd = cwd
        self.node = {"/": ("d", 0o755)}
        for p, m in fs.get("dirs", {}).items():
            self._parents(p)
            self.node[p] = ("d", m)
        for p, c in fs.get("files", {}).items():
            self._parents(p)
            t, m = (c, 0o644) if isinstance(c, str) else c
            self.node[p] = ("f", m, t)
        for p, t in fs.get("links", {}).items():
            self._parents(p)
            self.node[p] = ("l", t)
        self._parents(cwd + "/x")

    def _parents(self, p):
        parts = p.split("/")[1:-1]
        cur = ""
        for c in parts:
            cur += "/" + c
            self.node.setdefault(cur, ("d", 0o755))

    def stat(self, path, follow=True):
        """-> (errno, canonical path, node)"""
        if not path:
            return ENOENT, None, None
        cur = [] if path.startswith("/") else [c for c in self.cwd.split("/") if c]
        todo = [c for c in path.split("/") if c]
        wantdir = path.endswith("/")
        hops = 0
        while todo:
            here = "/" + "/".join(cur)
            n = self.node.get(here)
            if n is None:
                return ENOENT, None, None
            if n[0] != "d":
                return ENOTDIR, None, None
            if not n[1] & 0o100:
                return EACCES, None, None
            c = todo.pop(0)
            if c == ".":
                continue
            if c == "..":
                if cur:
                    cur.pop()
                continue
            nx = here.rstrip("/") + "/" + c
            n = self.node.get(nx)
            if n is None:
                return ENOENT, None, None
            if n[0] == "l" and (todo or follow):
                hops += 1
                if hops > 40:
                    return ELOOP, None, None
                if n[1].startswith("/"):
                    cur = []
                if n[1].endswith("/") and not todo:
                    wantdir = True
                todo = [x for x in n[1].split("/") if x] + todo
                continue
            cur.append(c)
        here = "/" + "/".join(cur)
        n = self.node.get(here)
        if n is None:
            return ENOENT, None, None
        if wantdir and n[0] != "d":
            return ENOTDIR, None, None
        return 0, here, n

    def is_file(self, path):
        e, _, n = self.stat(path)
        return not e and n[0] == "f"

    def read(self, path):
        """-> (errno or 'utf8' or 0, text)"""
        e, _, n = self.stat(path)
        if e:
            return e, None
        if n[0] == "d":
            return EISDIR, None
        if not n[1] & 0o400:
            return EACCES, None
        try:
            tobytes(n[2]).decode("utf-8")
        except UnicodeDecodeError:
            return "utf8", None
        return 0, n[2]


def search_dirs(env):
    v = env.get("LOUIS_TABLE_PATH")
    if v is None:
        return ["."]
    return [d for d in v.split(":") if d.strip()]


def join(d, f):
    if f.startswith("/"):
        return f
    return d + f if d.endswith("/") else d + "/" + f


def find_file(vfs, dirs, f):
    for d in dirs:
        p = join(d, f)
        if vfs.is_file(p):
            return p
    return None


WS = re.compile(r"[ \t\n\x0c\r]+")


def rust_lines(text):
    o = text.split("\n")
    if o and o[-1] == "":
        o.pop()
    return [x[:-1] if x.endswith("\r") else x for x in o]


def is_rule(line):
    t = line.strip()
    return bool(t) and not t.startswith("#")


def include_target(line):
    t = [x for x in WS.split(line) if x]
    return t[1] if len(t) > 1 and t[0] == "include" else None


def is_dic(f):
    b = f.rstrip("/").rsplit("/", 1)[-1]
    return b.endswith(".dic") and len(b) > 4


def all_lines(vfs):
    """every rule line anywhere in the file system, for classification"""
    o = set()
    for n in vfs.node.values():
        if n[0] == "f":
            try:
                tobytes(n[2]).decode()
            except UnicodeDecodeError:
                continue
            o.update(ln for ln in rust_lines(n[2]) if is_rule(ln))
    return o


class Rule:
    __slots__ = ("path", "line", "text", "dic")

    def __init__(self, path, line, text, dic=None):
        self.path, self.line, self.text, self.dic = path, line, text, dic


class Expander:
    """bad: {line text: message} for the lines that do not parse"""

    def __init__(self, vfs, dirs, bad):
        self.vfs, self.dirs, self.bad = vfs, dirs, bad
        self.opens = 0
        self.opened = {}

    def table(self, f, chain=()):
        """-> (rules, errors)"""
        p = find_file(self.vfs, self.dirs, f)
        if p is None:
            return [], [("notfound", f)]
        e, canon, _ = self.vfs.stat(p)
        if e:
            return [], [("unreadable", e)]
        if len(chain) >= MAX_DEPTH:
            return [], [("deep",)]
        if canon in chain:
            return [], [("circular", list(chain) + [canon])]
        chain = chain + (canon,)
        self.opens += 1
        self.opened[canon] = self.opened.get(canon, 0) + 1
        if self.opens > 4000:
            raise OverflowError("model: too many inclusions")
        e, text = self.vfs.read(p)
        if e:
            return [], [("unreadable", e)]
        return self.source(text, p, chain)

    def source(self, text, p, chain=()):
        lines = [(i + 1, ln) for i, ln in enumerate(rust_lines(text)) if is_rule(ln)]
        errs = [("parse", p, i, ln) for i, ln in lines if ln in self.bad]
        if errs:
            return [], errs
        rules = []
        for i, ln in lines:
            t = include_target(ln)
            if t is None:
                rules.append(Rule(p, i, ln))
            elif is_dic(t):
                d = find_file(self.vfs, self.dirs, t)
                if d is None:
                    errs.append(("nodic", t))
                else:
                    rules.append(Rule(p, i, ln, d))
            else:
                r, e = self.table(t, chain)
                rules += r
                errs += e
        return ([], errs) if errs else (rules, [])

    def tables(self, fs):
        """several tables loaded together: concatenated, the first failing one reported"""
        rules = []
        for f in fs:
            r, e = self.table(f)
            if e:
                return [], e
            rules += r
        return rules, []


def display(p):
    """Display formatting of a path"""
    return tobytes(p).decode("utf-8", "replace")


def rust_debug_str(s):
    """Debug formatting of a string or of a path"""
    o = ['"']
    for c in s:
        e = {"\\": "\\\\", '"': '\\"', "\n": "\\n", "\r": "\\r", "\t": "\\t", "\0": "\\0"}.get(c)
        if "\udc80" <= c <= "\udcff":
            e = "\\x%02X" % (ord(c) - 0xdc00)
        elif e is None and not " " <= c <= "~" and unicodedata.category(c) in UNPRINTABLE:
            e = "\\u{%x}" % ord(c)
        o.append(e or c)
    return "".join(o) + '"'


UNPRINTABLE = {"Cc", "Cf", "Cs", "Co", "Cn", "Zl", "Zp", "Zs", "Mn", "Me"}
