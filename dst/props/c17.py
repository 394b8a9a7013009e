import posixpath
import re

from dst import gen, work
from dst.core import PLAIN, Check, Violation, world
from dst.sim import forced_from

BIG = dict(PLAIN, maxticks=4_000_000_000)
LOG = re.compile(rb"(\x1b\[[0-9;]*m)*\[(\x1b\[[0-9;]*m)*(\S+Z)?\s*(\x1b\[[0-9;]*m)*\s*(TRACE|DEBUG|INFO|WARN|ERROR)\b.*")
MISSING = re.compile(r"\d+ (?:open|stat|realpath|access|readlink) /.* !2 (/.*)$")
CHOICES = {"RUST_LOG": ["trace", "debug", "info", "warn", "error", "off", "louis=debug", "louis::translator=trace", "warn,louis=info", ""],
           "RUST_LOG_STYLE": ["auto", "always", "never"], "RUST_BACKTRACE": ["0", "1", "full"], "LANG": ["C", "de_DE.UTF-8", "tr_TR.UTF-8", "ja_JP.eucJP", ""],
           "LC_ALL": ["C", "C.UTF-8", "tr_TR", "ar_EG.UTF-8"], "LC_CTYPE": ["C", "UTF-8"], "LANGUAGE": ["de:fr"], "TZ": ["UTC", "Asia/Tokyo", ":bad"],
           "HOME": ["/home/u", "/nowhere", "", "/w"], "TERM": ["xterm-256color", "dumb", ""], "COLUMNS": ["20", "80", "0", "x"], "LINES": ["3"],
           "NO_COLOR": ["1", ""], "CLICOLOR": ["1", "0"], "CLICOLOR_FORCE": ["1"], "FORCE_COLOR": ["1"], "COLORTERM": ["truecolor"],
           "USER": ["root", "u"], "PWD": ["/", "/w", "/elsewhere"], "OLDPWD": ["/t"], "TMPDIR": ["/tmp", "/w"], "PATH": ["/bin", ""],
           "XDG_CONFIG_HOME": ["/home/u/.config"], "XDG_DATA_HOME": ["/t"], "XDG_DATA_DIRS": ["/t:/w/t"], "RUST_MIN_STACK": ["4000000"],
           "LOUIS_TABLEPATH": ["/t", "/t/sub"], "LIBLOUIS_TABLEPATH": ["/t"], "LOUIS_LOG": ["debug"], "LOUIS_DEBUG": ["1"], "DEBUG": ["1"], "CI": ["true"],
           "RAYON_NUM_THREADS": ["1", "2", "5"], "RAYON_RS_NUM_CPUS": ["2"], "PAGER": ["less"], "EDITOR": ["vi"], "SHELL": ["/bin/sh"],
           "LC_COLLATE": ["sv_SE.UTF-8"], "LC_NUMERIC": ["de_DE.UTF-8"], "POSIXLY_CORRECT": ["1"], "SOURCE_DATE_EPOCH": ["0"]}
TABLE = "space \\s 0\nletter a 123456\nalways b 123456\n"
CONFIG = [".louisrc", ".louis.toml", "louis.toml", ".config/louis/config.toml", ".config/louis.toml", ".env"]


def in_vain(case, rep, words):
    """absolute names outside of the working directory and the search path that were looked for and are not there"""
    dirs = [case["cwd"]] + [d for d in case["env"].get("LOUIS_TABLE_PATH", "").split(":") if d]
    dirs = [d if d.startswith("/") else case["cwd"] + "/" + d for d in dirs] + ["/proc", "/sys", "/dev"]
    texts = [c if isinstance(c, str) else c[0] for c in case["fs"]["files"].values()] + words + list(case["fs"]["links"].values())
    texts = [t if isinstance(t, str) else t.decode("utf-8", "replace") for t in texts]
    plain = not case["fs"]["links"] and not any(".." in d for d in dirs)
    o = set()
    for x in rep.log.split("\n"):
        m = MISSING.match(x)
        if m:
            p = posixpath.normpath(m.group(1))
            name = p.rsplit("/", 1)[-1]
            if not name or any(p.startswith(d.rstrip("/") + "/") or d.startswith(p) for d in dirs):
                continue
            if not any(name in t for t in texts) or plain and not any(re.search(r"/[^\s]*" + re.escape(name), t) for t in texts):
                o.add(p)
    return sorted(o)[:20]


def put(case, fs, p, content, words):
    """put something there: a setting or, if content is "dir", a directory of tables or a table"""
    if any(q.startswith(p + "/") or p.startswith(q + "/") for q in fs["files"]):
        return
    names = {q.rsplit("/", 1)[-1] for q in case["fs"]["files"]} | {"missing.utb"} | set(case.get("gone", [])) | {w for w in words if re.fullmatch(r"[\w.]+", w)}
    fs.setdefault("dirs", {}).setdefault("/opt/louis/bin", 0o755)
    if content != "dir":
        fs["files"][p] = content
    elif p.rsplit("/", 1)[-1] in names:
        fs["files"][p] = TABLE
    else:
        for n in sorted(names):
            fs["files"][p + "/" + n] = TABLE


class C(Check):
    id = "C17"
    title = "Logging, locale, terminal and other settings do not change results"
    quick_n = 14000
    thorough_n = 500000
    rule = ("random commands over random worlds, each run in a bare environment and in random ones (log levels and styles, locale, time zone, terminals of any width behind the standard descriptors, home, "
            "temporary and data directories with tables and settings in them, dates, processors); standard output and exit status must agree byte for byte, "
            "and standard error must agree once log lines are removed; non-trivial: at least two settings differ")
    shrink = [("fs", "files"), ("fs", "links"), ("fs", "dirs"), ("fs", "files", "*"), ("argv",), ("stdin",), ("extra",), ("cfg", "*")]

    def gen(self, r, i):
        c = work.world_of(r)
        c["argv"], c["stdin"] = work.command(r, c)
        c["cfg"] = gen.cfg(r, True)
        c["cfg"].pop("eintr", None)
        c["cfg"]["maxticks"] = 4_000_000_000
        n = r.choice([2, 4, 8, len(CHOICES)])
        c["extra"] = [[k, r.choice(CHOICES[k])] for k in sorted(r.sample(sorted(CHOICES), n) + (["RUST_LOG"] if r.random() < 0.5 else []))]
        if r.random() < 0.4:
            c["cfg"]["anyenv"] = r.getrandbits(30)
        if r.random() < 0.6:
            # files that the command looks for in vain
            c["fill"] = r.choice(["dir", "dir", "dir", "dir", "/t\n", "/t", "/elsewhere\n", "/home/u", "/t:/elsewhere\n", "LOUIS_TABLE_PATH=/t\n", "table_path = \"/t\"\n", "{}", "debug\n", "\n", "1\n", "letter a 123456\n"])
            if c["fill"] == "dir" and len(c["fs"]["files"]) > 1 and r.random() < 0.5:
                # with tables that are nowhere else
                c["gone"] = [r.choice([p for p in sorted(c["fs"]["files"]) if p.rsplit("/", 1)[-1] in " ".join(c["argv"])] or sorted(c["fs"]["files"]))]
                c["gone"] = sorted({p.rsplit("/", 1)[-1] for p in c["gone"]})
                c["fs"]["files"] = {p: x for p, x in c["fs"]["files"].items() if p.rsplit("/", 1)[-1] not in c["gone"]}
            if c["fill"].startswith("/") and len(c["fs"]["files"]) > 1 and r.random() < 0.5:
                # with tables that are only there
                d = c["fill"].strip().split(":")[0]
                c["fs"]["dirs"].setdefault(d, 0o755)
                for p in r.sample(sorted(c["fs"]["files"]), r.randint(1, 2)):
                    if not p.startswith(d + "/"):
                        c["fs"]["files"].setdefault(d + "/" + p.rsplit("/", 1)[-1], c["fs"]["files"].pop(p))
        if r.random() < 0.6:
            c["cfg"]["tty"] = r.choice([1, 2, 4, 3, 6, 7, 7]) + 8 * r.choice([0, 1, 20, 80, 80, 300])
        if r.random() < 0.5:
            # directories that such settings point to, with tables of their own
            used = set(c["env"].get("LOUIS_TABLE_PATH", "/w").split(":"))
            for d in ["/home/u", "/home/u/.config", "/tmp", "/usr/share/liblouis/tables", "/t", "/elsewhere"] + [
                    d + r.choice(["/liblouis/tables", "/louis/tables", "/louis", "/liblouis", "/tables"])
                    for d in r.sample(["/t", "/w/t", "/home/u", "/home/u/.config", "/home/u/.local/share", "/tmp", "/home/u/.cache"], 3)]:
                if not any(u == d or u.startswith(d + "/") or d.startswith(u.rstrip("/") + "/") for u in used) and d not in c["fs"]["links"].values():
                    c["fs"]["dirs"].setdefault(d, 0o755)
                    for n in r.sample(sorted({p.rsplit("/", 1)[-1] for p in c["fs"]["files"]}) + ["missing.utb"], 1):
                        c["fs"]["files"].setdefault(d + "/" + n, "\n".join(gen.table_lines(r, 3)) + "\n")
            if r.random() < 0.3 and "/home/u" in c["fs"]["dirs"]:
                # names that only a shell would replace
                d = r.choice(["~", "~/t", "$HOME", "$HOME/t", "${HOME}/t"])
                ds = c["env"].get("LOUIS_TABLE_PATH", ".").split(":")
                c["env"]["LOUIS_TABLE_PATH"] = ":".join([d] + ds if r.random() < 0.7 else ds + [d])
                at = "/home/u" + d[d.find("/"):] if "/" in d else "/home/u"
                c["fs"]["dirs"].setdefault(at, 0o755)
                for n in r.sample(sorted({p.rsplit("/", 1)[-1] for p in c["fs"]["files"]}) + ["missing.utb"], 2)[:2]:
                    c["fs"]["files"].setdefault(at + "/" + n, "\n".join(gen.table_lines(r, 3)) + "\n")
                c["extra"] = [x for x in c["extra"] if x[0] != "HOME"] + [["HOME", "/home/u"]]
            for n in r.sample(CONFIG, 2):
                c["fs"]["files"].setdefault("/home/u/" + n, r.choice(["LOUIS_TABLE_PATH=/t\n", "table_path = \"/t\"\n", "RUST_LOG=trace\n"]))
        return c

    def judge(self, case, ctx):
        if len(case["argv"]) < 2 and case["argv"] != ["parse"]:
            return None
        stdin = case["stdin"].encode()
        env = {k: v for k, v in case["env"].items() if k != "RAYON_NUM_THREADS"}
        ref = ctx.run(world(dict(case, env=env), BIG, "cli", case["argv"], stdin=stdin))
        extra = {k: v for k, v in case["extra"]}
        rep = ctx.run(world(dict(case, env=dict(env, **extra)), case["cfg"], "cli", case["argv"], stdin=stdin), log=True, det=getattr(ctx, "det_now", False))
        asked = sorted({x[7:] for x in rep.log.split("\n") if x.startswith("getenv ")})
        for x in asked:
            ctx.probe("variable " + x)
        if case.get("fill"):
            found = in_vain(case, rep, case["argv"] + [case["stdin"]])
            if found:
                ctx.probe("files_filled", len(found))
                fs = dict(case["fs"], files=dict(case["fs"]["files"]), dirs=dict(case["fs"]["dirs"]))
                for p in found:
                    put(case, fs, p, case["fill"], [w for a in case["argv"] for w in a.split(",")])
                rep = ctx.run(world(dict(case, fs=fs, env=dict(env, **extra)), case["cfg"], "cli", case["argv"], stdin=stdin))
                extra = dict(extra, **{"file " + p: case["fill"] for p in found})
        if asked:
            extra["asked for"] = ", ".join(asked)
        at = (["cfg"], forced_from(rep))
        if ref.outcome() != rep.outcome():
            return Violation("status", "louis %r ends with %s in a bare environment and with %s under %r" % (case["argv"], ref.outcome(), rep.outcome(), extra), *at)
        if ref.stdout != rep.stdout:
            a, b = ref.stdout.decode("utf-8", "replace").split("\n"), rep.stdout.decode("utf-8", "replace").split("\n")
            j = next((j for j, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            return Violation("output", "louis %r prints %r in a bare environment and %r under %r" % (case["argv"], a[j:j + 1], b[j:j + 1], extra), *at)
        if ref.outcome() != "exit:0":
            return None
        lines = rep.stderr.split(b"\n")
        rest = [x for x in lines if not LOG.match(x)]
        if len(rest) != len(lines):
            ctx.probe("log_lines", len(lines) - len(rest))
            if not extra.get("RUST_LOG"):
                return Violation("chatter", "louis %r logs %r without being asked to" % (case["argv"], rep.stderr[:300]), *at)
        if rest != [x for x in ref.stderr.split(b"\n") if not LOG.match(x)]:
            return Violation("errors", "louis %r reports %r in a bare environment and %r under %r" % (
                case["argv"], ref.stderr[:300].decode("utf-8", "replace"), b"\n".join(rest)[:300].decode("utf-8", "replace"), extra), *at)
        ctx.probe("with_errors" if ref.stderr else "without_errors")
        return None

    def nontrivial(self, case):
        return len(case["extra"]) > 1


CHECK = C()
