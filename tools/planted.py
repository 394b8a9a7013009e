"""Writes the list of planted bugs into DESIGN.md, between its two marker lines."""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# missed when they were first planted; what was added to the simulation or its generators so that they are found
STRONGER = {
    "c01-swap-first": "swap rules of every kind with repeated members",
    "c04-eof-include": "several chains beyond the depth limit below one table",
    "c14-hidden": "names of backup, hidden and other odd files",
    "c05-lexical": "names with dots behind links to directories",
    "c14-nested-root": "directories of the same name, one in the other",
    "c16-spin": "failures that come and go and files that change for ever",
    "c17-exe-dir": "a place where the program is installed, and directories of tables put where they are looked for in vain",
    "c17-etc": "files that a command looks for in vain are put there, with random content",
    "c01-parallel-passes": "tables with rules of several passes that feed each other",
    "c06-empty-file": "empty and almost empty files",
    "c08-trylock": "every atomic operation is a scheduling point (policy 4)",
    "c11-long-line": "lines around powers of two up to 64 KiB",
    "c11-recursive": "sessions of up to 70000 lines on a small stack",
    "c14-links": "links between tables of one directory",
    "c15-newline-argument": "arguments with line feeds",
    "c16-steal-lock": "suites of many small test files for several workers",
}
try:
    STRONGER.update(json.load(open(os.path.join(ROOT, "seeded", "stronger.json"))))
except OSError:
    pass


def main():
    rows = []
    for p in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
        n = os.path.basename(os.path.dirname(p))
        m = json.load(open(p))
        rows.append("| %s | %s | %s%s |" % (n, m["property"], m["needs"].replace("|", "\\|"),
                                           " (missed at first: %s)" % STRONGER[n] if n in STRONGER else ""))
    d = os.path.join(ROOT, "DESIGN.md")
    s = open(d).read()
    a, b = s.index("<!-- planted -->\n") + len("<!-- planted -->\n"), s.index("<!-- /planted -->")
    s = s[:a] + "\n| change | caught by the quick check of | needs |\n|---|---|---|\n" + "\n".join(rows) + "\n\n" + s[b:]
    open(d, "w").write(s)
    print(len(rows), "planted bugs")


main()
