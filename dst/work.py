"""Random invocations of the command line tool over a random world."""
from dst import gen, tree, yamlgen
from dst.props.c01 import tie_table


def world_of(r, errors=True, unique=False):
    """a world with tables, test files and metadata; returns case pieces"""
    if r.random() < 0.5:
        c = tree.tree(r, p_bad=r.choice([0, 0, 0.05]) if errors else 0, p_missing=r.choice([0, 0, 0.15]) if errors else 0,
                      p_cycle=r.choice([0, 0, 0, 0.1]) if errors else 0, nmax=4, unique=unique, p_links=0 if unique else 0.3)
    else:
        c = {"fs": {"files": {"/w/t.utb": gen.render(r, tie_table(r) if r.random() < 0.5 else gen.table_lines(r), noise=False)},
                    "dirs": {"/w": 0o755}, "links": {}}, "cwd": "/w", "env": {}, "tables": ["t.utb"]}
    return c


def yaml_files(r, c, n, errors=0.05):
    """test files that need no model: their expectations are literal"""
    names = sorted({p.rsplit("/", 1)[-1] for p in c["fs"]["files"]})
    o = []
    for k in range(n):
        d = yamlgen.doc(r, names, ["."], errors, small=n > 3)
        text = yamlgen.render(d, lambda i, j: yamlgen.Model.literal(d["sections"][i][1][j]))
        if r.random() < errors:
            text = yamlgen.damage(r, text)
        c["fs"]["files"]["/w/y%d.yaml" % k] = text
        o.append("y%d.yaml" % k)
    return o


def suite(r, c):
    """many small test files of several tests for several workers"""
    ys = []
    for k in range(r.choice([2, 3, 4, 6, 8, 12])):
        y = "table: |\n  space \\s 0\n  letter a 1\n  letter b %s\n" % gen.dots(r) if r.random() < 0.8 else "table: %s\n" % yamlgen.q(c["tables"][0])
        y += r.choice(["", "flags: {testmode: bothDirections}\n"]) + "tests:\n"
        for _ in range(r.choice([1, 2, 3, 4, 6, 12])):
            y += "  - [%s, %s]\n" % (gen.letters(r, 1, 4, "ab"), gen.braille(r, 1, 3))
        n = "s%d.yaml" % k
        c["fs"]["files"]["/w/" + n] = y
        ys.append(n)
    if r.random() < 0.15:
        ys.insert(r.randint(0, len(ys)), r.choice(["missing.yaml", r.choice(ys)]))
    c["env"]["RAYON_NUM_THREADS"] = str(r.choice([2, 3, 3, 4, 4, 5, 6, 8]))
    return ["check"] + r.choice([[], ["-s"]]) + ys, ""


def command(r, c):
    """-> (argv, stdin)"""
    t = c["tables"][0]
    k = r.random()
    back = ["-d", "backward"] if r.random() < 0.25 else []
    style = ["-s", r.choice(["blank", "table"])] if r.random() < 0.4 else []
    text = (gen.braille(r) if back and r.random() < 0.8 else gen.text(r) if r.random() < 0.95 else gen.long_text(r)) or "a"
    lines = "".join((gen.braille(r) if back else gen.text(r)) + "\n" for _ in range(r.choice([0, 1, 2, 4])))
    if k < 0.15:
        return ["translate"] + back + [t, "--", text], ""
    if k < 0.3:
        return ["trace"] + back + style + [t, "--", text], ""
    if k < 0.45:
        return ["parse", t], ""
    if k < 0.55:
        return ["translate"] + back + [t], lines
    if k < 0.62:
        return ["trace"] + back + style + [t], lines
    if k < 0.7:
        return ["parse"], "".join((gen.rule(r) if r.random() < 0.8 else r.choice(gen.BAD_LINES)) + "\n" for _ in range(r.randint(1, 4)))
    if k < 0.92:
        ys = yaml_files(r, c, r.choice([1, 2, 3, 6, 9]))
        if r.random() < 0.1:
            ys.append("missing.yaml")
        c["env"]["RAYON_NUM_THREADS"] = str(r.choice([1, 2, 3, 3, 4, 6]))
        return ["check"] + r.choice([[], [], ["-s"]]) + ys, ""
    many = r.random() < 0.2
    for j in range(r.randint(30, 70) if many else r.randint(1, 5)):
        own = "#+name:t%d\n#-author:x\n#+author:a%d\n#+index-name:table %d\n" % (j, j % 9, j) if many or r.random() < 0.3 else ""
        c["fs"]["files"]["/w/m%d.tbl" % j] = "#+language:en\n#+grade:%d\n%s" % (r.randint(1, 2), own)
    return ["query", r.choice(["language=en", "language=en,grade=1", "grade=2", "a=b", "name=t3", "author=a1"])], ""
