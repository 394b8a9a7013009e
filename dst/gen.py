"""Workload generators: tables, inputs, file trees. Every choice comes from the case's PRNG."""

LOWER = "abcde"
UPPER = "ABCDE"
DIGIT = "123"
PUNCT = ".,-"
EXTRA = ["é", "ß", "ύ", "ij", "Σ"]
CELLS = ["1", "2", "3", "12", "13", "14", "23", "45", "46", "56", "123", "145", "1245", "2346", "3456", "12456",
         "6", "5", "4", "36", "35", "256", "1-2", "56-23", "5-13", "4-6", "78", "127", "0"]
SINGLE = [c for c in CELLS if "-" not in c]
CLASSES = ["letter", "digit", "space", "punctuation", "uppercase", "lowercase", "sign", "math"]
EMPH = ["italic", "bold", "underline", "trans1", "script"]


def dots(r):
    return r.choice(CELLS)


def letters(r, lo=1, hi=3, alpha=LOWER):
    return "".join(r.choice(alpha) for _ in range(r.randint(lo, hi)))


def escaped(r, s):
    """the same characters, written differently"""
    if r.random() < 0.94:
        return s
    i = r.randrange(len(s))
    return s[:i] + r.choice(["\\x%04x", "\\x%04X", "\\y%05x"]) % ord(s[i]) + s[i + 1:]


def direction(r):
    return r.choice(["", "", "", "noback ", "nofor "])


def with_classes(r, named):
    if r.random() < 0.6:
        return ""
    return "".join("%s %s " % (r.choice(["before", "after"]), r.choice(CLASSES + named)) for _ in range(r.randint(1, 2)))


def base_rules(r, used_extra=()):
    """character definitions for the alphabet; a table that contains them compiles"""
    o = ["space \\s 0"]
    pool = list(SINGLE[:-3])
    r.shuffle(pool)
    for i, c in enumerate(LOWER):
        o.append("%s %s %s" % (r.choice(["lowercase", "letter", "lowercase"]), c, pool[i]))
    kind = r.random()
    for i, c in enumerate(UPPER):
        if kind < 0.6:
            o.append("base uppercase %s %s" % (c, LOWER[i]))
        else:
            o.append("uppercase %s %s" % (c, pool[i]))
    for i, c in enumerate(DIGIT):
        o.append("%s %s %s" % (r.choice(["digit", "digit", "litdigit"]), c, pool[5 + i]))
    for i, c in enumerate(PUNCT):
        op = "hyphen" if c == "-" else r.choice(["punctuation", "sign", "math"])
        o.append("%s %s %s" % (op, c, pool[9 + i]))
    for c in EXTRA:
        if r.random() < 0.4:
            for ch in c:
                o.append("%s %s %s" % (r.choice(["letter", "sign", "lowercase"]), ch, dots(r)))
    return o


def mtest(r, named):
    k = r.randint(0, 7)
    if k == 7:
        # nothing is consumed
        return r.choice(['[]', '`[]', '[]~', '"%s"[]', '[]"%s"', '@1[]', '[]@2', '[]$l', '$l[]', '$s[]']).replace("%s", letters(r, 1, 1))
    if k == 0:
        return '"%s"' % letters(r, 1, 2)
    if k == 1:
        return "@%s" % r.choice(SINGLE[:-1])
    if k == 2:
        return '["%s"]"%s"' % (letters(r, 1, 2), letters(r, 1, 1))
    if k == 3:
        return '["%s"]' % letters(r, 1, 3)
    if k == 4:
        return "[@%s]@%s" % (r.choice(SINGLE[:-1]), r.choice(SINGLE[:-1]))
    if k == 5:
        return r.choice(['$l["%s"]', '$d["%s"]', '`["%s"]', '["%s"]$l', '["%s"]~', '$s["%s"]']) % letters(r, 1, 2)
    return '[%%%s]' % r.choice(named) if named else '["%s"]' % letters(r, 1, 2)


def rule(r, named=()):
    """one random rule; named = class names defined elsewhere in the same table"""
    named = list(named)
    k = r.random()
    if k < 0.34:
        op = r.choice(["always", "always", "word", "sufword", "prfword", "begword", "begmidword", "midword", "midendword",
                       "endword", "partword"])
        d = "=" if r.random() < 0.15 else dots(r)
        cross = "nocross " if r.random() < 0.1 and op != "word" else ""
        return "%s%s%s%s %s %s" % (direction(r), cross, with_classes(r, named), op, escaped(r, letters(r)), d)
    if k < 0.42:
        op = r.choice(["prepunc", "postpunc", "begnum", "midnum", "joinnum", "endnum"])
        ch = letters(r, 1, 2, LOWER + PUNCT if op[0] != "p" else PUNCT)
        return "%s%s %s %s" % (direction(r), op, ch, dots(r))
    if k < 0.50:
        op = r.choice(["repeated", "repword", "largesign", "joinword", "lowword", "syllable", "comp6"])
        return "%s %s %s" % (op, letters(r), dots(r))
    if k < 0.55:
        return r.choice(["contraction %s", "compbrl %s", "nocont %s", "literal %s", "replace %s x"]) % letters(r, 1, 3)
    if k < 0.67:
        return r.choice([
            "capsletter %s", "begcapsword %s", "endcapsword %s", "begcaps %s", "endcaps %s", "begcapsphrase %s",
            "endcapsphrase before %s", "endcapsphrase after %s", "letsign %s", "numsign %s", "nonumsign %s",
            "nocontractsign %s", "begcomp %s", "endcomp %s", "undefined %s"]) % dots(r)
    if k < 0.72:
        return r.choice(["capsmodechars %s", "noletsign %s", "noletsignbefore %s", "noletsignafter %s",
                         "numericnocontchars %s", "numericmodechars %s", "midendnumericmodechars %s", "seqdelimiter %s",
                         "seqbeforechars %s", "seqafterchars %s"]) % letters(r, 1, 3, LOWER + PUNCT + DIGIT)
    if k < 0.74:
        return "lencapsphrase %d" % r.randint(1, 4)
    if k < 0.84:
        e = r.choice(EMPH)
        d = dots(r)
        return r.choice(["begemph {e} {d}", "endemph {e} {d}", "emphletter {e} {d}", "begemphword {e} {d}",
                         "endemphword {e} {d}", "begemphphrase {e} {d}", "endemphphrase {e} before {d}",
                         "endemphphrase {e} after {d}", "lenemphphrase {e} 2", "noemphchars {e} {c}",
                         "emphmodechars {e} {c}", "emphclass {e}"]).format(e=e, d=d, c=letters(r, 1, 2, LOWER + PUNCT))
    if k < 0.87:
        return "attribute %s %s" % (r.choice(named or ["acc"]), letters(r, 1, 3, LOWER + UPPER + PUNCT))
    if k < 0.93:
        op = r.choice(["context", "context", "pass2", "pass3", "pass4", "correct"])
        if op == "correct":
            t, a = '"%s"' % letters(r, 1, 2), r.choice(['"%s"' % letters(r, 1, 2), "?", "*"])
            if a == "*":
                t = "[%s]" % t
        else:
            t = mtest(r, named)
            a = r.choice(["@%s" % r.choice(SINGLE[:-1]), "@%s" % r.choice(CELLS[:-1]), "*" if "[" in t else "?", "?"])
        return "%s%s %s %s" % (r.choice(["noback ", "nofor ", "noback "]), op, t, a)
    if k < 0.96:
        return "%smatch %s %s %s %s" % (r.choice(["", "noback ", "nofor "]), r.choice(["-", "%a", "%[^_]", "a", "%#", "[ab]"]),
                                        letters(r, 1, 2), r.choice(["-", "%a", "%[_$]", "b", "%^", "[cd]"]), dots(r))
    if k < 0.98:
        return "multind %s %s %s" % (dots(r), "letsign", "capsletter")
    return "display %s %s" % (r.choice(LOWER + UPPER), r.choice(SINGLE))


BAD_LINES = ["bogus a 1", "always", "always a", "letter ab 1", "letter a 9", "include", "swapcd x ab 1", "class",
             "lencapsphrase x", "endcapsphrase 1", "nofor numsign 3456", "context \"a 1", "context", "match", "match % a b 1",
             "space \\q 0", "begemph it-alic 1", "noback undefined 1", "rependword a 1", "\u00a0always a 1",
             "pass2 @1", "uplow Aa 1", "always a\\x 1", "display ab 1", "display a 1-2"]


def named_classes(r):
    names = r.sample(["vowel", "cons", "q1", "acc"], r.randint(0, 3))
    return names, ["%s %s %s" % (r.choice(["attribute", "attribute", "class"]), n, letters(r, 1, 3, LOWER + UPPER)) for n in names]


def conflict_rules(r):
    """rules of equal weight that compete for the same text"""
    t = letters(r, 1, 3)
    ops = ["begword", "begmidword", "midword", "midendword", "endword", "partword", "prfword", "sufword", "word",
           "always", "prepunc", "postpunc", "begnum", "midnum", "endnum", "joinnum"]
    o = []
    for _ in range(r.randint(2, 5)):
        op = r.choice(ops)
        wc = "" if op.endswith("punc") or op.endswith("num") else r.choice(["", "", "before letter ", "after letter ", "before punctuation ",
                                                                           "before space ", "after space ", "before uppercase ",
                                                                           "after lowercase ", "before lowercase "])
        o.append("%s%s %s %s" % (wc, op, t, dots(r)))
    return o


def passes(r, d=None):
    """passes that work on what the pass before gives"""
    a, b, c, e = r.sample(SINGLE[:-1], 4)
    a = d or a
    o = ["noback correct \"%s\" \"%s\"" % (r.choice(LOWER), r.choice(LOWER))] if r.random() < 0.5 else []
    k = r.randint(2, 4)
    o += ["noback pass%d @%s @%s" % (k, a, b)]
    if k < 4:
        o += ["noback pass%d %s @%s" % (r.randint(k + 1, 4), r.choice(["@%s", "[@%s]"]) % b, c)]
    o += ["noback pass%d @%s %s" % (r.randint(2, 4), r.choice([b, c]), r.choice(["@" + e, "?"]))]
    if r.random() < 0.3:
        o += ["nofor pass%d @%s @%s" % (k, b, a), "nofor pass%d @%s @%s" % (r.randint(2, 4), c, b)]
    return o


def table_lines(r, n=None, base=True):
    names, o = named_classes(r)
    if base:
        o = base_rules(r) + o
    if r.random() < 0.12:
        cells = [x.split()[-1] for x in o if x.split()[0] in ("letter", "lowercase")]
        o += passes(r, r.choice(cells) if cells else None)
    n = r.randint(0, 25) if n is None else n
    for _ in range(n):
        k = r.random()
        if k < 0.11:
            o += conflict_rules(r)
        elif k < 0.13:
            o += swaps(r)
        elif k < 0.17:
            o.append(odd_rule(r, names))
        elif k < 0.18:
            o += variables(r)
        elif k < 0.181:
            o.append(r.choice(BROKEN))
        else:
            o.append(rule(r, names))
    return o


def swaps(r):
    """classes of characters or cells that are exchanged one by one, and the rules that do it"""
    k = r.random()
    n = r.choice(["sw", "sx", "sy"])
    q = r.choice(["", "", ".", "2", "1-3"])
    if k < 0.6:
        # a character may be listed twice
        cs = "".join(r.choice(LOWER + UPPER) for _ in range(r.randint(1, 6)))
        o = ["swapcd %s %s %s" % (n, cs, ",".join(r.choice(CELLS) for _ in cs))]
        op = "context"
    elif k < 0.8:
        cs = "".join(r.choice(LOWER + UPPER) for _ in range(r.randint(1, 5)))
        o = ["swapcc %s %s %s" % (n, cs, "".join(r.choice(LOWER) for _ in cs))]
        op = r.choice(["correct", "correct", "context"])
    else:
        cs = [r.choice(SINGLE[:-1]) for _ in range(r.randint(1, 5))]
        o = ["swapdd %s %s %s" % (n, ",".join(cs), ",".join(r.choice(CELLS) for _ in cs))]
        op = r.choice(["pass2", "pass3", "pass4"])
    for _ in range(r.randint(1, 2)):
        o.append("%s%s %s %%%s" % (r.choice(["noback ", "noback ", "noback ", "nofor "]), op,
                                   r.choice(["%%%s%s", "[%%%s%s]", "[%%%s%s]", "$l[%%%s%s]", "[%%%s%s]$l", "`[%%%s%s]", "[%%%s%s]~"]) % (n, q), n))
    return o


ATTRS = "adlmpSsUu"


def odd_tests(r, named):
    """parts of multipass rules that the others have not"""
    a = "".join(r.sample(ATTRS, r.randint(1, 4)))
    c = letters(r, 1, 1)
    t = r.choice(["$%s[\"%s\"]", "[\"%s\"]$%s", "!$%s[\"%s\"]", "[\"%s\"]!$%s", "_1$%s[\"%s\"]", "_1\"%s\"[$%s]", "[$%s1-2]\"%s\"", "[$%s.]\"%s\"", "$%s2[\"%s\"]",
                  "!\"%s\"[$%s]", "_2\"%s\"$%s[]"])
    first = t.index("%s")
    return t % ((a, c) if t[first - 1] == "$" else (c, a))


def variables(r):
    """rules that wait for what other rules have set"""
    v = r.randint(1, 3)
    o = ["noback context \"%s\" @%s#%d=%d" % (letters(r, 1, 2), r.choice(SINGLE[:-1]), v, r.randint(0, 2)) for _ in range(r.randint(1, 3))]
    o += ["noback context %s@%s" % (r.choice(['#%d=%d"%s" ', '#%d=%d["%s"] ', '!#%d=%d["%s"] ']) % (v, r.randint(0, 2), letters(r, 1, 2)), r.choice(SINGLE[:-1]))
          for _ in range(r.randint(1, 3))]
    return o


# what only shows once the rules are put together
BROKEN = ["base uppercase Q q", "base lowercase \u4e80 \u4e81", "noback context [\"a\"] %none", "noback pass2 @1 %none", "always q\u4e82 ="]


def odd_rule(r, named):
    k = r.random()
    if k < 0.55:
        t = odd_tests(r, named)
        return "%s%s %s %s" % (r.choice(["noback ", "noback ", "nofor "]), r.choice(["context", "context", "correct", "pass2"]), t,
                               r.choice(["@%s" % r.choice(SINGLE[:-1]), "*", "?", "*@%s" % r.choice(SINGLE[:-1]), "@%s*" % r.choice(SINGLE[:-1]), "\"%s\"" % letters(r, 1, 1)]))
    if k < 0.6:
        return "match %s %s %s %s" % (r.choice(["%[lu#]", "!%a", "(ab|c)", "%[al]+", "%<*"]), letters(r, 1, 2), r.choice(["%[._^$]*", "!b", "(c|d)?", "%>+", "%[^]"]), dots(r))
    return r.choice(["grouping br () 123,145", "modeletter m %s", "begmodeword m %s", "begmodephrase m %s", "endmodephrase m before %s", "lenmodephrase m 2",
                     "seqafterpattern %s", "seqafterexpression %s", "decpoint . %s", "capsnocont", "exactdots %s", "rependword ab 12,1-2",
                     "endemphphrase italic before %s", "hyphen - %s", "decpoint , %s"]).replace("%s", dots(r))


def word(r):
    k = r.random()
    if k < 0.6:
        w = letters(r, 1, 6)
    elif k < 0.75:
        w = letters(r, 1, 4, UPPER)
    elif k < 0.85:
        w = letters(r, 1, 3, DIGIT + DIGIT + PUNCT)
    elif k < 0.95:
        w = letters(r, 1, 6, LOWER + UPPER + DIGIT + PUNCT)
    else:
        w = r.choice(DIGIT) + letters(r, 1, 2) + r.choice(["", r.choice(DIGIT)]) if r.random() < 0.4 else r.choice(EXTRA + ["x", "Zz", "\U0001F402", "a\u0301", "ŉ", "I", "iI", "ıſ"])
    if r.random() < 0.15:
        w = w[0].upper() + w[1:]
    if r.random() < 0.2:
        w += r.choice(PUNCT)
    return w


def text(r, lo=1, hi=5):
    return " ".join(word(r) for _ in range(r.randint(lo, hi)))


def long_text(r):
    """around the sizes where an implementation could start to work in pieces"""
    n = r.choice([130, 260, 300, 520, 700, 1030, 2060]) + r.randint(-6, 30)
    s = text(r, 40, 60)
    while len(s) < n:
        s += r.choice([" ", " ", ""]) + text(r, 40, 60)
    return s[:n].strip()


def braille(r, lo=1, hi=10):
    return "".join(r.choice("⠁⠂⠃⠄⠅⠆⠇⠈⠉⠊⠋⠌⠀⠠⠼⠰⠸⠘⠙⠚⠛⠜⠲⡀⣿") for _ in range(r.randint(lo, hi)))


def inputs(r, n, back=False):
    o = [(braille(r) if r.random() < 0.85 else text(r)) if back else text(r) for _ in range(n)]
    if r.random() < 0.1:
        o.append("")
    if r.random() < 0.08:
        o.append(text(r, 20, 40))
    if r.random() < 0.06:
        o.append(braille(r, 200, 1100) if back and r.random() < 0.8 else long_text(r))
    return o


def spans(r, s):
    n = len(s)
    if n == 0 or r.random() < 0.5:
        return []
    o = []
    for _ in range(r.randint(1, 3)):
        a = r.randint(0, n - 1)
        o.append([r.choice(EMPH), a, r.randint(a + 1, n)])
    return o


def modes(r):
    return 0 if r.random() < 0.6 else r.getrandbits(7)


def render(r, lines, eol=None, noise=True):
    """write lines as a file: comments, blank lines, line ends, trailing text"""
    eol = eol or r.choice(["\n", "\n", "\n", "\r\n"])
    o = []
    for ln in lines:
        if noise and r.random() < 0.15:
            o.append(r.choice(["", "# a comment", "  # indented", "   ", "#include nothing.utb", "\t"]) if r.random() < 0.9 else r.choice(
                # none of these ends a line
                ["# a\rbogus", "# a\u2028bogus b", "#\x0cbogus", "# \x0bbogus", "# \u0085bogus 1", "#\x1ebogus", "# \\", "#\r", "# a\0b", "\x0c", "\u00a0 ", "\u3000# x"]))
        if noise and r.random() < 0.1:
            ln = r.choice(["  ", "\t"]) + ln
        if noise and r.random() < 0.1 and not ln.strip().startswith(("replace", "multind")):
            ln += r.choice([" ", "   # trailing", "\ttrailing words"])
        o.append(ln)
    if noise and r.random() < 0.01:
        # what editors leave behind
        o[0] = "\ufeff" + o[0] if o else "\ufeff"
    if noise and r.random() < 0.04:
        # line ends of more than one kind
        s = "".join(x + r.choice(["\n", "\r\n"]) for x in o)
        return s if r.random() < 0.8 else s[:-1]
    s = eol.join(o)
    if r.random() < 0.8:
        s += eol
    return s


def nocross(r):
    """rules that a dictionary has a say in"""
    return "".join("nocross always %s %s\n" % (letters(r, 2, 3, LOWER[:r.choice([2, 3, 5])]), dots(r)) for _ in range(r.randint(1, 6)))


def dictionary(r):
    o = [r.choice(["UTF-8", "UTF-8", "utf-8"])]
    if r.random() < 0.03:
        o = ["ISO8859-1"]
    if r.random() < 0.03:
        o.append(r.choice(["LEFTHYPHENMIN x", "RIGHTHYPHENMIN", "abc", ".ab."]))
    if r.random() < 0.1:
        o += r.choice([["% a comment"], ["# ab1c"], [""], ["   "]])
    if r.random() < 0.4:
        # many patterns that compete for the same gaps
        for _ in range(r.randint(8, 30)):
            p = ""
            for c in letters(r, 1, 3, LOWER[:r.choice([2, 3, 5])]):
                p += r.choice(["", "", "1", "2", "3", "4"]) + c
            if not any(c.isdigit() for c in p):
                p += r.choice("123")
            o.append(r.choice(["", "", "."]) + p)
        return "\n".join(o) + "\n"
    if r.random() < 0.3:
        o.append("LEFTHYPHENMIN %d" % r.randint(1, 2))
    if r.random() < 0.3:
        o.append("RIGHTHYPHENMIN %d" % r.randint(1, 2))
    for _ in range(r.randint(1, 12)):
        w = letters(r, 2, 4)
        i = r.randint(0, len(w))
        p = w[:i] + str(r.choice([1, 1, 3, 2])) + w[i:]
        o.append(r.choice(["", ".", ""]) + p)
    return "\n".join(o) + "\n"


def policy(r):
    """a scheduling strategy"""
    k = r.random()
    if k < 0.12:
        return [0, 1, 0, 0]
    if k < 0.4:
        return [1, r.choice([3, 10]) if r.random() < 0.06 else r.choice([40, 200, 200, 1000, 1000, 5000]), 0, 0]
    if k < 0.75:
        return [2, 0, r.choice([1, 2, 3, 5, 8]), r.choice([2000, 20000, 100000])]
    if k < 0.88:
        return [3, r.choice([1, 3, 10, 10, 50, 50, 200]), 0, 0]
    # at atomic operations and system calls only
    return [4, r.choice([1, 2, 4, 8, 30]), 0, 0]


def cfg(r, threads=True):
    """benign nondeterminism of one run: none of it may be visible"""
    c = {"seed": r.getrandbits(32) or 1, "entropy": r.getrandbits(48), "dirseed": r.getrandbits(32), "ncpu": r.choice([1, 2, 3, 4, 8]),
         "clock": r.choice([0, 1_000_000_000, 1_700_000_000_000_000_000, 4_000_000_000_000_000_000])}
    if r.random() < 0.6:
        c["chunk"] = r.choice([1, 2, 3, 7, 16, 31, 100])
    if r.random() < 0.4:
        c["eintr"] = r.choice([20, 150, 400])
    if r.random() < 0.3:
        c["dtunknown"] = 1
    if r.random() < 0.2:
        c["nostatx"] = 1
    if r.random() < 0.2:
        c["urandom"] = 1
    if r.random() < 0.5:
        c["heapskew"] = r.getrandbits(40) or 1
    if r.random() < 0.3:
        c["jump"] = r.choice([100, 500, 900])
    if threads:
        c["policy"] = policy(r)
        c["schedseed"] = r.getrandbits(32)
        if r.random() < 0.3:
            c["spurious"] = r.choice([10, 100])
    return c
