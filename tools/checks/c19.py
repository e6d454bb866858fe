import re

GEN = """SPECIFICATION Spec
CONSTANTS Mode = "%s" MaxLen = %d Chars = {91, 93, 61, 59, 32, 97, 10}
INVARIANTS Incremental LineEnds Clean
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""


def text(rng):
    ws = ["", "", " ", "\t", "  ", "\v", "\f", "\r", "\u00a0", "\u3000", "\u2003", "\u0085", "\u1680", "\u2028", "\u202f", "\u205f"]
    names = ["a", "b", "zz", "A", "key", "k e y", "a;b", "[x]", "x]", "[x", "日本", "é", "a=b", "", " a", "#", "0", "k" * 300, "\ufeffk", "\u200bk", "k\u200b", "\0k", "\u180ea", "\ufffda", X % 0xff + "a", "a" + X % 0x85, X % 0xa0 + "b", "a\rb", "a\u00a0b"]
    vals = ["", "1", "a b", "x=y", "=", "==", ";c", "v ;c", "[v]", "\"q\"", "日本 語", "v" * 5000, "#", "\\n", "a\tb", "\ufeff", "\u200b1", "1\0", "v" + X % 0x85, X % 0xa0, X % 0xff + " x"]

    def w():
        return rng.choice(ws)
    out = []
    for _ in range(rng.choice([1, 3, 8, 20, 60])):
        r = rng.random()
        if r < 0.25:
            out.append(w() + "[" + rng.choice(["a", "b", "zz", " a ", "", "A", "日本", "a]b", "a[b", "\ufeff", "a" + X % 0x85, "\u200b", rng.choice(names)]) + "]" + w() + rng.choice(["", "", "", ";c", "x"]))
        elif r < 0.8:
            out.append(w() + rng.choice(names) + w() + rng.choice(["=", "=", "=", "==", "", ":"]) + w() + rng.choice(vals) + w())
        elif r < 0.9:
            out.append(w() + ";" + rng.choice(["", "[a]", "a=b", " x"]))
        else:
            out.append(w() + w())
    s = ""
    nl = rng.choice(["\n", "\n", "\r\n", "mix"])
    for i, x in enumerate(out):
        s += x + (rng.choice(["\n", "\r\n", "\n\n", "\n\r"]) if nl == "mix" else nl)
    if rng.random() < 0.4:
        s = s.rstrip("\n")
    if rng.random() < 0.1:
        s = rng.choice(["\ufeff", "\u200b", X % 0xff, "\0"]) + s
    return s


# a byte that is not UTF-8 is written ESC and two hexadecimal digits in the texts here; its code is 0x110000 + byte
X = "\x1b%02x"


def codes(s):
    return [0x110000 + int(x[1:], 16) if x[0] == "\x1b" else ord(x) for x in re.findall("\x1b..|.", s, re.S)]


def run(ctx):
    rng = ctx.rng
    b = ctx.build("gxverif/c19")
    n = ctx.pick(5, 6)
    scripts = ctx.gen("IniGen", GEN % ("chars", n), "every text of up to %d characters over 7" % n, prune=False, limit=ctx.pick(12000, None))
    k = ctx.pick(3, 4)
    scripts += ctx.gen("IniGen", GEN % ("lines", k), "every sequence of %d representative lines" % k, prune=False, limit=ctx.pick(9300, 80000))
    scripts += [[["ini", codes(text(rng))]] for _ in range(ctx.pick(1500, 15000))]
    long = [ord(c) for c in "[a]\n" + "k" * 4090 + "=" + "v" * 70000 + "\nb=1\n[b]\r\n" + " " * 5000 + "c = 2"]
    scripts += [[["ini", long, h]] for h in range(5)]
    many = ["[s%d]\n" % (i % 700) + "k%d=%d\n" % (i % 13, i) for i in range(1500)] + ["[w]\n"] + ["key%d = v%d\n" % (i % 1100, i) for i in range(2300)]
    scripts += [[["ini", [ord(c) for c in "".join(many)], h]] for h in (0, 3)]
    scripts += [[["none"]], [["ini", []]]]
    ctx.check("IniTrace", b, scripts, "", "texts loaded by the real reader", together=400)
    ctx.extra["bounds"] = "texts of up to %d characters over [ ] = ; space a newline, sequences of %d of 21 representative lines (LineEnds etc. checked on all of them in the model); seeded texts with Unicode blanks, long lines, all line ends, 5 ways of reading" % (n, k)
