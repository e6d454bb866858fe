from fslib import *

GEN = "SPECIFICATION GenSpec\nCONSTANTS Nm2 = {%s} MaxDepth = %d MaxLen = %d MaxNodes = %d Links = %s Pick = %s\nINVARIANT Tree\nPROPERTY NoneLost\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n%s\n"


def when(rng):
    """seconds and nanoseconds: plain, fractions, before 1970 and far ahead"""
    s = rng.choice([rng.randrange(1, 2000000000), rng.randrange(1, 2000000000), rng.randrange(1, 2000000000), rng.randrange(1 << 31, 1 << 33), 0, -rng.randrange(1, 1 << 31), (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32])
    return [s, rng.choice([0, 1, 999, 1000, 123456789, 500000000, 999999999, rng.randrange(0, 10 ** 9)])]


def run(ctx):
    rng = ctx.rng
    b = ctx.build("gxverif/c29")
    contain(ctx)
    g = ctx.gen("FsTreeGen", GEN % ('"a","b"', 2, 99, 2, "FALSE", "FALSE", "VIEW View"), "every operation from every small tree", limit=ctx.pick(8000, 60000))
    g += ctx.gen("FsTreeGen", GEN % ('"a","b"', 2, 99, 2, "TRUE", "FALSE", "VIEW View"), "with links", limit=ctx.pick(8000, 60000))
    g += ctx.gen("FsTreeGen", GEN % ('"a","b","c"', 3, 30, 12, "TRUE", "TRUE", ""), "random histories", simulate=ctx.pick(300, 4000), depth=26)
    ps = [[x] for x in "ab"] + [[x, y] for x in "ab" for y in "ab"] + [["a", "b", "c"], ["c"], ["c", "a"]]
    sc = []
    for h in g:
        s = [[rng.choice(["do", "do/rel"]), o] for o in h]
        for _ in range(3 if len(h) < 8 else 10):
            s.append([rng.choice(["look", "look/rel"]), rng.choice(ps)])
        s.append([rng.choice(["times", "times/rel"]), rng.choice(ps)] + when(rng) + when(rng))
        for _ in range(1 if len(h) < 8 else 4):
            s.append([rng.choice(["own", "own/rel"]), rng.choice(ps), rng.random() < 0.5, rng.choice([-1, -1, NOBODY, NOBODY, 0]), rng.choice([-1, NOBODY, NOBODY - 1, NOBODY - 1, NOBODY - 1, 0])])
        s.append([rng.choice(["newfile", "newfile/rel"]), rng.choice(ps)])
        sc.append(s)
    sc.append([["sparse", [["a", [2047, 1048575]], ["b", [2048, 0]], ["c", [4096, 0]], ["d", [4096, 12345]], ["e", [0, 0]], ["f", [0, 77]], ["g", [1 << 19, 3]]], "ops"]])
    s = []
    for f in ("chmod", "chmoddir", "mkdir", "mkdirall", "openfile", "create"):           # mode bits and umasks
        for m in [0, 0o777, 0o7777, 0o1777, 0o2755, 0o4755, 0o6711, 0o644, 0o421, 0o700, 0o070, 0o007] + [1 << k for k in range(12)] + [rng.randrange(0o10000) for _ in range(ctx.pick(40, 400))]:
            for u in rng.sample([0, 0o022, 0o077, 0o002, 0o777, 0o027, rng.randrange(0o1000)], ctx.pick(3, 7)):
                s.append(["modes", f, m, u])
    sc += [s[i:i + 40] for i in range(0, len(s), 40)]
    if not ctx.check("FsTreeTrace", b, sc, "", "file operations"):
        return
    ctx.extra["bounds"] = "every operation from every tree of up to two nodes; opening with 15 sets of flags; all mode bits, umasks; seeded histories of 25 operations over depth 3; sizes up to 512 GB, times from 1901 to 2242 with nanoseconds"
    ctx.assumptions.append("one process works on the tree; the file system of the scratch directory follows POSIX")
