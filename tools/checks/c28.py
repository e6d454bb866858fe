import itertools
import os


def run(ctx):
    rng = ctx.rng
    ctx.design("PathsCheck", "SPECIFICATION Spec\nCONSTANT N = %d\nINVARIANTS Idem NoJunk Recompose Parts RelBack RelSelf JoinClean\nCHECK_DEADLOCK FALSE\n" % ctx.pick(5, 6), "path laws over all pairs of short paths", min_states=1000)
    b = ctx.build("gxverif/c28")
    enc = lambda s: list(s.encode("utf-8", "surrogateescape"))
    words = [bytes(w).decode() for n in range(0, ctx.pick(7, 9)) for w in itertools.product(b"/.a", repeat=n)]
    words += [bytes(w).decode() for n in range(1, ctx.pick(5, 6)) for w in itertools.product(b"/.ab\\", repeat=n)]
    pool = ["a", "b", "aa", "x.go", ".", "..", "...", "", "..a", "a..", ".hid", "a.tar.gz", "ü", "a b", "c:", "d\\e", "*", "\udcff\udcfe", "very-long-name-" * 5, "a:b", "."]

    def longp():
        p = "/".join(rng.choice(pool) for _ in range(rng.randrange(1, 9)))
        return rng.choice(["", "", "/", "//", "./", "../"]) + p + rng.choice(["", "", "/"])
    words += [longp() for _ in range(ctx.pick(800, 10000))]
    for n in (9, 16, 17, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 200, 256, 300):        # deep
        words += ["/".join("e%d" % i for i in range(n)), "/" + "/".join(rng.choice(pool) for _ in range(n)), "/".join(["a"] * n) + "/.." * rng.randrange(n), "../" * n + "x"]
    words += ["x" * n for n in (100, 255, 256, 1000)] + ["a." + "y" * 300, "/" + "z" * 300 + ".go"]
    sc = []

    def chunks(steps, pre=(), n=200):
        for i in range(0, len(steps), n):
            sc.append([["start"]] + list(pre) + steps[i:i + n])
    chunks([["one", enc(w)] for w in words])
    short = [bytes(w).decode() for n in range(0, 5) for w in itertools.product(b"/.a", repeat=n)]
    pairs = [(a, c) for a in short[:40] for c in short[:40]] + [(rng.choice(short), rng.choice(short)) for _ in range(ctx.pick(1500, 12000))]
    pairs += [(longp(), longp()) for _ in range(ctx.pick(800, 8000))]
    deep = [w for w in words if w.count("/") > 8]
    pairs += [(a, rng.choice(deep)) for a in deep[:80]] + [(a, "/".join(a.split("/")[:rng.randrange(1, 9)]) or "/") for a in deep[:80]]
    for _ in range(ctx.pick(500, 5000)):        # related ones
        p = longp()
        pairs += [(p + "/" + longp(), p), (p, p + "/" + longp()), (p + rng.choice(pool), p), (p, p)]
    chunks([["two", enc(a), enc(c)] for a, c in pairs] + [["none"]])
    pats = ["*", "?", "a*", "*a", "a/*", "*/a", "?a", "a?", "*.go", "a*b*", "**", "/*", "*/*", ".", "..", "a", "/"]
    chunks([["match", enc(p), enc(t)] for p in short[:121] + ["x.go", "aab", "ab/x.go", "abab"] for t in pats])
    dirs = ["d", "d/e", "d/e/f", "..", ".", "../..", "nope", "d/nope", "@", "@/d", "@/d/e", "@/d/../d", "e", "f", "./e/./", "d//e", "@/none"]
    for _ in range(ctx.pick(60, 600)):
        s = [["start"], ["mkdir", "d/e/f"]]
        for _ in range(rng.randrange(2, 12)):
            s.append(["chdir", rng.choice(dirs)])
            if rng.random() < 0.5:
                s.append(["one", enc(rng.choice(words))])
        sc.append(s + [["back"]])
    sc.append([["start"]] + [["line"] + x for x in (["far"], ["near"], ["method", 0], ["method", 1], ["method", 6], ["closure"], ["tiny"])])
    sizes = set()
    for k in range(0, 65):
        for d in (-2, -1, 0, 1, 2):
            sizes.add((1 << k) + d)
    for k in range(7):
        for m in (1, 2, 3, 500, 512, 999, 1000, 1001, 1023):
            for f in (0, 1, 2, 511, 512, 513, 1023):
                sizes.add((m << (10 * k)) + ((f << (10 * (k - 1))) if k else 0))
                sizes.add((m << (10 * k)) + ((f << (10 * (k - 1))) if k else 0) - 1)
        for m in (1, 7, 1022):      # half of a thousandth: 64 * odd / 128000 is never exact except at multiples of 1/8
            for e in (1, 3, 5, 7, 8, 9):
                if k:
                    sizes.add((m << (10 * k)) + (e << (10 * k)) // 16)
                    sizes.add((m << (10 * k)) + (e << (10 * k)) // 2000)
    for _ in range(ctx.pick(1500, 20000)):
        sizes.add(rng.getrandbits(rng.randrange(1, 65)))
    chunks([["size", str(v)] for v in sorted(sizes) if 0 <= v < 1 << 64])
    work = ctx.tmp("work")
    os.makedirs(work)
    ctx.cwd = work
    for gp in (ctx.gopath, ctx.gopath + ":/tmp/other", ctx.gopath + "/"):
        ctx.env = dict(GOPATH=gp)
        part = sc if gp == ctx.gopath else [s for s in sc if s[1][0] == "line"] + sc[:3]
        if not ctx.check("PathsTrace", b, part, "", "paths, positions and sizes"):
            return
    ctx.env = dict(GOPATH=ctx.gopath)
    pure = [s for s in sc if all(st[0] in ("start", "one", "two", "match", "size") for st in s)]
    pure = [s[:1] + s[1:][:40] for s in pure]
    if not ctx.together("PathsTrace", b, pure, "", "paths and sizes", sample=60):
        return
    ctx.extra["bounds"] = "all texts up to length %d over {/ . a}; the laws over all pairs of length %d" % (ctx.pick(6, 8), ctx.pick(5, 6))
