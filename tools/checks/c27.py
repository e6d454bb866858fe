GEN = "SPECIFICATION GenSpec\nCONSTANTS MaxLen = %d MaxRegs = 2\nINVARIANT Bounded\nPROPERTY Stable\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n%s\n"


def run(ctx):
    rng = ctx.rng
    ctx.instrument("regable")
    b = ctx.build("gxverif/c27")
    G = lambda x: ["val", x, "get"]
    S = lambda x, v: ["val", x, "set", v]
    N, M, T = ["val", 0, "name"], ["val", 0, "must"], ["val", 0, "str"]
    og, os_ = ["obj", 0, "get"], lambda v: ["obj", 0, "set", v]
    X = ["text", 0]
    progs = [[[G(0)], [S(0, "5")]], [[S(0, "5"), G(0)], [S(0, "6"), G(0)]], [[S(0, "5")], [S(0, "6")], [G(0), G(0)]], [[og], [S(0, "5")]], [[os_("5"), G(0)], [S(0, "6"), og]],
             [[T], [S(0, "5"), S(0, "6")]], [[X], [S(0, "5")]], [[X], [os_("5"), os_("7")]], [[N, M], [S(0, "9")]], [[S(0, "5"), G(1)], [S(1, "6"), G(0)]], [[T, og], [os_("4294967295"), M]],
             [[X, X], [S(0, "5")], [S(0, "6")]]]
    x, y = ctx.explore(b, [dict(progs=p, preempt=k, max=ctx.pick(800, 20000)) for p in progs for k in (1, 2, 99)], "concurrent reads and writes of registered values")
    if not ctx.validate("RegTableTrace", x, y, b, (), "", "values under controlled schedules"):
        return
    ctx.samples.append(dict(spec="RegTableTrace", script=y[0], history=x[0]))
    pb = ctx.build("gxverif/c27", gopath=ctx.plain("regable"))
    names = ["", "a", "size", "100%", "%s%d", "a|b", "same", "same", "x]: 3", "q ü"]
    vals = ["0", "1", "7", "65536", "2147483647", "2147483648", "4294967295"]

    def hist(n):
        s, k, o = [["start"], ["new", rng.choice(names)] + rng.choice([[], ["must"]])], 1, 0
        for _ in range(n):
            r = rng.random()
            g = rng.randrange(1, k + 1)
            if r < 0.1 and k < 4:
                s.append(["new", rng.choice(names)] + rng.choice([[], ["must"]]))
                k += 1
            elif r < 0.2:
                m = rng.choice([0, 1, 1, 2, 3, 4, 5, 100, 16777215, 16777216, 16777217, 2147483647])
                s.append(["max", g, str(m), m])
            elif r < 0.45:
                h = rng.choice(["reg", "must", "rego", "musto"])
                o += h in ("rego", "musto")
                s.append(["reg", h, g, rng.choice(names), rng.choice(vals)])
            elif r < 0.55:
                s.append(["obj", "o", g, rng.randrange(0, 5)])
                o += 1
            elif r < 0.75:
                f = rng.choice(["valid", "get", "must", "set", "set", "name", "str"])
                s.append(["id", f, rng.choice([g, g, g, g, k + 1, k + 2, 0]) if s else 0, rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 1024, 1025, 16777215]), rng.choice(vals)])
                if s[-1][2] == 0:
                    s[-1][2:4] = [100, rng.choice([0, 1, 16777215])]     # registry number 0 is never valid
            elif r < 0.9 and o:
                s.append(["use", rng.choice(["valid", "get", "must", "set", "set", "name", "str"]), rng.randrange(1, o + 1), rng.choice(vals)])
            elif r < 0.95:
                s.append(["text", g])
            elif r < 0.97:
                s.append(["ids", "i", rng.choice([g, 100, 355]), rng.choice([0, 1, 16777215, 65536])])
            else:
                s.append(["grid"])
        return s + [["grid"], ["text", 1], ["show"]]
    gen = ctx.gen("RegTableGen", GEN % (ctx.pick(5, 6), ""), "all short histories", limit=ctx.pick(4000, 40000))
    gen = [[["start"]] + [q for st in g for q in ([st, ["grid"]] if st[0] in ("max", "reg", "new") else [st])] + [["grid"]] for g in gen]
    gen += [hist(rng.randrange(5, 60)) for _ in range(ctx.pick(200, 3000))]
    traces, scripts, batch, n = [], [], [], 0

    def flush():
        t = ctx.drive(pb, batch)
        traces.extend(t)
        scripts.extend(batch[:len(t)])
        return len(t) == len(batch)
    for g in gen:           # at most 255 registries fit in a process
        k = sum(1 for st in g if st[0] == "new")
        if n + k > 250:
            if not flush():
                break
            batch, n = [], 0
        batch.append(g)
        n += k
    else:
        flush()
    if not ctx.validate("RegTableTrace", traces, scripts, pb, (), "", "histories of registration and use"):
        return
    ctx.samples.append(dict(spec="RegTableTrace", script=scripts[-1][:12], trace=traces[-1][:8]))
    full = [["start"]] + [["new", "r%d" % i] for i in range(257)] + [["reg", "reg", 255, "last", "4294967295"], ["id", "get", 355, 1], ["id", "str", 355, 1], ["id", "valid", 354, 1], ["id", "valid", 355, 2], ["new", "x"], ["show"], ["text", 255], ["ids", "i", 355, 1]]
    many = lambda m, k: [["start"], ["new", "big"], ["max", 1, str(m), m], ["mass", 1, k], ["grid"], ["mass", 1, 3], ["id", "get", 1, min(m, k)], ["id", "valid", 1, min(m, k) + 3]]
    lock = [["start"], ["new", "a"], ["reg", "reg", 1, "x", "1"], ["show"], ["finish"], ["show"], ["reg", "reg", 1, "y", "2"], ["reg", "musto", 1, "y", "2"], ["new", "b"], ["new", "b", "must"], ["id", "set", 1, 1, "9"], ["id", "get", 1, 1], ["obj", "o", 1, 1], ["use", "set", 1, "4"], ["grid"], ["text", 1], ["show"]]
    for s in (full, [["start"], ["new", "d"], ["mass", 1, 1024], ["mass", 1, 2], ["grid"], ["max", 1, "1023", 1023], ["max", 1, "1025", 1025], ["mass", 1, 2], ["grid"]], many(70000, 69000), many(1, 1), many(300, 400), lock):
        if not ctx.check("RegTableTrace", pb, [s], "", "a process of its own"):
            return
    ctx.assumptions.append("registration itself is single-threaded (documented); interleavings at shared-memory operations of an instrumented copy, sequentially consistent")
    ctx.extra["bounds"] = "all histories of %d operations over two registries; all 255 registries; up to 69000 values in one registry" % ctx.pick(5, 6)
