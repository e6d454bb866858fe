GEN = "SPECIFICATION Spec\nCONSTANTS Kinds = {%s} MaxDepth = %d MaxLen = %d\nINVARIANT Listed\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n%s\n"
KINDS = ["A", "B", "C", "G"]


def rand(rng, deep):
    s, d = [], 0
    for _ in range(deep):
        s.append([rng.choice(KINDS)])
        d += 1
    for _ in range(60):
        r = rng.random()
        if r < 0.2:
            s.append([rng.choice(KINDS)])
            d += 1
        elif r < 0.35 and d:
            s.append(["ret"])
            d -= 1
        elif r < 0.5:
            s.append([rng.choice(["bt", "btf", "btl", "bts"])])
        elif r < 0.85:
            s.append([rng.choice(["caller", "callerf", "callerl", "list"]), rng.choice([0, 1, 2, d, d + 1, d + 2, d + 3, d + 4, rng.randrange(0, d + 3), 1000])])
        elif r < 0.9:
            s.append(["assert", rng.choice([0, 1])])
        else:
            s.append(["leaf", rng.randrange(8)])
    return s


def run(ctx):
    b = ctx.build("gxverif/c24")
    d = ctx.pick(3, 4)
    scripts = ctx.gen("CallStackGen", GEN % (",".join('"%s"' % k for k in KINDS), d, 99, "VIEW View"), "every probe from every stack of up to %d calls" % d)
    scripts = [s for s in scripts if s]
    # several probes of the same stack in one run
    by = {}
    for s in scripts:
        by.setdefault(str(s[:-1]), (s[:-1], []))[1].append(s[-1])
    scripts = [p + q for p, q in by.values()]
    scripts += [rand(ctx.rng, n) for n in [0, 3, 10] * ctx.pick(40, 500) + [44, 45, 46, 47, 48, 49, 50, 51, 52, 60, 100, 300, 1100] * ctx.pick(2, 10)]
    ctx.check("CallStackTrace", b, scripts, "", "call stacks and probes", together=400)
    ctx.assumptions.append("runtime.CallersFrames of the Go runtime is right (names and lines of the driver's own frames)")
    ctx.extra["bounds"] = "all stacks of up to %d calls over 4 kinds of function, every depth argument around the stack's; seeded deep stacks up to 1100 calls" % d
