GEN = "SPECIFICATION GenSpec\nCONSTANTS Facs = {%s} Types = {%s} Creators = {%s} MaxLen = %d\nINVARIANT Typed\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n%s\n"


def rng_sample(rng, n):
    return list(range(n)) if n < 300 else sorted(rng.sample(range(n), 120) + [n - 1, 0])


def inner(rng, facs, ts, depth=0):
    f, t = rng.choice(facs), rng.choice(ts)
    r = rng.random()
    if r < 0.3:
        return ["add", f, t, rng.choice([0, 1, 2, 5, 5])]
    if r < 0.5:
        return ["rem", f, t]
    return ["create", f, t, [rng.randrange(100) for _ in range(rng.choice([0, 1, 2]))]] + ([inner(rng, facs, ts, depth + 1)] if depth < 4 and rng.random() < 0.6 else [])


def nested(rng, facs, length):
    ts = rng.sample(range(6), rng.randrange(2, 5))
    s = [["add", rng.choice(facs), t, 5] for t in ts]
    return s + [inner(rng, facs, ts) for _ in range(length)]


def rand(rng, facs, length):
    s = []
    ts = rng.sample(range(6), rng.randrange(2, 7))
    for _ in range(length):
        f, t = rng.choice(facs), rng.choice(ts)
        r = rng.random()
        if r < 0.35:
            s.append(["add", f, t, rng.choice([0, 1, 2, 3, 4])])
        elif r < 0.55:
            s.append(["rem", f, t])
        else:
            s.append(["create", f, t, [rng.randrange(rng.choice([10, 100])) for _ in range(rng.choice([0, 1, 1, 2, 5, 20]))]])
    return s


def run(ctx):
    b = ctx.build("gxverif/c23")
    base = ctx.gen("Registry", GEN % ("1,2", "1,2,3", "1,2", 99, "VIEW View"), "every operation from every state of two factories with three types")
    base += ctx.gen("Registry", GEN % ("1,2", "1,2", "1,2", ctx.pick(3, 4), ""), "all short histories", prune=True, limit=ctx.pick(6000, 60000))
    argl = [[]] + [[i] for i in range(10)] + [[i, j] for i in range(10) for j in range(10)] + [[j, i, j] for i in range(10) for j in range(10)]
    base += [[["add", 1, 1, c]] + [["create", 1, 1, a] for a in argl] for c in (1, 2, 3, 4)]
    trc = "CONSTANTS Facs = {1,2,3,4} Types = {1} Creators = {1} MaxLen = 0\n"
    for kind in ("s", "i", "g", "mixed"):
        facs = [1, 2] if kind != "mixed" else [1, 2, 3, 4]
        sc = base + [rand(ctx.rng, facs, rng_len) for rng_len in [60] * ctx.pick(100, 1500)]
        sc += [nested(ctx.rng, facs, n) for n in [15] * ctx.pick(150, 1500)]
        for n in (40, 300, 1500):           # many types in one registry
            f, s = facs[0], []
            for t in range(n):
                s.append(["add", f, t, 1 + t % 4])
            s += [["create", f, t, [t % 7]] for t in rng_sample(ctx.rng, n)] + [["rem", f, t] for t in range(0, n, 2)] + [["add", f, t, 2] for t in range(0, n, 3)]
            sc.append(s + [["create", f, t, []] for t in rng_sample(ctx.rng, n)])
        if not ctx.check("RegistryTrace", b, sc, trc, "registry histories, kind " + kind, args=["-kind", kind]):
            return
    ctx.extra["bounds"] = "every operation from every registry state of two factories, three types, two creators; seeded histories of 60 operations; creators that use the registry themselves, up to five deep; 1500 types"
