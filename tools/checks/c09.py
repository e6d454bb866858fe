GEN = """SPECIFICATION GenSpec
CONSTANTS Values = {%s} MaxSize = %d MaxLen = %d Mode = "%s" Caps = {0, 1, 3, 10}
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
%s
"""
TRC = "CONSTANTS Values = {1} MaxSize = 0 MaxLen = 0 Mode = \"\" Caps = {0}\n"


def rand(rng, length):
    """long histories: the size drifts up and down, indices cluster at the ends"""
    s, n = [["new", rng.choice([-99, 0, 1, 5, 64])]], 0
    up, big = 0.5, rng.choice([[0, 1000], [0, 1, 2, 3, 997, 998, 999, 1000], list(range(0, 1001))])
    while len(s) < length:
        if rng.random() < 0.02:
            up = rng.choice([0.2, 0.5, 0.8])
        def idx():
            return rng.choice([-1, 0, 1, n // 2, n - 2, n - 1, n, n + 1, rng.randrange(0, n + 1), rng.randrange(-5, n + 5)])
        r = rng.random()
        if r < 0.12:
            s.append([rng.choice(["get", "must"]), idx()])
        elif r < 0.16 and n:
            s.append([rng.choice(["swap", "less"]), rng.randrange(n), rng.randrange(n)])
        elif r < 0.18:
            s.append(["sort"])
        elif r < 0.183:
            s.append(["init", rng.choice([0, 4])])
            n = 0
        elif rng.random() < up:
            v = rng.choice(big)
            s.append(["push", v] if rng.random() < 0.3 else ["ins", v, idx()])
            n += 1
        elif rng.random() < 0.4:
            s.append(["pop"])
            n = max(0, n - 1)
        else:
            i = idx()
            s.append(["rem", i])
            n -= 0 <= i < n
    return s


def big(rng, n):
    s = [["new", rng.choice([0, 1, n])]]
    for _ in range(3):
        vs = [rng.choice(range(0, 1001)) for _ in range(rng.randrange(n // 2, n))]
        if rng.random() < 0.3:
            vs.sort(reverse=rng.random() < 0.5)
        s.append(["pushn", vs])
        for i in (0, 1, n // 4, n // 2, -1, 1 << 20):
            s += [["ins", rng.randrange(1001), i], ["get", i], ["rem", i]]
        s += [["sort"], ["pop"], ["ins", 500, 3], ["get", 3], ["must", n // 3]]
    return s


def giant(rng, n):
    s = [["new", 0], ["pushn", sorted(rng.randrange(1, 1000) for _ in range(n))], ["sort"]]
    for i in (32767, 32768, 65535, 65536, n - 3, n, n + 1):
        s += [["ins", rng.randrange(1001), i], ["get", i]]
    return s + [["rem", 65536], ["rem", 40000], ["rem", 0], ["must", 65537], ["swap", 5, 66000], ["less", 66000, 5], ["less", 5, 66000], ["pop"], ["get", n + 6], ["rem", n + 6], ["get", 65535], ["get", 65536]]


def run(ctx):
    b = ctx.build("gxverif/c09")
    k = ctx.pick(4, 5)
    base = ctx.gen("SortSlice", GEN % ("400,500,600", k, 99, "cover", "VIEW View"), "every operation at every index from every content of up to %d elements over 3 values" % k)
    base += ctx.gen("SortSlice", GEN % ("500,501", 3, 4, "all", ""), "all histories of 3 operations", prune=False, limit=ctx.pick(15000, None))
    for kind in ("int", "node", "hash"):
        scripts = base + [rand(ctx.rng, 200) for _ in range(ctx.pick(150, 1500))] + [rand(ctx.rng, 1500) for _ in range(ctx.pick(2, 15))]
        scripts += [big(ctx.rng, k) for k in ctx.pick([300, 1100], [300, 600, 1100, 2300, 5000])] + [giant(ctx.rng, 70000)]
        ctx.check("SortSliceTrace", b, scripts, TRC, "slice histories, kind " + kind, args=["-kind", kind], together=400)
    ctx.extra["bounds"] = "all transitions from contents of up to %d elements over 3 values; seeded histories of 200 and 1500 operations, contents up to thousands of elements, one of 70000" % k
