CONST = "CONSTANTS Values = {%s} Limits = {%s} MaxSize = %d Record = %s\n"
DES = "SPECIFICATION Spec\nINVARIANTS HeapInv BulkOK\nPROPERTY Refines\nCHECK_DEADLOCK FALSE\n"
GEN = "SPECIFICATION Spec\nVIEW GenView\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n"


def histories(rng, n, length):
    out = []
    for i in range(n):
        c = rng.choice([-99, 0, 1, 5, 100])
        lim, m = rng.choice([0, 0, -1, 1, 2, 3, 4, 7, 8, 15, 30]), rng.random() < 0.5
        if c == -99:
            lim, m = 0, True
        s = [["new", c, lim, m]]
        vals = rng.choice([[0, 1, 2, 3, 500, 997, 998, 999, 1000], list(range(495, 505)), list(range(0, 1001))])
        while len(s) < length:
            p = rng.choice([0.9, 0.5, 0.3, 0.7])
            mono = rng.choice([0, 0, 1, -1])     # monotone runs
            x = rng.choice(vals)
            for _ in range(rng.randrange(1, 40)):
                if rng.random() < p:
                    if mono:
                        x = min(1000, max(0, x + mono * rng.randrange(0, 3)))
                        s.append(["push", x])
                    else:
                        s.append(["push", rng.choice(vals)])
                else:
                    s.append(["pop"])
            if rng.random() < 0.05:
                s.append(["init", rng.choice([-1, 0, 3, 50]), rng.choice([0, 1, 2, 5, 9]), rng.random() < 0.5])
        out.append(s[:length])
    return out


def bulk(rng, n, top):
    out = []
    for _ in range(n):
        lim, m = rng.choice([0, 0, 1, 100, 1000, rng.randrange(2, top)]), rng.random() < 0.5
        s, size = [["new", rng.choice([0, 1, 300, 2000]), lim, m]], 0
        vals = rng.choice([[0, 1, 2, 500, 999, 1000], list(range(0, 1001))])
        for _ in range(rng.randrange(4, 9)):
            if rng.random() < 0.65 or size == 0:
                k = rng.randrange(1, top)
                vs = [rng.choice(vals) for _ in range(k)]
                o = rng.random()
                if o < 0.3:
                    vs.sort()
                elif o < 0.5:
                    vs.sort(reverse=True)
                s += [["pushn", vs], ["push", rng.choice(vals)]]
                size += k + 1
            else:
                s += [["popn", rng.randrange(0, 1 + size)], ["pop"]]
                size //= 2
            if rng.random() < 0.1:
                s.append(["init", rng.choice([0, 50]), rng.choice([0, 1, 60]), rng.random() < 0.5])
        s.append(["popn", 1 << 17])
        out.append(s)
    return out


def wide(rng):
    """Limits beyond 8 and 16 bits, reached and not reached."""
    out = []
    for lim in (127, 128, 129, 255, 256, 257, 32768, 32769, 65535, 65536, 65537, 65540, 1 << 20, (1 << 31) - 1):
        for m in (True, False):
            k = 600
            s = [["new", 0, lim, m], ["pushn", [rng.randrange(1001) for _ in range(k)]], ["push", 0], ["push", 1000], ["popn", 1 << 17]]
            out.append(s)
    for lim in (32768, 65536, 70000):       # sorted upwards: the array stays as it is
        vs = sorted(rng.randrange(1, 1000) for _ in range(lim))
        out.append([["new", 0, lim, False], ["pushn", vs], ["pushn", [0] * 300], ["popn", 1 << 17]])
    return out


def run(ctx):
    ctx.design("ArrayHeap", DES + CONST % ("1,2,3", "0,1,2,3", ctx.pick(6, 8), "FALSE"), "array heap refines bounded priority bag")
    b = ctx.build("gxverif/c04")
    scripts = ctx.gen("ArrayHeap", GEN + CONST % (ctx.pick("1,500,1000", "0,1,500,1000"), "0,1,2,3,4", ctx.pick(5, 6), "TRUE"), "every (array,limit,order,op)")
    scripts += histories(ctx.rng, ctx.pick(300, 3000), 100)
    scripts += histories(ctx.rng, ctx.pick(4, 40), 1200)
    scripts += bulk(ctx.rng, ctx.pick(25, 150), ctx.pick(700, 2500))
    scripts += wide(ctx.rng)
    ctx.check("HeapTrace", b, scripts, "CONSTANTS Values = {} Limits = {}\n", "heap histories", together=400)
    ctx.extra["bounds"] = "all reachable heap arrays up to size %d over %d values, limits 0..4, both orders, every operation; seeded histories up to 1200 operations, and of thousands of values pushed in bulk; limits up to 2^31-1, reached up to 70000" % (ctx.pick(5, 6), ctx.pick(3, 4))
