GEN = "SPECIFICATION Spec\nCONSTANTS MaxLen = %d MaxViews = %d Sizes = {%s}\nINVARIANT Inside\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n"


def rand(rng, length):
    s, vs, na = [], [], 0      # views: (isB, len, cap)
    while len(s) < length:
        h = len(s)
        r = rng.random()
        if not vs or (r < 0.1 and na < 4):
            n, sp = rng.choice([0, 1, 2, 8, 33, 64]), rng.choice([0, 1, 5])
            s.append(["alloc", n, sp, h])
            vs.append((True, n, n + sp))
            na += 1
            continue
        if len(vs) > 14 or r > 0.6:
            c = [i for i, v in enumerate(vs) if v[0] and v[1]]
            if c:
                i = rng.choice(c)
                s.append(["write", i + 1, rng.choice([0, vs[i][1] - 1, rng.randrange(vs[i][1])]), rng.randrange(256)])
            elif len(vs) > 14:
                break
            continue
        i = rng.randrange(len(vs))
        b, n, c = vs[i]
        if r < 0.35:
            s.append(["tos" if b else "tob", i + 1])
            vs.append((not b, n, n))
        elif r < 0.5 and n:
            p = rng.randrange(n)
            q = rng.randrange(p + 1, n + 1)
            s.append(["slice", i + 1, p, q])
            vs.append((b, q - p, c - p if b else q - p))
        elif b and n < c:
            s.append(["grow", i + 1, rng.randrange(256)])
            vs.append((True, n + 1, c))
        elif b and rng.random() < 0.4:
            # a growing append lands in new memory of unknown capacity: the last step on this branch
            s.append(["grow", i + 1, rng.randrange(256)])
            break
    return s


def run(ctx):
    rng = ctx.rng
    n = ctx.pick(4, 5)
    scripts = ctx.gen("ViewsGen", GEN % (n, n, "0, 1, 3"), "all histories of %d steps" % n, prune=False, limit=ctx.pick(8000, 60000))
    b = ctx.build("gxverif/c22")
    scripts += [rand(rng, rng.choice([8, 20, 40])) for _ in range(ctx.pick(500, 6000))]
    scripts.append([["lit", i] for i in range(6)])
    scripts.append([["fresh", k, c] for k in [1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 48, 64, 100, 128, 200, 256, 400, 512, 1000, 1024, 2048, 5000, 32768, 40000, 100000] for c in (20, 21)])
    bigs = [4096, 65535, 65536, 65537, 70000, 131072, 200000, 1 << 20, (1 << 20) + 3, 5 << 20, 20 << 20]
    scripts += [[["big", n, p, k] for k in (1, 2, 100, n // 2, n - 1, n) for p in {0, 1, n // 3, n - k} if p + k <= n] for n in bigs]
    ctx.check("ViewsTrace", b, scripts, "", "conversions, slices, writes and appends")
    ctx.assumptions.append("default linux/amd64 (non-PIE) memory layout for Writeable")
    ctx.extra["bounds"] = "histories of %d steps over at most 2 allocations of 0..6 bytes (sampled from all); seeded histories of up to 40 steps" % n
