def run(ctx):
    rng = ctx.rng
    ctx.design("TypeKitCheck", "SPECIFICATION Spec\nINVARIANTS Equivalence KindOfType\nCHECK_DEADLOCK FALSE\n", "sameness of types over all pairs", min_states=1000)
    b = ctx.build("gxverif/c35")
    n = 47
    steps = [["same", i, j] for i in range(n + 1) for j in range(n + 1)] + [["kind", i] for i in range(1, n + 1)] + [["cmp", i] for i in range(n + 1)]
    big = 1 << 30
    ds = [0, 1, 1072, 1073, 1074, 1075, 2000, 10737, big, 2 * big - 1]
    for base in (0, 1, 536, 1073, big, big // 2, 12345):
        for d in ds:
            for i, j in ((base, base + d), (base + d, base), (-base, -base - d), (-base, d - base), (d // 2, d // 2 - d)):
                if abs(i) < 2 * big and abs(j) < 2 * big and abs(i - j) < 2 * big:
                    steps.append(["equal", i, j])
    for _ in range(ctx.pick(500, 20000)):
        i = rng.randrange(-big, big)
        steps.append(["equal", i, max(-big, min(big, i + rng.choice([-1, 1]) * rng.choice([rng.randrange(1200), rng.randrange(3000), rng.randrange(big)])))])
        steps.append(["cplx", rng.randrange(-5000, 5000), rng.randrange(-5000, 5000)])
    rng.shuffle(steps)
    sc = [steps[i:i + 100] for i in range(0, len(steps), 100)]
    sc += [[["new", i], ["new", i], ["put", 1], ["new", i], ["put", 3]] for i in range(1, n + 1)]
    for _ in range(ctx.pick(200, 3000)):
        s, k = [], 0
        for _ in range(rng.randrange(2, 30)):
            if k == 0 or rng.random() < 0.6:
                s.append(["new", rng.randrange(1, n + 1)])
                k += 1
            else:
                s.append(["put", rng.randrange(1, k + 1)])
        sc.append(s)
    if not ctx.check("TypeKitTrace", b, sc, "", "type questions, new objects, comparisons", together=400):
        return
    ctx.extra["bounds"] = "all pairs of 47 samples of 45 types; seeded object histories"
