def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


def run(ctx):
    rng = ctx.rng
    with open(ctx.spec + "/CommaAlgMC.tla", "w") as f:
        f.write("---- MODULE CommaAlgMC ----\nEXTENDS CommaAlg\nNumsV == 0..2100 \\cup 9990..10010 \\cup 99990..100010 \\cup 999900..1000100 \\cup 999999900..1000000100 \\cup 2147483000..2147483600\n====\n")
    ctx.design("CommaAlgMC", "SPECIFICATION Spec\nCONSTANTS Base = 8192 Nums <- NumsV\nINVARIANT Right\nCHECK_DEADLOCK FALSE\n", "grouping loop gives the grouped decimal digits")
    b = ctx.build("gxverif/c15")
    top = 2 ** 32 - 1
    vals = [0, 1, top, 0x80000000, 0x7fffffff, 0x01020304, 0xff00ff00, 0x00ff00ff, 0xaaaaaaaa, 0x55555555, 0x12345678, 0xffff0000, 0x0000ffff, 0x8000, 0xfedcba98]
    vals += [1 << k for k in range(32)] + [top ^ (1 << k) for k in range(32)] + [rng.randrange(top + 1) for _ in range(ctx.pick(200, 4000))]
    idx = list(range(0, 36)) + [63, 64, 65, 255, 256, 257, 65535, 65536, 2 ** 31 - 1, 2 ** 31, top, top - 1, top - 31, 2 ** 29, 2 ** 28, 2 ** 30]
    steps = [["bit", v, i] for v in vals for i in idx]
    steps += [[op, v, i] for op in ("byte", "word") for v in vals for i in list(range(0, 10)) + idx[32:]]
    c = set(range(0, ctx.pick(1200, 20000)))
    for k in range(0, 20):
        for d in (-2, -1, 0, 1, 2, 5, 10, 99, 100, 101):
            c |= {10 ** k + d, 5 * 10 ** k + d, 10 ** k * 12 + d, 9 * 10 ** k + d}
    for k in range(0, 65):
        c |= {2 ** k - 1, 2 ** k, 2 ** k + 1}
    for _ in range(ctx.pick(3000, 60000)):
        c.add(rng.randrange(2 ** rng.randrange(1, 65)))
        # groups with leading zeros
        n = 0
        for _ in range(rng.randrange(1, 7)):
            n = n * 1000 + rng.choice([0, 0, 1, 7, 10, 99, 100, 999, rng.randrange(1000)])
        c.add(n)
    steps += [["comma", str(n)] for n in sorted(c) if 0 <= n < 2 ** 64]
    steps += [["btoi", x] for x in (True, False)]
    steps += [["itob", str(n)] for n in [0, 1, -1, 2, -2, 255, 256, -256, 65536, 2 ** 31, 2 ** 32, -2 ** 32, 2 ** 33, 2 ** 63 - 1, -2 ** 63, 2 ** 62] + [rng.randrange(-2 ** 63, 2 ** 63) for _ in range(50)]]
    ctx.check("ExtractTrace", b, chunks(steps, 100), "CONSTANT Base = 8192\n", "extraction, grouping and conversion calls", together=400)
    ctx.extra["bounds"] = "%d calls: all valid indices and invalid ones up to 2^32-1 on %d values, %d grouped numbers up to 2^64-1" % (len(steps), len(vals), len(c))
