CFG = "SPECIFICATION Spec\nCONSTANTS MaxLen = %d MaxBs = %d Vals = {%s} Kinds = {\"zero\",\"pkcs5\",\"pkcs7\",\"pkcs7s\"}\nINVARIANT Laws\n%s\n"


def run(ctx):
    rng = ctx.rng
    n = ctx.pick(4, 5)
    scripts = ctx.gen("PaddingCheck", CFG % (n, 5, "0,1,2", "ACTION_CONSTRAINT Emit"), "all data up to %d bytes over 3 values, block sizes 1..5" % n, prune=False)
    b = ctx.build("gxverif/c21")
    kinds = ["zero", "pkcs5", "pkcs7", "pkcs7s"]
    full = [[st + [rng.choice([0, 1, st[2], st[2] - 1, 7, 40])] for st in s] for s in scripts]
    for bs in range(1, 256):
        for k in kinds:
            s = []
            for r in sorted({0, 1, bs - 1, bs, bs + 1, 2 * bs, rng.randrange(0, 3 * bs)}):
                d = [rng.choice([0, 1, bs, 255, 128, rng.randrange(256)]) for _ in range(r)]
                s.append([k, d, bs, rng.choice([0, 1, bs - 1, bs, 2 * bs + 3])])
            full.append(s)
    for _ in range(ctx.pick(300, 5000)):
        bs = rng.randrange(1, 256)
        r = rng.choice([0, bs * rng.randrange(4), rng.randrange(600)])
        full.append([[rng.choice(kinds), [rng.choice([0, rng.randrange(256)]) for _ in range(r)], bs, rng.randrange(0, 300)]])
    for n in (1023, 1024, 4095, 4096, 4097, 65535, 65536, 70001):       # long data
        for k in kinds:
            d = [rng.randrange(256) for _ in range(n)]
            full.append([[k, d, rng.choice([8, 16, 255]), rng.choice([0, 300])], [k, d[:-9] + [0] * 9, 16, 0]])
    ctx.check("PaddingTrace", b, full, "", "padding calls with spare capacity", together=400)
    ctx.extra["bounds"] = "all data of up to %d bytes over 3 values with block sizes 1..5; every block size 1..255 with residues 0, 1, bs-1 and random; spare capacities 0..2bs+3; data of up to 70001 bytes" % n
