GEN = """SPECIFICATION GenSpec
CONSTANTS Objs = {1,2} MaxLen = %d
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""
METHODS = ["MD5", "SHA1", "SHA256", "SHA512", "CRC32", "CRC64", "FINGERPRINT"]


def conc(ctx, h, ms, sizes=None):
    rng = ctx.rng
    s = [["new", i + 1, m] for i, m in enumerate(ms)]
    for st in h:
        if st[0] == "write":
            n = st[2] if sizes is None else rng.choice(sizes)
            a = rng.choice([0, 1 << 21, rng.randrange(0, 100000)])
            s.append(["write", st[1], a, n])
        elif st[0] == "sum":
            s.append(["sum", st[1], rng.choice([0, 0, 1, 7, 24, 24, 63, 64, 65, 200, 1000]), rng.choice([0, 1, 30, 100])])
            if ms[st[1] - 1] == "FINGERPRINT":
                s.append(["text", st[1]])
        else:
            s.append(st)
    for i, m in enumerate(ms):
        s.append(["sum", i + 1, 0, 0])
    return s


def run(ctx):
    rng = ctx.rng
    b = ctx.build("gxverif/c16")
    n = ctx.pick(4, 5)
    hs = ctx.gen("HashStream", GEN % n, "all histories of %d operations over two objects" % n, prune=False)
    scripts = []
    for i, h in enumerate(hs):
        m = METHODS[i % 7]
        scripts.append(conc(ctx, h, ["FINGERPRINT", "FINGERPRINT"] if i % 2 else [m, rng.choice(METHODS)]))
    for _ in range(ctx.pick(400, 4000)):
        k = rng.choice([1, 2, 3])
        ms = [rng.choice(METHODS + ["FINGERPRINT"] * 3) for _ in range(k)]
        h = [rng.choice([["write", rng.randrange(1, k + 1), 0]] * 5 + [["sum", rng.randrange(1, k + 1)]] * 2 + [["reset", rng.randrange(1, k + 1)]])
             for _ in range(rng.randrange(2, 25))]
        s = conc(ctx, h, ms, rng.choice([[0, 1, 2, 5], [55, 56, 57, 63, 64, 65, 111, 112, 127, 128, 129, 200], [0, 1, 255, 256, 257, 4096], list(range(0, 300))]))
        for i, m in enumerate(ms):
            if m == "FINGERPRINT" and rng.random() < 0.5:
                b6 = [rng.choice([0, 1, 127, 128, 255]) for _ in range(6)]
                s += [["setlen", i + 1, b6], ["sum", i + 1, 0, 0], ["write", i + 1, 5, rng.choice([0, 1, 200, 300])], ["sum", i + 1, 2, 0], ["text", i + 1],
                      ["reset", i + 1], ["sum", i + 1, 0, 3], ["text", i + 1]]
        scripts.append(s)
    for m in ("FINGERPRINT", "MD5", "CRC64"):
        scripts.append([["new", 1, m]] + [["write", 1, 7, k] for k in (65535, 1, 65536, 1 << 20, 3 << 20)] + [["sum", 1, 0, 0]])
    for m in METHODS:
        for k in [0, 1, 2, 3, 55, 56, 63, 64, 65, 119, 128, 255, 256, 1000, 65536, 100000]:
            scripts.append([["sh", m, rng.randrange(0, 100000), k]])
    scripts.append([["bad", k] for k in (8, 9, 100, 1 << 20, 8, 255)])
    ctx.check("HashTrace", b, scripts, "CONSTANTS Objs = {1,2,3} MaxLen = 0\n", "hash histories", together=400)
    ctx.assumptions.append("standard library digests are right (reference oracle for the digest functions)")
    ctx.extra["bounds"] = "all histories of %d operations over two objects; seeded histories over up to three objects, writes of 0 to 3M bytes" % n
