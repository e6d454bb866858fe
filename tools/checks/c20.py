ALG = """SPECIFICATION Spec
CONSTANTS BS = 2 Vals = {%s} MaxMsg = %d MaxLen = %d Scenarios = %s
%s
CHECK_DEADLOCK FALSE
"""


def run(ctx):
    rng = ctx.rng
    ctx.design("CbcAlg", ALG % ("0,1,2,3", 3, ctx.pick(3, 4), "FALSE", "INVARIANT RoundTrip\nVIEW View"), "both ends of a toy CBC session")
    b = ctx.build("gxverif/c20")
    n = ctx.pick(5, 6)
    # histories of message lengths: the toy model with the single value 1 has one message per length
    hs = ctx.gen("CbcAlgLen", "SPECIFICATION LSpec\nCONSTANTS BS = 2 Vals = {0,1,2,3} MaxMsg = 5 MaxLen = %d Scenarios = TRUE\nINVARIANT RoundTrip\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n" % n, "send/receive histories of %d steps by message length" % n, prune=False, limit=ctx.pick(2500, 30000))
    scripts = []

    def length(k):
        return 16 * (k // 2) + (rng.choice([1, 7, 14, 15]) if k % 2 else 0)

    def steps(h, ns):
        s, pend = [], {i: 0 for i in range(1, ns + 1)}
        for st in h:
            i = st[1]
            if st[0] == "enc":
                s.append([rng.choice(["enc", "enc", "encs"]), i, st[2], rng.choice([0, 0, 1, 16, 40]), rng.randrange(1 << 30)])
                pend[i] += 1
            elif pend[i]:
                s.append([rng.choice(["dec", "dec", "decs"]), i, rng.choice([0, 0, 3, 32])])
                pend[i] -= 1
        for i in pend:
            s += [[rng.choice(["dec", "decs"]), i, 0]] * pend[i]
        s.append(["final"])
        if any(x[0] in ("enc", "encs", "dec") for x in s):
            for _ in range(3):
                s += [["fill", rng.randrange(100)]]
            s.append(["final"])
        return s
    for h in hs:
        scripts.append([["open", 1, rng.choice([16, 24, 32]), rng.randrange(1 << 30)]] + steps([[x[0], 1] + [length(y) for y in x[2:]] for x in h], 1))
    for _ in range(ctx.pick(250, 3000)):
        ns = rng.choice([1, 2, 3])
        seed = rng.randrange(1 << 30)
        s = [["open", i, rng.choice([16, 24, 32]), rng.choice([seed, rng.randrange(1 << 30)])] for i in range(1, ns + 1)]
        lens = rng.choice([[0, 1, 15, 16, 17], [31, 32, 33, 47, 48, 49], list(range(0, 100)), [0], [0, 16, 256, 1000]])
        h = [rng.choice([["enc", rng.randrange(1, ns + 1), rng.choice(lens)], ["enc", rng.randrange(1, ns + 1), rng.choice(lens)], ["dec", rng.randrange(1, ns + 1)]]) for _ in range(rng.randrange(2, 25))]
        scripts.append(s + steps(h, ns))
    scripts += [[["open", 1, k, 5], ["open", 2, 16, 6]] for k in list(range(0, 40)) + [48, 64, 100]]
    for k in range(0, 70):
        scripts.append([["open", 1, [16, 24, 32][k % 3], k], ["enc", 1, k, 5, k], ["encs", 1, k, 0, k + 1], ["dec", 1, 0], ["decs", 1, 4], ["final"]])
    for k, ln in enumerate(ctx.pick([1023, 1024, 2049, 4095, 4096, 5000], [1023, 1024, 2049, 4095, 4096, 5000, 8191, 8192, 10000, 16384, 33000])):
        scripts.append([["open", 1, [16, 24, 32][k % 3], k], ["enc", 1, ln, 5, k], ["encs", 1, ln, 0, k + 1], ["dec", 1, 0], ["decs", 1, 40], ["final"]])
    ctx.check("SessionTrace", b, scripts, "CONSTANT BS = 16\n", "session histories", together=400)
    ctx.assumptions.append("crypto/aes block cipher of the standard library is right (its inverse is the permutation oracle)")
    ctx.extra["bounds"] = "all send/receive histories of %d steps by length class (sampled), every message length 0..69, seeded histories over up to 3 sessions" % n
