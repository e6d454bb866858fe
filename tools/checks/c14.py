import os


def prime_list(n):
    c = bytearray([1]) * (n + 1)
    for i in range(2, int(n ** 0.5) + 1):
        if c[i]:
            c[i * i::i] = bytes(len(c[i * i::i]))
    return [i for i in range(2, n + 1) if c[i]]


def run(ctx):
    rng = ctx.rng
    for h in ctx.pick((2, 5), (2, 3, 6)):
        ctx.design("RootAlg", "SPECIFICATION Spec\nCONSTANT Half = %d\nINVARIANTS Floor Nearest TrialExact\nCHECK_DEADLOCK FALSE\n" % h, "bitwise root and trial division, %d-bit words" % (2 * h))
    b = ctx.build("gxverif/c14")
    top = 2 ** 32
    ps = prime_list(65600)
    scripts = [[["range", a, a + 499]] for a in range(0, ctx.pick(60000, 600000), 500)]
    scripts += [[["range", a, a + 199]] for a in [2 ** 24 - 100, 2 ** 31 - 400, 65536 * 3, 46340 ** 2 - 100]]
    nums = [top - k for k in range(1, 300)] + [2 ** k + d for k in range(1, 32) for d in range(-3, 4)] + [2 ** 31 + d for d in range(0, 60)]
    near = [p for p in ps if p > 60000]
    for _ in range(ctx.pick(300, 3000)):
        i = rng.randrange(len(ps))
        nums += [ps[i] ** 2, ps[i] * ps[min(i + 1, len(ps) - 1)], rng.randrange(top), rng.randrange(top) | 1]
    nums += [p * p for p in ps[-80:]] + [p * q for p in near[-30:] for q in near[-30:]]
    with open(os.path.join(os.path.dirname(__file__), "..", "data", "psp2.txt")) as fh:     # all composites n below 2^32 with 2^(n-1) = 1 mod n
        nums += [int(x) for x in fh]
    nums = [n for n in nums if 0 <= n < top]
    scripts += [[["prime", n] for n in nums[i:i + 20]] for i in range(0, len(nums), 20)]
    roots = [0, 1, 2, 3, 65535, 65536 // 2] + [rng.randrange(65536) for _ in range(ctx.pick(600, 6000))] + [2 ** k + d for k in range(16) for d in (-1, 0, 1)]
    sq = [r * r + d for r in roots for d in (-1, 0, 1, r - 1, r, r + 1)] + [r * r + 2 * r for r in roots] + nums
    sq = [n for n in sq if 0 <= n < top]
    scripts += [[["sqrt", n] for n in sq[i:i + 50]] for i in range(0, len(sq), 50)]
    if not ctx.check("NumbersTrace", b, scripts, "CONSTANT Base = 8192\n", "dense and structured values"):
        return
    scans = [[["scan", "sqrts", 0, top]], [["scan", "products", 0, 1]]]
    if ctx.tier == "quick":
        scans += [[["scan", "primes", 0, 2 ** 23]], [["scan", "primes", 2 ** 31 - 2 ** 19, 2 ** 31 + 2 ** 19]], [["scan", "primes", top - 2 ** 20, top]]]
        scans += [[["scan", "primes", a, a + 2 ** 20]] for a in [rng.randrange(2 ** 23, top - 2 ** 20) for _ in range(3)]]
    else:
        scans += [[["scan", "primes", a, a + 2 ** 28]] for a in range(0, top, 2 ** 28)]
    for s in scans:      # seconds after which the rest of a scan is left out
        s[0].append(ctx.pick(dict(sqrts=150, products=100, primes=40)[s[0][1]], 1500))
    ctx.check("NumbersTrace", b, scans, "CONSTANT Base = 8192\n", "scans: the real functions on whole ranges, disagreements with a sieve and samples judged by TLC")
    ctx.assumptions.append("scans: a sieve / integer comparison in the driver selects which calls TLC judges; a call they agree on is judged by TLC only if sampled")
    ctx.extra["bounds"] = "SqrtUint32: all 2^32 arguments scanned; IsPrime: " + ("dense ranges, windows, all products of two table primes" if ctx.tier == "quick" else "all 2^32 arguments scanned")
