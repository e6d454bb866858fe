B = 8192


def dig(n):
    r = []
    while n:
        r.append(n % B)
        n //= B
    return r


def tla(n):
    return "<<%s>>" % ",".join(map(str, dig(n)))


def rand(rng, bits, length):
    top = (1 << bits) - 1

    def num():
        k = rng.random()
        if k < 0.25:
            return rng.choice([0, 1, 2, 3, 10])
        if k < 0.4:
            return top - rng.choice([0, 0, 1, 2, 3, 10])
        if k < 0.6:
            return max(0, min(top, (1 << rng.randrange(0, bits + 1)) + rng.choice([-1, 0, 1])))
        if k < 0.8:
            return rng.randrange(0, 1 << rng.randrange(1, bits + 1))
        return rng.randrange(0, top + 1)

    def triple():
        if rng.random() < 0.2:
            return [num(), num(), num()]
        t = sorted([num(), num(), num()])
        return [t[1], t[0], t[2]]
    t = triple()
    while not t[1] <= t[0] <= t[2]:
        t = triple()
    s = [["new"] + t]
    v, lo, hi = t
    while len(s) < length:
        op = rng.choice(["set", "set", "add", "add", "sub", "sub", "mul", "mul", "mul", "div", "mod", "in", "inc", "inc", "dec", "dec", "reset", "resetr", "init"])
        if op == "init":
            if rng.random() < 0.5:
                t = triple()
                s.append([op] + t)
                if t[1] <= t[0] <= t[2]:
                    v, lo, hi = t
            continue
        if op in ("inc", "dec", "reset", "resetr"):
            s.append([op])
            n = dict(inc=v + 1, dec=v - 1, reset=lo, resetr=hi)[op]
            if lo <= n <= hi:
                v = n
            continue
        # operands at the edges of what fits: bounds, machine limits, exact quotients
        edge = [num(), num(), lo, hi, v, v + 1, v - 1, hi - v, hi - v + 1, v - lo, v - lo + 1, top - v, top - v + 1, lo - 1, hi + 1]
        if op == "mul" and v:
            edge += [q + d for q in (top // v, hi // v, (1 << bits) // v, (top + lo) // v, (top + 1 + lo) // v) for d in (-1, 0, 1)] * 2
        if op in ("div", "mod") and hi:
            edge += [v // max(1, hi), v // max(1, lo), v // 2, 0, 1]
        x = rng.choice(edge)
        if not 0 <= x <= top:
            continue
        s.append([op, x])
        if op == "set" and lo <= x <= hi:
            v = x
    return [[st[0]] + [dig(a) for a in st[1:]] for st in s]


GEN = """SPECIFICATION GenSpec
CONSTANTS Base = %d Top <- TopV Bits = %d MaxLen = %d Mode = "%s" Dense = %s
INVARIANT Legal
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
%s
"""


def run(ctx):
    ctx.design("BigNatCheck", "SPECIFICATION Spec\nCONSTANTS Base = 3 Lim = %d\nINVARIANT Agree\n" % ctx.pick(120, 250), "digit arithmetic equals integer arithmetic (base 3)")
    ctx.design("BigNatCheck", "SPECIFICATION Spec\nCONSTANTS Base = 16 Lim = %d\nINVARIANT Agree\n" % ctx.pick(60, 280), "digit arithmetic equals integer arithmetic (base 16)")
    b = ctx.build("gxverif/c13")
    for bits in (32, 64):
        top = (1 << bits) - 1
        m = "RangedGen%d" % bits
        with open(ctx.spec + "/%s.tla" % m, "w") as f:
            f.write("---- MODULE %s ----\nEXTENDS RangedGen\nTopV == %s\n====\n" % (m, tla(top)))
        t = "RangedTrace%d" % bits
        with open(ctx.spec + "/%s.tla" % t, "w") as f:
            f.write("---- MODULE %s ----\nEXTENDS RangedTrace\nTopV == %s\n====\n" % (t, tla(top)))
        scripts = ctx.gen(m, GEN % (B, bits, 2, "cover", "FALSE", ""), "%d bits: every creation and operation over boundary numbers" % bits)
        scripts += ctx.gen(m, GEN % (B, bits, 2, "walk", "TRUE", "VIEW View"), "%d bits: every creation, re-initialisation and operation over 0..4" % bits)
        scripts += [rand(ctx.rng, bits, rng_len) for rng_len in [40] * ctx.pick(500, 5000)]
        if not ctx.check(t, b, scripts, "CONSTANTS Base = %d Top <- TopV\n" % B, "%d-bit histories" % bits, args=["-bits", str(bits)], together=400):
            return
    ctx.extra["bounds"] = "all creations and single operations over 8 boundary numbers and over 0..4; seeded histories of 40 operations with operands at the edges"
