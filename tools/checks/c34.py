def run(ctx):
    rng = ctx.rng
    ctx.design("DurTextCheck", "SPECIFICATION Spec\nCONSTANT N = %d\nINVARIANTS Back Neg Ok\nCHECK_DEADLOCK FALSE\n" % 999, "texts of sums of boundary amounts read back", min_states=5000)
    b = ctx.build("gxverif/c34")
    U = dict(ns=1, us=10**3, ms=10**6, s=10**9, m=60 * 10**9, h=3600 * 10**9, d=86400 * 10**9, w=7 * 86400 * 10**9)
    vals = {0, (1 << 63) - 1, -(1 << 63), (1 << 63) - 2, -(1 << 63) + 1}
    for u in U.values():
        for c in (1, 2, 9, 10, 23, 24, 25, 59, 60, 61, 99, 100, 364, 365, 999, 1000, 1001, 106751):
            for x in (-1000000000, -1000000, -1000, -1, 0, 1, 500, 1000, 1000000, 500000000):
                vals |= {c * u + x, -(c * u + x)}
    for _ in range(ctx.pick(1200, 20000)):
        v = rng.getrandbits(rng.randrange(1, 64))
        vals.add(v if rng.random() < 0.8 else -v)
        v = sum(rng.randrange(0, 60) * U[k] for k in rng.sample(sorted(U), rng.randrange(1, 6)))
        vals.add(v if rng.random() < 0.8 else -v)
    steps = [["one", str(v)] for v in sorted(vals) if -(1 << 63) <= v < 1 << 63]
    steps += [["unit", n] for n in ("Nanosecond", "Microsecond", "Millisecond", "Second", "Minute", "Hour", "Day", "Week")]
    steps += [["since", x] for x in (0, 1, 1000, 60000000, 1800000000, -1, -1000000, -1800000000)]
    units = ["ns", "us", "µs", "μs", "ms", "s", "m", "h"]
    texts = ["", "0", "+0", "-0", "+", "-", ".", ".s", "s", "1", "1.5", "3d", "1d2h", "1w", "5m3", "1..5s", "1.5.s", "+-1s", "--1s", " 1s", "1s ", "1 s", "1S", "0x1s", "1e3s", "00s", "-.5s", "+.5h", "1.s", "-1.s", ".0s", "00000000000000000001s",
             "9223372036854775807ns", "9223372036854775808ns", "-9223372036854775808ns", "-9223372036854775809ns", "9223372036s", "9223372037s", "2562047h47m16s", "2562048h", "153722867m", "153722868m", "99999999999999999999h", "1h99999999999999999999ns", "0.100000000000000000000h", "0.9223372036854775807h", "1.0000000001s", "0.000000001s", "0.0000000019s", "0.3ns", "1.999999999ns", "1h1h1h", "1s1h", "1ms1us1ns", "1nsns", "1mss", "1m s", "-1h30m", "+1h30m", "1h-30m"]
    for _ in range(ctx.pick(1500, 20000)):
        t = rng.choice(["", "", "-", "+"])
        for _ in range(rng.randrange(1, 4)):
            t += rng.choice(["", str(rng.randrange(10)), str(rng.randrange(1000)), str(rng.getrandbits(30))])
            if rng.random() < 0.4:
                t += "." + rng.choice(["", "5", "25", "000", str(rng.getrandbits(rng.randrange(1, 50)))])
            t += rng.choice(units)
        if rng.random() < 0.15:
            i = rng.randrange(len(t) + 1)
            t = t[:i] + rng.choice(["x", " ", ".", "-", "d", "0", "s", "m", "\xb5"]) + t[i + rng.randrange(2):]
        texts.append(t)
    steps += [["read", list(t.encode())] for t in texts] + [["read", [0xc2, 0xb5]], ["read", [49, 0xb5, 115]], ["read", [49, 0xff]]]
    rng.shuffle(steps)
    sc = [steps[i:i + 30] for i in range(0, len(steps), 30)]
    if not ctx.check("DurTextTrace", b, sc, "", "texts, conversions and readings", together=400):
        return
    ctx.extra["bounds"] = "boundary counts of every unit around the day, all 64-bit widths sampled; the specification's text and reading are inverse on all sums of boundary amounts"
