import itertools

ALG = "SPECIFICATION Spec\nCONSTANTS Procs = {%s} PerProc = %d Cas = %s Swapper = %s\nINVARIANT InOrder\nCHECK_DEADLOCK FALSE\n"
CONST = "CONSTANT Base = 256\n"


def run(ctx):
    ctx.design("LcgAlg", ALG % ('"a","b","c"', ctx.pick(2, 3), "TRUE", "TRUE"), "every draw is the next step, seeds swapped in between")
    r = ctx.tlc("LcgAlg", ALG % ('"a","b"', 1, "FALSE", "FALSE"))
    if "Invariant InOrder is violated" not in r.out:
        raise RuntimeError("the blind update should have been refuted")
    ctx.design("LcgBound", "CONSTANT Base = 4\nINIT Init\nNEXT Next\nINVARIANTS Inside Onto\nCHECK_DEADLOCK FALSE\n", "bounded draws over a 16-value type, all bounds and draws")
    ctx.instrument("math/rand")
    b = ctx.build("gxverif/c25")
    rng = ctx.rng
    R, S, Q, X, G = ["rand"], ["seed"], ["srand", "77"], ["range", "9", "4"], ["max", "10"]
    jobs = []
    for w in (32, 64):
        for seed in ("0", "1"):
            ps = [[[R], [R]], [[R, R], [R, R]], [[R, R], [R], [R]], [[R], [Q]], [[R, R], [Q, R]], [[R, S], [R, S]], [[R, S], [Q, S]],
                  [[X], [R]], [[X, R], [G, R]], [[R], [R], [R], [R]], [[R, R, R], [R, R, R]], [[Q], [Q, R], [R]], [[S, S], [R, R]], [[G, G], [X, X]]]
            jobs += [dict(w=w, seed=seed, progs=p, preempt=k, max=ctx.pick(3000, 60000)) for p in ps for k in (2, 99)]
    traces, scripts = ctx.explore(b, jobs, "concurrent draws")
    if not ctx.validate("LcgTrace", traces, scripts, b, (), CONST, "draws under controlled schedules"):
        return
    ctx.samples.append(dict(spec="LcgTrace", script=scripts[0], history=traces[0]))
    pb = ctx.build("gxverif/c25", gopath=ctx.plain("math/rand"))

    def num(w):
        top = (1 << w) - 1
        return str(rng.choice([0, 1, 2, 3, top, top - 1, top - 2, 1 << (w // 2), (1 << (w // 2)) - 1, 1 << (w - 1), (1 << (w - 1)) - 1,
                               rng.randrange(1 << rng.randrange(1, w + 1)), rng.randrange(top), rng.randrange(100)]))

    def op(w):
        f = rng.choice(["rand", "rand", "range", "range", "max", "seed", "srand"])
        if f == "range":
            a, c = num(w), num(w)
            return [f, a, rng.choice([c, c, a, str(min((1 << w) - 1, int(a) + rng.randrange(20))), str(max(0, int(a) - rng.randrange(20)))])]
        if f == "max":
            return [f, str(max(1, int(num(w))))]
        return [f, num(w)] if f == "srand" else [f]
    seq = []
    for _ in range(ctx.pick(60, 900)):
        s, ws = [], {}
        for i in range(rng.choice([1, 2, 3])):
            w = rng.choice([32, 64])
            g = "g%d" % i
            ws[g] = w
            s.append(["new", g, w, num(w)] if rng.random() < 0.8 else ["auto", g, w])
        for _ in range(rng.randrange(5, 40)):
            g = rng.choice(sorted(ws))
            s.append(["do", g, ws[g]] + op(ws[g]))
        seq.append(s)
    for w in (32, 64):      # full range, in both orders and by all means
        top = str((1 << w) - 1)
        seq.append([["new", "g", w, "5"]] + [["do", "g", w] + o for o in (["range", "0", top], ["range", top, "0"], ["range", "1", top], ["range", "0", str((1 << w) - 2)],
                                                                          ["max", top], ["max", "1"], ["range", top, top], ["range", "0", "0"], ["rand"])])
    if not ctx.check("LcgTrace", pb, seq, CONST, "sequential histories over several generators"):
        return
    glob = []
    for w in (32, 64):
        for _ in range(ctx.pick(10, 60)):
            s = [["gauto", "G", w]]
            for _ in range(20):
                o = op(w)
                while o[0] in ("seed", "srand"):
                    o = op(w)
                s.append(["gdo", "G", w] + o)
                if rng.random() < 0.1:      # making a self-seeded generator takes a draw of the package-level one
                    s += [["auto", "n", w], ["do", "n", w, "rand"], ["gauto", "G", w]]
            glob.append(s)
    if not ctx.check("LcgTrace", pb, glob, CONST, "package-level generators"):
        return
    texts = [[["text", str(r), n]] for r in (0, 1 << 16, 1 << 17, 10 | 1 << 17 | 1 << 19, 63 << 16) for n in (0, 1, 2, 8, 100)]
    texts += [[["text", "0", 6000]], [["text", str(63 << 16), 6000]]]
    if not ctx.check("LcgTrace", pb, texts, CONST, "random strings"):
        return
    mass = [[["mass", w, num(w), g, n]] for w in (32, 64) for g, n in ((2, 300), (4, 200), (8, 100)) for _ in range(ctx.pick(3, 20))]
    ctx.check("LcgTrace", pb, mass, CONST, "free-running goroutines on the package as it is")
    ctx.assumptions.append("interleavings at shared-memory operations of an instrumented copy of math/rand, sequentially consistent")
    ctx.extra["bounds"] = "schedules of up to 4 goroutines and 6 operations; seeds and bounds at and around the limits of the types"
