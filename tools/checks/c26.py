def run(ctx):
    ctx.instrument("errors")
    b = ctx.build("gxverif/c26")
    rng = ctx.rng
    A, B, C = ["reg", "a"], ["reg", "b"], ["reg", "c"]
    S = ["show"]
    g = lambda k: ["get", 500 + k]
    t = lambda k: ["str", 500 + k]
    progs = [[[A], [B]], [[A, g(1)], [B, g(2)]], [[A], [B], [C]], [[A], [S]], [[A, B], [S]], [[A, B], [g(1), g(2), g(3)]], [[A, t(1)], [B, t(1)]],
             [[A], [B], [S]], [[A], [g(1), g(1)]], [[A, S], [B, S]], [[["new", 501]], [A]], [[["newf", 501, "x", "x"]], [A]], [[A, A], [A, A]], [[A], [["std", "%d"]]]]
    nreg = lambda p: sum(1 for q in p for s in q if s[0] == "reg")
    traces, scripts = [], []
    for p in progs:       # the registry of a process is limited: one process each
        for k in (1, 2, 99):
            x, y = ctx.explore(b, [dict(progs=p, preempt=k, fresh=S in p[0] + p[-1],
                                       max=ctx.pick(200, 2000) if S in p[0] + p[-1] else min(ctx.pick(500, 4000), 8900 // max(1, nreg(p))))], "concurrent operations %s" % p)
            traces, scripts = traces + x, scripts + y
    if not ctx.validate("ErrorIdsTrace", traces, scripts, b, (), "", "registrations under controlled schedules"):
        return
    ctx.samples.append(dict(spec="ErrorIdsTrace", script=scripts[0], history=traces[0]))
    pb = ctx.build("gxverif/c26", gopath=ctx.plain("errors"))
    names = ["", "x", "disk full", "100%", "%s %d", "a(b)", "Fehler ü", "#1", "same", "same", "tab\there"]

    def op():
        r = rng.random()
        if r < 0.3:
            return ["reg", rng.choice(names)]
        i = rng.choice([0, 0, 1, 2, 5, 501, 500, 1000, 1001, 1002, 1003, 1004, 9999, 10000, 65536, 2147483647])
        if r < 0.85:
            f = rng.choice(["get", "str", "new", "newf", "newf"])
            if f != "newf":
                return [f, i]
            return [f, i] + rng.choice([["plain", "plain"], ["1-x", "%d-%s", 1, "x"], ["5%", "5%%"], ["", ""], ["[a b]", "[%s %v]", "a", "b"], ["[1 2]", "%v", "[]"]])
        if r < 0.93:
            return ["std", rng.choice(["io", "50% done", "%d%s%v", "", "(x)"])]
        return ["plain"] + rng.choice([["abc", "abc"], ["n=3", "n=%d", 3], ["%", "%%"]])
    # ids of other histories of the same process are valid but their names unknown here: only ask within this one
    seq = []
    for _ in range(ctx.pick(120, 1000)):
        s, n = [["start"]], 0
        for _ in range(rng.randrange(3, 25)):
            o = op()
            if o[0] == "reg":
                n += 1
            elif o[0] in ("get", "str", "new", "newf"):
                k = o[1]
                if k == 500 and not n:
                    k = 1002
                if k < 500:
                    k = min(k, n - 1) if n else 1001
                elif 1003 <= k <= 9999:
                    k = 1000
                o = [o[0], k] + o[2:]
            s.append(o)
        seq.append(s)
    seq.insert(0, [["start"], ["show"], ["reg", "one"], ["show"], ["str", 0], ["str", 1001], ["str", 1002], ["get", 1001], ["get", 1002], ["get", 501], ["get", 1000], ["std", "x"]])
    seq.append([["start"], ["reg", "z"], ["show"]])
    if not ctx.check("ErrorIdsTrace", pb, seq, "", "sequential histories"):
        return
    for k, n in ((1, 8997), (1, 9100), (4, 9500), (8, 9500)):
        full = [[["start"], ["mass", n - 3, k], ["mass", 5, k], ["reg", "late"], ["show"], ["get", 10000], ["std", "y"], ["reg", "later"], ["get", 1000]]]
        if n == 8997:       # one by one up to and over the limit
            full = [[["start"], ["mass", 8995, 1], ["reg", "p"], ["reg", "q"], ["reg", "r"], ["reg", "s"], ["get", 0], ["get", 1], ["str", 0], ["get", 10000], ["new", 9999], ["show"]]]
        if not ctx.check("ErrorIdsTrace", pb, full, "", "up to the limit, %d goroutines" % k):
            return
    ctx.assumptions.append("interleavings at shared-memory operations of an instrumented copy of errors, sequentially consistent; one registry per process")
    ctx.extra["bounds"] = "schedules of up to 3 goroutines and 4 operations; the whole id range filled by 1, 4 and 8 goroutines"
