import itertools

ALG = "SPECIFICATION Spec\nCONSTANTS Procs = {%s} PerProc = %d Atomic = %s\nINVARIANT Unique\nCHECK_DEADLOCK FALSE\n"


def run(ctx):
    ctx.design("NullHashAlg", ALG % ('"a","b","c"', 2, "TRUE"), "atomic counter gives unique ids")
    r = ctx.tlc("NullHashAlg", ALG % ('"a","b"', 1, "FALSE"))
    if "Invariant Unique is violated" not in r.out:
        raise RuntimeError("the split counter should have been refuted")
    ctx.instrument("hash")
    b = ctx.build("gxverif/c17")
    rng = ctx.rng
    progs = [[["new"] * k] * n for n in (2, 3) for k in (1, 2, 3)]
    life = ["new", "write", "sum", "reset", "sum"]
    progs += [[life, life], [life, ["new", "new"]], [life, life, ["new"]], [life + ["new", "sum", "write", "sum"], life], [["new"]] * 4]
    jobs = [dict(progs=p, preempt=k, max=ctx.pick(5000, 200000)) for p in progs for k in (2, 99)]
    traces, scripts = ctx.explore(b, jobs, "concurrent creations")
    if not ctx.validate("NullHashTrace", traces, scripts, b, (), "", "creations under controlled schedules"):
        return
    ctx.samples.append(dict(spec="NullHashTrace", script=scripts[0], history=traces[0]))
    pb = ctx.build("gxverif/c17", gopath=ctx.plain("hash"))
    seq = []
    for _ in range(ctx.pick(60, 600)):
        s = [["made"]]
        for _ in range(rng.randrange(5, 60)):
            s.append(rng.choice([["made"], ["sum", rng.randrange(100), rng.choice([0, 0, 1, 5]), rng.choice([0, 2, 50])],
                                 ["write", rng.randrange(100), rng.choice([0, 1, 64, 1000])], ["reset", rng.randrange(100)]]))
        seq.append(s)
    if not ctx.check("NullHashTrace", pb, seq, "", "sequential histories"):
        return
    if not ctx.check("NullHashTrace", pb, [[["huge", n, g]] for n, g in ctx.pick([((1 << 24) + 70000, 4)], [((1 << 24) + 70000, 1), (1 << 28, 8)])], "", "mass creation (identities beyond 24 bits)"):
        return
    ctx.check("NullHashTrace", pb, [[["many", ctx.pick(70000, 300000), g]] for g in (1, 4)], "", "mass creation (identities beyond 16 bits), one and four goroutines")
    ctx.assumptions.append("interleavings at shared-memory operations of an instrumented copy of hash/*.go, sequentially consistent; identities are 32-bit (2^32 creations not exhausted)")
    ctx.extra["bounds"] = "schedules of up to 4 goroutines and 3 creations each; 2^24 (thorough 2^28) creations in one process, counted"
