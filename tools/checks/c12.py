import itertools
from checks_common import words, CONST

SAFE = "SPECIFICATION Spec\nCONSTANTS Procs = {%s} MaxR = 10 Misuse = TRUE CanGiveUp = TRUE\nINVARIANTS Excl NoPanic Count WOwner NoLoss\nCHECK_DEADLOCK FALSE\n"
LIVE = "SPECIFICATION FairSpec\nCONSTANTS Procs = {%s} MaxR = 10 Misuse = FALSE CanGiveUp = FALSE\nINVARIANTS Excl\nPROPERTIES WriterIn ReaderIn\nCHECK_DEADLOCK FALSE\n"


def run(ctx):
    ctx.design("RWLockAlg", SAFE % ctx.pick('"a","b","c"', '"a","b","c","d"'), "exclusion and bookkeeping, any schedule, give-ups and wrong releases")
    ctx.design("RWLockAlg", LIVE % ctx.pick('"a","b"', '"a","b","c"'), "waiting writers and readers get in (fair schedules)")
    ctx.instrument("sync")
    b = ctx.build("gxverif/c11")
    rng = ctx.rng
    lu, r = ["L", "U"], ["RL", "RU"]
    legal = [lu, r, lu + lu, r + r, lu + r, r + lu, ["RL", "RL", "RU", "RU"], ["L"], ["RL"]]
    wrong = [["U"], ["RU"], ["U", "L", "U"], ["RU", "RL", "RU"], ["RU", "U"], ["L", "RU"], ["RL", "U"], ["L", "U", "U"], ["RL", "RU", "RU"]]
    progs = [list(p) for p in itertools.combinations_with_replacement(legal, 2)]
    progs += [list(p) for p in itertools.product(legal, wrong)]
    progs += [list(p) for p in itertools.combinations_with_replacement(wrong, 2)]
    three = [list(p) for p in itertools.combinations_with_replacement([lu, r, ["L"], ["RL"], ["U"], ["RU"]], 3)]
    three += [[r + r, lu, lu], [r + r, r + r, lu], [r, r, lu + lu], [lu + r, r + lu, r], [r + r, lu + lu, r]]
    jobs = [dict(kind="rw", progs=p, preempt=k, max=ctx.pick(2500, 100000)) for p in progs for k in (3, 99)]
    jobs += [dict(kind="rw", progs=p, preempt=ctx.pick(2, 4), max=ctx.pick(4000, 200000)) for p in three]
    four = [[r, r, lu, lu], [r, r, r, lu], [r + r, r, lu, ["RU"]], [r, lu, lu, ["U"]], [["RL"], r, lu, ["RU"]]]
    jobs += [dict(kind="rw", progs=p, preempt=ctx.pick(2, 3), max=ctx.pick(3000, 300000)) for p in four]
    allw = words(["L", "U", "RL", "RU"], 3)
    for _ in range(ctx.pick(100, 1500)):
        jobs.append(dict(kind="rw", progs=[rng.choice(allw) for _ in range(rng.choice([2, 2, 3]))], preempt=2, max=ctx.pick(1000, 20000)))
    traces, scripts = ctx.explore(b, jobs, "reader/writer programs")
    if not ctx.validate("LocksTrace", traces, scripts, b, (), CONST, "reader/writer histories under controlled schedules"):
        return
    ctx.samples.append(dict(spec="LocksTrace", script=scripts[len(scripts) // 2], history=traces[len(traces) // 2]))
    solo = [[["crowd", k]] for k in (1, 2, 127, 129, 300, 40000, 70000, ctx.pick(200000, 20000000))]
    solo += [[["solo", "rw", g, f, at]] for g, f in (("L", "L"), ("L", "RL"), ("RL", "L")) for at in (0, 1, 2, 3, 4, 1000, 1 << 22)]
    if not ctx.check("LocksTrace", b, solo, CONST, "waiting up to and beyond the spin limit"):
        return
    pb = ctx.build("gxverif/c11", gopath=ctx.plain("sync"))
    free = []
    for _ in range(ctx.pick(30, 500)):
        ps = []
        for _ in range(rng.choice([2, 3, 4])):
            p = []
            for _ in range(rng.choice([10, 30])):
                p += rng.choice([lu, r, r])
            ps.append(p)
        free.append([["free", "rw", ps]])
    ctx.check("LocksTrace", pb, free, CONST, "free-running goroutines on the package as it is")
    ctx.assumptions.append("interleavings at shared-memory operations of an instrumented copy of sync/*.go, sequentially consistent")
    ctx.extra["bounds"] = "all schedules (up to the cap per program) of %d two-goroutine programs; %d three- and four-goroutine programs with 2-4 preemptions; up to %d readers inside together" % (len(progs), len(three) + len(four), ctx.pick(200000, 20000000))
