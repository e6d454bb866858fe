import itertools
from checks_common import words, CONST

SAFE = "SPECIFICATION Spec\nCONSTANTS Procs = {%s} Misuse = TRUE CanGiveUp = TRUE\nINVARIANTS Mutex Held NoPanic\nCHECK_DEADLOCK FALSE\n"
LIVE = "SPECIFICATION FairSpec\nCONSTANTS Procs = {%s} Misuse = FALSE CanGiveUp = FALSE\nINVARIANTS Mutex\nPROPERTIES Progress\nCHECK_DEADLOCK FALSE\n"


def run(ctx):
    ctx.design("SpinLockAlg", SAFE % ctx.pick('"a","b","c"', '"a","b","c","d"'), "mutual exclusion, any schedule, give-ups and wrong unlocks")
    ctx.design("SpinLockAlg", LIVE % '"a","b"', "a waiting goroutine gets the lock (fair schedules)")
    ctx.instrument("sync")
    b = ctx.build("gxverif/c11")
    ws = words("LU", 3)
    progs = [list(p) for p in itertools.combinations_with_replacement(ws, 2)]
    lu, u = ["L", "U"], ["U"]
    progs += [[lu, lu, lu], [lu + lu, lu, lu], [lu + lu, lu + lu, lu + lu], [lu, lu, u], [lu + lu, lu, u], [["L"], lu, u], [["L"], lu, lu], [["L"], ["L"], u],
              [u, u, lu], [["L"], u, u], [["L", "L"], u, u], [lu, lu, lu, lu], [lu, lu, lu, u], [u, lu + lu, ["U", "L", "U"]]]
    if not ctx.quick:
        ws2 = words("LU", 2)
        progs += [list(p) for p in itertools.combinations_with_replacement(ws2, 3)]
        progs += [[lu * 3, lu * 3], [lu * 4, lu * 4], [lu * 2, lu * 2, lu * 2, lu], [lu + u, lu + u, lu]]
    jobs = [dict(kind="spin", progs=p, preempt=3 if len(p) > 3 else 99, max=ctx.pick(20000, 300000)) for p in progs]
    traces, scripts = ctx.explore(b, jobs, "spin lock programs")
    if not ctx.validate("LocksTrace", traces, scripts, b, (), CONST, "spin lock histories under controlled schedules"):
        return
    ctx.samples.append(dict(spec="LocksTrace", program=progs[-1], history=traces[len(traces) // 2]))
    solo = [[["solo", "spin", "L", "L", at]] for at in (0, 1, 2, 3, 1000, 1 << 20, 1 << 23)]
    if not ctx.check("LocksTrace", b, solo, CONST, "waiting up to and beyond the spin limit"):
        return
    pb = ctx.build("gxverif/c11", gopath=ctx.plain("sync"))
    free = [[["free", "spin", [["L", "U"] * 40] * n]] for n in (2, 3, 4) for _ in range(ctx.pick(10, 200))]
    ctx.check("LocksTrace", pb, free, CONST, "free-running goroutines on the package as it is")
    ctx.assumptions.append("interleavings at shared-memory operations of an instrumented copy of sync/*.go, sequentially consistent")
    ctx.extra["bounds"] = "all schedules of all pairs of programs of up to 3 calls and %d larger programs (4 goroutines: 3 preemptions)" % (len(progs) - 105)
