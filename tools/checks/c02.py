from gens import histories, sweep, bulks, giants

GEN = """SPECIFICATION QSpec
CONSTANTS Values = {1} InitCaps = {%s} MaxCap = %d MinCap = 8 Record = TRUE
VIEW GenView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""
DES = """SPECIFICATION QSpec
CONSTANTS Values = {1,2} InitCaps = {1,2,3} MaxCap = %d MinCap = 3 Record = FALSE
CONSTRAINT Short
ACTION_CONSTRAINT Bound
INVARIANTS TypeOK Roomy
PROPERTY QRefines
CHECK_DEADLOCK FALSE
"""


def run(ctx):
    ctx.design("RingQueue", DES % ctx.pick(6, 8), "ring buffer refines FIFO queue")
    b = ctx.build("gxverif/c02")
    scripts = ctx.gen("RingQueue", GEN % (ctx.pick("1,3,8,9", "1,2,3,5,7,8,9,10"), ctx.pick(17, 36)), "every (head,tail,cap,op)")
    rng = ctx.rng
    scripts += sweep(rng, ctx.pick(40, 70), ["pb"], ["xf"])
    news = [-99, -1, 0, 1, 2, 3, 4, 7, 8, 9, 16]
    oth = ["sh", "sh", "sh", "front", "back", "cl", ["init", -1], ["init", 0], ["init", 20]]
    scripts += histories(rng, ctx.pick(200, 2000), 200, ["pb"], ["xf"], oth, news)
    scripts += histories(rng, ctx.pick(4, 30), 6000, ["pb"], ["xf"], ["sh", "front", "back"], news)
    scripts += bulks(rng, ctx.pick(40, 200), ctx.pick(9000, 40000), ["pbn"], ["xfn"])
    scripts += giants(rng, ctx.pick((33000, 66000, 132000), (33000, 66000, 132000, 264000)), ["pbn"], ["xfn"])
    ctx.check("QueueTrace", b, scripts, "CONSTANTS Values = {} Caps = {}\n", "queue histories", together=400)
    ctx.extra["bounds"] = "ring model: capacities up to %d exhaustively per (head,tail,cap,op); histories up to 6000 operations, contents up to %d elements, some of 132000" % (ctx.pick(17, 36), ctx.pick(9000, 40000))
