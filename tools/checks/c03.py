from gens import histories, bulks, giants

GEN = """SPECIFICATION GenSpec
CONSTANTS MaxLen = %d
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""


def run(ctx):
    b = ctx.build("gxverif/c03")
    n = ctx.pick(7, 9)
    scripts = ctx.gen("Stack", GEN % n, "all histories up to %d operations" % (n - 1))
    news = [-99, -1, 0, 1, 2, 10, 11]
    inits = [["init", c] for c in (-5, -1, 0, 1, 10, 11, 300)]
    scripts += histories(ctx.rng, ctx.pick(200, 2000), 150, ["push"], ["pop"], ["cl", "top"] + inits, news)
    scripts += histories(ctx.rng, ctx.pick(3, 20), 5000, ["push"], ["pop"], ["top", "top", "top", ["init", -1]], news)
    scripts += bulks(ctx.rng, ctx.pick(40, 200), ctx.pick(9000, 40000), ["pushn"], ["popn"], None)
    scripts += giants(ctx.rng, ctx.pick((33000, 66000, 132000), (33000, 66000, 132000, 264000)), ["pushn"], ["popn"], None)
    ctx.check("StackTrace", b, scripts, "CONSTANTS MaxLen = 0\n", "stack histories", together=400)
    ctx.extra["bounds"] = "all histories of %d operations from 5 initial capacities; seeded histories up to 5000 operations, contents up to %d elements, some of 132000" % (n - 1, ctx.pick(9000, 40000))
