GEN = """SPECIFICATION GenSpec
CONSTANTS MaxNodes = %d MaxLen = %d Mode = "%s"
ACTION_CONSTRAINT Emit
INVARIANT Wellformed
CHECK_DEADLOCK FALSE
%s
"""


def run(ctx):
    b = ctx.build("gxverif/c07")
    scripts = ctx.gen("SList", GEN % (ctx.pick(3, 4), 99, "cover", "VIEW FullView"), "every transition over labelled nodes, two lists")
    scripts += ctx.gen("SList", GEN % (ctx.pick(5, 6), 99, "cover", "VIEW CountView"), "every position, larger lists")
    scripts += ctx.gen("SList", GEN % (12, 50, "sim", ""), "random histories, two lists", simulate=ctx.pick(200, 3000), depth=51)
    scripts = [s + [["finale"]] if i % 4 == 0 or len(s) > 30 else s for i, s in enumerate(scripts)]
    scripts.append([["cycle", k, m] for k in range(0, 12) for m in range(0, 12)])
    n = ctx.pick(2600, 12000)  # long lists and rings: nothing may depend on a count of nodes
    scripts.append([["cycle", k, m] for k, m in ((5000, 0), (5000, 3), (1, 5000), (7, 9000), (70000, 5), (2, 70000), (0, 70000))])
    scripts.append([["pushMany", 1, n, 5], ["reach", 1, n, 1], ["reach", 1, 1, n], ["reach", 1, n, n // 2], ["tail", 1, n], ["tail", 1, 5], ["pushMany", 2, 70, 6], ["reach", 1, 1, n + 1],
                    ["reverse", 1], ["tail", 1, 1], ["moveFront", 1, n // 2], ["moveFront", 1, n], ["moveAfter", 1, 1, n // 3], ["remove", 1, n // 2 + 7], ["popFront", 1],
                    ["pushFrontList", 1], ["pushFrontList", 2], ["pushAfter", 2, 8, 9], ["insAfter", 2, n // 2 + 7, 4], ["remove", 2, n // 3], ["clear", 2], ["pushFront", 2, 4]])
    scripts += [[["big", k]] for k in (6, 7, 255, 256, 1000, 32768, 65536, 70000)]
    ctx.check("SListTrace", b, scripts, "CONSTANTS MaxNodes = 0 MaxLen = 0 Mode = \"\"\n", "list histories", together=400)
    ctx.extra["bounds"] = "all transitions with %d labelled nodes in two lists, all positions up to %d nodes, random histories of 50 operations, one list of %d nodes under all checks and of 140000 in a fixed history, rings and chains up to 70000 nodes" % (ctx.pick(3, 4), ctx.pick(5, 6), n)
