DES = "SPECIFICATION Spec\nCONSTANT MaxNodes = %d\nINVARIANT Inv\nPROPERTY Refines\nCHECK_DEADLOCK FALSE\n"
GEN = """SPECIFICATION GenSpec
CONSTANTS MaxNodes = %d MaxLen = %d Both = %s Mode = "%s"
ACTION_CONSTRAINT Emit
INVARIANT Wellformed
CHECK_DEADLOCK FALSE
%s
"""


def run(ctx):
    ctx.design("PtrList", DES % ctx.pick(3, 4), "pointer list refines node sequence")
    b = ctx.build("gxverif/c06")
    scripts = ctx.gen("DListGen", GEN % (ctx.pick(3, 4), 99, "TRUE", "cover", "VIEW FullView"), "every transition over labelled nodes, two lists")
    scripts += ctx.gen("DListGen", GEN % (ctx.pick(4, 6), 99, "TRUE", "cover", "VIEW CountView"), "every position, larger lists")
    scripts += ctx.gen("DListGen", GEN % (12, 40, "TRUE", "sim", ""), "random histories, two lists", simulate=ctx.pick(120, 2000), depth=41)
    scripts += ctx.gen("DListGen", GEN % (9, 60, "FALSE", "sim", ""), "random histories, one list", simulate=ctx.pick(80, 1000), depth=61)
    scripts = [s + [["finale"]] if i % 5 == 0 or len(s) > 30 else s for i, s in enumerate(scripts)]
    n = ctx.pick(2600, 12000)  # long lists: nothing may depend on a count of nodes
    scripts.append([["pushMany", 1, n, 5, "B"], ["reach", 1, 1, n], ["reach", 1, n, 1], ["reach", 1, 1, n // 2], ["reach", 1, 2, 1], ["pushMany", 2, 70, 6, "F"],
                    ["reach", 1, 1, n + 1], ["reverse", 1], ["moveFront", 1, n // 2], ["moveBack", 1, n // 3], ["moveBefore", 1, 1, n], ["moveAfter", 1, n, 2],
                    ["remove", 1, n // 2 + 7], ["popBack", 1], ["popFront", 1], ["rotF", 1], ["rotB", 1], ["insFrontList", 1], ["reach", 1, n + 1, 5], ["reach", 1, 5, n + 70],
                    ["insBackList", 2], ["insFrontList", 1], ["pushAfter", 1, 8, 9], ["insFront", 1, n // 2 + 7], ["visit", 1, "PPNPNRNNP"], ["clear", 1], ["pushBack", 1, 4]])
    scripts += [[["big", k]] for k in (6, 7, 255, 256, 1000, 32768, 65536, 70000)]
    ctx.check("DListTrace", b, scripts, "", "list histories", together=400)
    ctx.extra["bounds"] = "all transitions with %d labelled nodes in two lists, all positions up to %d nodes, random histories of 40-60 operations, one list of %d nodes under all checks and of 140000 in a fixed history" % (ctx.pick(3, 4), ctx.pick(4, 6), n)
