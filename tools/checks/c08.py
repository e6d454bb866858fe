DES = """SPECIFICATION Spec
CONSTANTS Values = {%s} MaxLen = %d
INVARIANTS BinsSorted Older Kept Result
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""


def run(ctx):
    rng = ctx.rng
    b = ctx.build("gxverif/c08")
    n = ctx.pick(6, 7)
    ins = ctx.gen("MergeBins", DES % ("500,501,502", n), "all lists over 3 values up to length %d through the merge-bin algorithm" % n, prune=False)
    m = ctx.pick(9, 12)
    ins += ctx.gen("MergeBins", DES % ("0,1000", m), "all lists over 2 values up to length %d" % m, prune=False)
    scripts = []
    tails = [[["sort"]], [["rev"], ["sort"]], [["push", 501], ["sort"]], [["pop"], ["sort"], ["rev"]], [["pop"], ["pop"], ["push", 0], ["rev"], ["sort"]]]
    for i, v in enumerate(ins):
        for k in "ds":
            scripts.append([["fill", k, v], ["sort"]] + tails[(i * 7 + i // 5) % 5])
    lens = list(range(0, 70)) + [127, 128, 129, 255, 256, 257, 500] + [1000, 1024, 1025, 2048, 2049]
    for ln in lens:
        for k in "ds":
            for _ in range(ctx.pick(3, 12)):
                pool = rng.choice([[500], [0, 1000], [0, 1, 2, 3, 997, 998, 999, 1000], list(range(0, 1001)), list(range(498, 503))])
                v = [rng.choice(pool) for _ in range(ln)]
                r = rng.random()
                if r < 0.15:
                    v.sort()
                elif r < 0.3:
                    v.sort(reverse=True)
                elif r < 0.4 and ln > 1:
                    v.sort()
                    v.append(v.pop(0))
                s = [["fill", k, v], ["sort"]]
                for _ in range(rng.randrange(0, 8)):
                    s.append(rng.choice([["push", rng.choice(pool)], ["pop"], ["rev"], ["sort"]]))
                    if ln > 12:
                        s.append(["set", rng.randrange(0, 10000), rng.choice(pool)])
                s.append(["sort"])
                scripts.append(s)
    for ln in ctx.pick([4097, 17000, 66000], [4095, 4096, 4097, 8193, 16385, 33000, 66000]):
        for k in "ds":
            v = [rng.choice([rng.randrange(0, 1001), 500, 501]) for _ in range(ln)]
            scripts.append([["fill", k, v], ["sort"], ["rev"], ["sort"]])
    vals = [0, 1, 2, 3, 400, 499, 500, 501, 502, 997, 998, 999, 1000]
    for how, names in (("name", ["", "Lesser", "Greater", "lesser", "greater", "GREATER", "Less", "x", " ", "Lesser ", "Equal", "0"]),
                       ("bool", ["Lesser", "Greater"]), ("method", ["Lesser", "Greater"]), ("zero", ["Lesser"])):
        for nm in names:
            for x in vals:
                scripts.append([["cmp", how, nm, x, y] for y in vals])
    ctx.check("SortTrace", b, scripts, "", "sorting histories", together=400)
    ctx.extra["bounds"] = "all lists over 3 values up to length %d and over 2 values up to length %d, both list kinds; seeded lists up to length %d" % (n, m, 66000)
