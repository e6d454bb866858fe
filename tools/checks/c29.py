import itertools
from fslib import *


def run(ctx):
    rng = ctx.rng
    b = ctx.build("gxverif/c29")
    contain(ctx)
    sets = [list(c) for n in range(6) for c in itertools.combinations(ALL, n)]

    def obs(rows, s, full):
        ds = [[]] + [r[0] for r in rows if r[1] == "d"]
        for o in (sets if full else rng.sample(sets, 6)):
            s.append([rng.choice(["list", "list", "list/rel"]), "c", rng.choice(ds), o])
        for h in ("leafdirs", "dirs", "files", "subs", "deepfiles"):
            s.append([rng.choice(["list", "list/rel"]), h, rng.choice(ds), []])
        for _ in range(2):
            p = rng.choice([[]] + [r[0] for r in rows])
            s.append([rng.choice(["stat", "stat/rel"]), p])
            s.append([rng.choice(["list", "list/rel"]), "c", p, rng.choice(sets)] if not any(r[0] == p and r[1] == "l" for r in rows) else ["stat", []])
        s.append(["stat", ["missing"]])
        s.append(["list", "c", ["missing", "x"], ["dir", "file"]])
        s.append(["list", "leafdirs", [], []])
        s.append(["stat", []])
        s.append([rng.choice(["walk", "walk/rel"]), rng.choice(ds)])
        s.append([rng.choice(["walk", "walk/rel"]), rng.choice(ds), "skip", rng.choice(ds)])
        s.append([rng.choice(["walk", "walk/rel"]), rng.choice(ds), "err", rng.choice(ds + [r[0] for r in rows])])
        s.append(["walk", ["missing"]])
    sc = []
    # all trees of up to three nodes below the root
    shapes = []
    P = [["a"], ["b"], ["a", "a"], ["a", "b"], ["b", "a"], ["a", "a", "a"]]
    for n in range(0, ctx.pick(4, 5)):
        for ps in itertools.combinations(P, n):
            for ks in itertools.product("df", repeat=n):
                if all(len(p) == 1 or any(q == p[:-1] and k == "d" for q, k in zip(ps, ks)) for p in ps):
                    shapes.append([[p, k] + ([[[97, 3]]] if k == "f" else []) for p, k in zip(ps, ks)])
    for rows in shapes:
        s = [["tree", rows]]
        for o in sets:
            s.append(["list", "c", [], o])
        obs(rows, s, False)
        sc.append(s)
    for _ in range(ctx.pick(150, 1500)):
        rows = tree(rng, rng.randrange(0, 25), big=rng.random() < 0.2)
        s = [["tree", rows]]
        if rng.random() < 0.4:
            modes(rng, rows, s)
        obs(rows, s, True)
        sc.append(s)
    wide = [[["f%03d" % i], "f", [[97, i + 1]]] for i in range(300)] + [[["d%03d" % i], "d"] for i in range(150)]
    s = [["tree", wide]]
    obs(wide, s, True)
    sc.append(s)
    deep = [[["x"] * (i + 1), "d"] for i in range(40)]
    s = [["tree", deep]]
    obs(deep, s, True)
    sc.append(s)
    for n in ctx.pick((1100, 2500), (1100, 2500, 5000)):           # many entries
        rows = [[["f%04d" % i], "f", [[97, 1 + i % 7]]] for i in range(n)] + [[["m%d" % i], "d"] for i in range(3)]
        rows += [[["m0", "g%04d" % i], "f" if i % 9 else "d"] + ([[[98, 1]]] if i % 9 else []) for i in range(n // 20)]
        sc.append([["tree", rows], ["list", "c", [], ["file", "dir"]], ["list", "c", [], ["file", "full", "deep"]], ["list/rel", "c", [], ["dir", "full"]],
                   ["list", "deepfiles", [], []], ["list", "files", [], []], ["stat", []]])
    for n in (120, 300):           # many levels
        rows = [[["x"] * (i + 1), "d"] for i in range(n)] + [[["x"] * n + ["f"], "f", [[97, 3]]], [["x"] * (n // 2) + ["g"], "f", [[97, 3]]]]
        sc.append([["tree", rows], ["list", "c", [], ["dir", "full", "deep"]], ["list", "c", [], ["file", "deep"]], ["list/rel", "c", [], ["dir", "leaf", "full"]], ["list", "leafdirs", [], []],
                   ["list", "deepfiles", [], []], ["stat", []], ["stat", ["x"] * (n - 3)], ["walk", []]])
    for _ in range(ctx.pick(25, 250)):           # several at the same time
        rows = tree(rng, rng.randrange(5, 25), big=False)
        ds = [[]] + [r[0] for r in rows if r[1] == "d"]
        qs = [["list", "c", rng.choice(ds), rng.choice(sets)] for _ in range(8)] + [["stat", rng.choice(ds)] for _ in range(3)] + [["walk", rng.choice(ds)], ["list", "deepfiles", [], []]]
        sc.append([["tree", rows], ["par", qs, 15], ["stat", []]])
    for k in range(ctx.pick(60, 600)):           # trees that change between the questions, also with all times set back
        rows = tree(rng, rng.randrange(2, 15), links=False, big=False)
        s = [["retree", rows, k % 3 > 0]]
        for i in range(5):
            ds = [[]] + [r[0] for r in rows if r[1] == "d"]
            s += [["list", "c", [], ["dir", "file", "full", "deep"]], ["list", "leafdirs", [], []], ["list", "c", rng.choice(ds), ["dir", "file"]], ["stat", []], ["walk", []], [rng.choice(["stat", "stat/rel"]), rng.choice(ds)]]
            rows = edited(rng, rows)
            s.append(["retree", rows, k % 3 > 0])
        sc.append(s + [["list", "c", [], ["dir", "file", "deep"]], ["stat", []]])
    # something cannot be read
    for _ in range(ctx.pick(120, 1200)):
        rows = tree(rng, rng.randrange(2, 20), big=False)
        ds = [r[0] for r in rows if r[1] == "d"]
        if not ds:
            continue
        s = [["tree", rows]]
        sh = rng.choice(ds)
        s.append(["shut", sh])
        ok = [[]] + [d for d in ds if d[:len(sh)] != sh] + [sh]
        for _ in range(8):
            s.append([rng.choice(["list", "list/rel"]), "c", rng.choice(ok), rng.choice(sets)])
            s.append([rng.choice(["stat", "stat/rel"]), rng.choice(ok)])
        for p in [[]] + rng.sample(ok, min(2, len(ok))):
            s.append([rng.choice(["walk", "walk/rel"]), p])
            s.append(["walk", p, rng.choice(["skip", "err"]), rng.choice(ok)])
        s += [["list", h, [], []] for h in ("leafdirs", "dirs", "files", "subs", "deepfiles")] + [["stat", []], ["open", sh], ["stat", []], ["list", "deepfiles", [], []]]
        sc.append(s)
    for rows in ([["x", [4096, 1]], ["y", [0, 3]]], [["x", [2048, 0]]], [["x", [4096, 0]], ["y", [2047, 1048575]], ["z", [9000, 77]]], [["a", [1 << 20, 5]]]):
        sc.append([["sparse", rows, "stat"]])
    if not ctx.check("FsTreeTrace", b, sc, "", "listings and counts"):
        return
    ctx.extra["bounds"] = "all trees of up to %d nodes over 6 paths with all 32 option sets at the root; seeded larger trees; up to 300 levels and thousands of entries; sparse files of up to 1 TB" % ctx.pick(3, 4)
