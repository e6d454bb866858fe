NAMES = ["", "Lesser", "Greater", "lesser", "greater", "GREATER", "Less", "x", " ", "Lesser ", " Greater", "Equal", "0", "Lesser\0", "LesserGreater"]


def run(ctx):
    rng = ctx.rng
    ctx.design("OrdersCheck", "SPECIFICATION Spec\nCONSTANTS Bytes = {0,97,255} MaxLen = %d Sizes = {0,1}\nINVARIANTS Irreflexive Converse Transitive\nCHECK_DEADLOCK FALSE\n"
               % ctx.pick(2, 3), "strict weak orders, converses", min_states=10000)
    b = ctx.build("gxverif/c36")
    ranks = [0, 1, 2, 3, 400, 499, 500, 501, 502, 997, 998, 999, 1000]
    texts = [[], [0], [97], [98], [97, 97], [97, 98], [97, 0], [255], [255, 0], [127], [128], [194, 128], [48] * 32, [48] * 31 + [49], [48] * 33]
    files = [(s, h) for s in range(11) for h in texts[:4] + [texts[4 + s % 11]]]
    for kind in ("int", "node", "file"):
        vals = [[r] for r in ranks] if kind != "file" else [[s, h] for s, h in files]
        some = vals if kind != "file" else [[s, h] for s in (0, 5, 10) for h in texts[:3]]
        scripts = []
        pre = [["of", -1, "Lesser"], ["of", -1, "Greater"], ["code", 0], ["code", 1], ["code", 2], ["code", 255]]
        for nm in NAMES:
            for frm in (-1, 0, 1, 4):
                scripts.append(pre + [["name", frm, nm]] + [x for i in range(1, 8) for x in ([["text", i]] + [["hold", i] + u + v for u in some[:4] for v in some[:4]])])
        for x in vals:
            ys = vals if kind != "file" or ctx.tier == "thorough" else [vals[rng.randrange(len(vals))] for _ in range(40)] + [x]
            s = pre[:2] + [["bool", 0, True], ["bool", 1, False], ["of", 1, "Greater"], ["of", 2, "Lesser"], ["name", -1, ""], ["name", 2, "Lesser"], ["name", 1, "Greater"]]
            for y in ys:
                s.append(["hold", rng.randrange(1, 3)] + x + y)
                s.append(["hold", rng.randrange(1, 10)] + y + x)
                if kind != "int":
                    s.append(["less", rng.randrange(2)] + x + y)
            scripts.append(s)
        for _ in range(ctx.pick(120, 2500)):
            s = list(pre[:1])
            for _ in range(rng.randrange(5, 60)):
                r = rng.random()
                x, y = rng.choice(vals), rng.choice(vals)
                if kind == "file" and rng.random() < 0.7:
                    h = [rng.choice([0, 48, 49, 97, 255]) for _ in range(rng.randrange(0, 40))]
                    g = list(h)
                    if g and rng.random() < 0.8:
                        g[rng.randrange(len(g))] = rng.choice([0, 48, 49, 97, 255])
                    x, y = [rng.randrange(11), h], [rng.randrange(11), g[:rng.randrange(len(g) + 1)] if rng.random() < 0.3 else g]
                    if rng.random() < 0.7:
                        y[0] = x[0]
                if kind != "file" and rng.random() < 0.5:
                    x, y = [rng.randrange(0, 1001)], [rng.randrange(0, 1001)]
                if r < 0.1:
                    s.append(["name", rng.randrange(-1, 5), rng.choice(NAMES)])
                elif r < 0.15:
                    s.append(["bool", rng.randrange(5), rng.random() < 0.5])
                elif r < 0.2:
                    s.append(["of", rng.randrange(-1, 5), rng.choice(["Lesser", "Greater"])])
                elif r < 0.23:
                    s.append(["code", rng.randrange(256)])
                elif r < 0.3:
                    s.append(["text", rng.randrange(1, 9)])
                elif r < 0.5 and kind != "int":
                    s.append(["less", rng.randrange(2)] + x + y)
                else:
                    s.append(["hold", rng.randrange(1, 9)] + x + y)
            scripts.append(s)
        if not ctx.check("OrdersTrace", b, scripts, "", "comparators of %s" % kind, args=["-kind", kind], together=400):
            return
    ctx.extra["bounds"] = "all pairs of 13 boundary integers and nodes, pairs of 55 file digests, all names; seeded histories"
