CFG = """SPECIFICATION Spec
CONSTANTS Values = {%s} MaxLen = %d
INVARIANTS MakeOK PushOK PopOK SortOK
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""


def heap(rng, vals, n, mt):
    s = sorted((rng.choice(vals) for _ in range(n)), reverse=mt)
    if rng.random() < 0.5:      # other valid heaps than the sorted one: perturb along the levels
        for i in range(n - 1, 1, -1):
            p, j = (i - 1) // 2, rng.randrange(max(1, i // 2), i + 1)
            t = s[:]
            t[i], t[j] = t[j], t[i]
            if all((t[k] <= t[(k - 1) // 2]) if mt else (t[k] >= t[(k - 1) // 2]) for k in range(1, n)):
                s = t
    return s


def run(ctx):
    b = ctx.build("gxverif/c05")
    n = ctx.pick(6, 8)
    sl = ctx.gen("HeapSlices", CFG % ("0,500,1000", n), "all slices over 3 values up to length %d (algorithms checked on each)" % n, prune=False)
    sl.append([[], True, True])
    steps = []
    for s, hmax, hmin in sl:
        for m, ish in ((True, hmax), (False, hmin)):
            steps += [["make", m, s], ["check", m, s], ["sort", m, s]]
            if ish:
                steps.append(["pop", m, s])
                steps += [["push", m, s, v] for v in (0, 499, 500, 1000)]
        steps.append(["rev", True, s])
    rng = ctx.rng
    for k in range(ctx.pick(1500, 15000)):
        ln = rng.choice([rng.randrange(0, 12), rng.randrange(0, 40), rng.randrange(0, 130)])
        vals = rng.choice([[0, 1, 2, 3, 997, 998, 999, 1000], list(range(480, 520)), list(range(0, 1001))])
        m = rng.random() < 0.5
        a = [rng.choice(vals) for _ in range(ln)]
        if rng.random() < 0.2:
            a.sort(reverse=rng.random() < 0.5)
        h = heap(rng, vals, ln, m)
        near = h[:]
        if ln > 2:      # a slice that violates the heap order in exactly one place, or nearly
            near[rng.randrange(1, ln)] = rng.choice(vals)
        steps += [["make", m, a], ["check", m, a], ["sort", m, a], ["rev", m, a], ["check", m, near],
                  ["check", m, h], ["pop", m, h], ["push", m, h, rng.choice(vals)]]
    for k in range(ctx.pick(14, 60)):       # large slices
        ln = [255, 256, 257, 1023, 1024, 1025, 1500, 2047, 2048, 2049][k % 10]
        m, vals = k % 2 == 0, list(range(0, 1001))
        a = [rng.choice(vals) for _ in range(ln)]
        if k % 3:
            a.sort(reverse=k % 3 == 1)
        h = sorted(a, reverse=m)
        steps += [["make", m, a], ["sort", m, a], ["rev", m, a], ["pop", m, h], ["push", m, h, rng.choice(vals)]]
    for ln in (4095, 8193, 20000, 40001, 70000):      # very large ones: the check, and heaps by construction
        for m in (True, False):
            h = sorted((rng.randrange(1, 1000) for _ in range(ln)), reverse=m)
            bad = 1000 if m else 0
            steps += [["check", m, h], ["rev", m, h]]
            for at in (1, ln // 2, ln - 2, ln - 1, rng.randrange(1, ln)):
                steps.append(["check", m, h[:at] + [bad] + h[at + 1:]])
            if not m:       # (sorted upwards)
                steps += [["make", m, h], ["push", m, h, 1000]]
    big = []
    for ln in ctx.pick((3000, 33000, 70001), (3000, 33000, 70001, 131073, 200000)):     # large and in no order
        for m in (True, False):
            a = [rng.randrange(0, 1001) for _ in range(ln)]
            h = sorted(a, reverse=m)
            big += [[["make", m, a]], [["sort", m, a]], [["pop", m, h]], [["push", m, h, 1000 if m else 0]], [["push", m, h, rng.randrange(0, 1001)]]]
    scripts = big + [steps[i:i + 50] for i in range(0, len(steps), 50)]
    ctx.check("HeapSlicesTrace", b, scripts, "", "calls of the slice algorithms", together=400)
    ctx.extra["calls"] = len(steps)
    ctx.extra["bounds"] = "all slices over 3 values up to length %d, both orders; seeded slices up to length 130, some up to 2049, checked up to 70000, and up to %d in random order" % (n, ctx.pick(70001, 200000))
