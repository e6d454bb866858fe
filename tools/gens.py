"""Seeded script generators shared by the sequence containers."""


def histories(rng, n, length, ops_push, ops_pop, others, news):
    """Long histories in phases: filling, draining, churning; so that buffers grow, wrap and shrink."""
    out = []
    for _ in range(n):
        s = [["new", rng.choice(news)]]
        while len(s) < length:
            phase = rng.choice(["fill", "drain", "churn", "oneside"])
            k = rng.randrange(1, max(2, length // 4))
            p = dict(fill=0.85, drain=0.15, churn=0.5, oneside=0.5)[phase]
            side_push, side_pop = rng.choice(ops_push), rng.choice(ops_pop)
            for _ in range(k):
                if rng.random() < 0.03:
                    o = rng.choice(others)
                    s.append(list(o) if isinstance(o, (list, tuple)) else [o])
                elif rng.random() < p:
                    s.append([side_push if phase == "oneside" else rng.choice(ops_push)])
                else:
                    s.append([side_pop if phase == "oneside" else rng.choice(ops_pop)])
        out.append(s[:length])
    return out


def sweep(rng, maxcap, ops_push, ops_pop):
    """For many capacities and offsets: fill exactly, one more, drain to the shrink limit, shrink, refill."""
    out = []
    for init in (-99, -1, 0, 1, 2, 3, 5, 7, 8, 9, 16, 100):
        for off in sorted(set([0, 1, 2, 3, 7, 8, 9, rng.randrange(0, 40)])):
            for push in ops_push:
                for pop in ops_pop:
                    s = [["new", init]]
                    for _ in range(off):
                        s += [[push], [pop]]
                    n = rng.choice([7, 8, 9, 15, 16, 17, 31, 32, 33, maxcap])
                    s += [[push]] * n + [["sh"]] + [[pop]] * (n * rng.randrange(5, 10) // 10)
                    s += [["sh"], ["sh"], ["sh"]] + [[push]] * rng.randrange(0, 12)
                    s += [["sh"], ["cl"], ["init", rng.choice([-1, 0, 4, 9])]]
                    s += [[push]] * rng.randrange(0, 12)
                    out.append(s)
    return out


def bulks(rng, n, top, pushes, pops, shrink="sh"):
    """Large contents, pushed and popped in bulk: sizes around the powers of two, every fill ratio."""
    out = []
    for j in range(n):
        s, size, cap = [["new", rng.choice([-99, 0, 1, 3, 8, 100, 1000, 1024])]], 0, 0
        for _ in range(rng.randrange(6, 14)):
            if rng.random() < 0.5 or size == 0:
                k = rng.choice([rng.randrange(1, 40), rng.randrange(1, 700), rng.randrange(1, top),
                                max(1, (1 << rng.randrange(4, 16)) - size + rng.choice([-1, 0, 1]))])
                k = min(k, top - size)
                if k > 0:
                    s.append([rng.choice(pushes), k])
                    size += k
            else:
                k = int(size * rng.choice([0.1, 0.5, 0.66, 0.67, 0.7, 0.75, 0.8, 0.9, 0.95, 1, 1.2])) + rng.choice([-1, 0, 1])
                s.append([rng.choice(pops), max(0, k)])
                size = max(0, size - max(0, k))
            if shrink and rng.random() < 0.6:
                s += [[shrink]] * rng.randrange(1, 4)
        s.append([rng.choice(pops), 1 << 17])
        out.append(s)
    return out


def giants(rng, sizes, pushes, pops, shrink="sh"):
    """Contents beyond 16 bits: filled, half emptied, filled again round the end, shrunk, drained."""
    out = []
    for n in sizes:
        for p in pushes:
            q = rng.choice(pops)
            s = [["new", rng.choice([-99, 0, 1000, n // 2])], [p, n], [q, n // 2 + 1], [rng.choice(pushes), n // 3]]
            if shrink:
                s += [[shrink], [q, n // 2], [shrink], [shrink]]
            s += [[p, 5], [rng.choice(pops), 1 << 19], [p, 3], ["cl"], [p, n + 1], ["init", -1], [p, 2]]
            out.append(s)
    return out
