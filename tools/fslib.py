import os

ALL = ["dir", "file", "full", "deep", "leaf"]
NOBODY = 65534


def contain(ctx):
    """The driver runs as an unprivileged user in a directory of its own."""
    os.chmod(ctx.scratch, 0o1777)
    work = ctx.tmp("work")
    os.makedirs(work)
    os.chown(work, NOBODY, NOBODY)
    os.chmod(work, 0o755)
    ctx.cwd, ctx.as_user, ctx.groups = work, NOBODY, (NOBODY - 1,)


def tree(rng, n, links=True, names=("a", "b", "c", "d.txt", "e f", "ü", ".hid", "..x", "%s", "[a-b]*"), big=True):
    """Rows of a random tree, parents first."""
    dirs, used, rows = [[]], set(), []
    shape = rng.random()
    for _ in range(n):
        d = rng.choice(dirs) if shape < 0.6 else dirs[-1]
        p = d + [rng.choice(names) + rng.choice(["", "", "1", "2"])]
        if tuple(p) in used or len(p) > 6:
            continue
        used.add(tuple(p))
        r = rng.random()
        if r < 0.45:
            dirs.append(p)
            rows.append([p, "d"])
        elif r < 0.93 or not links:
            c = []
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                c.append([rng.choice([0, 10, 97, 98, 255]), rng.choice([1, 2, 3, 3, 100] + ([32768, 40000, 70000] if big else []))])
            c = [x for i, x in enumerate(c) if i == 0 or c[i - 1][0] != x[0]]
            rows.append([p, "f", c])
        else:
            rows.append([p, "l", [], rng.choice(rows)[0] if rows else ["nowhere"]])
    return rows


def modes(rng, rows, s):
    """Private directories and files: still readable for their owner."""
    for r in rows:
        if r[1] != "l" and rng.random() < 0.3:
            s.append(["mode", r[0], rng.choice([0o700, 0o500, 0o750, 0o711]) if r[1] == "d" else rng.choice([0o600, 0o400, 0o777, 0o640])])


def unfolded(rows, budget=80):
    """Whether the tree with its links followed is small (no cycles)."""
    by = {tuple(r[0]): r for r in rows}

    def size(p, fuel):
        if fuel <= 0:
            return 10 ** 6
        p = tuple(p)
        if p in by and by[p][1] == "l":
            return 1 if by[p][3] == list(p) else size(by[p][3], fuel - 1)
        n = 1
        for q in by:
            if len(q) == len(p) + 1 and q[:len(p)] == p:
                n += size(q, fuel - 1)
                if n > budget:
                    return n
        return n
    return size((), 30) <= budget


def edited(rng, rows):
    """The rows after one small change: contents (often of the same size), one entry more or less, another kind, a name."""
    rows = [list(r) for r in rows]
    fs = [r for r in rows if r[1] == "f"]
    leaves = [r for r in rows if not any(len(q[0]) > len(r[0]) and q[0][:len(r[0])] == r[0] for q in rows)]
    ds = [[]] + [r[0] for r in rows if r[1] == "d"]
    have = {tuple(r[0]) for r in rows}
    how = rng.choice(["same", "same", "same", "size", "more", "more", "less", "kind", "name"])
    if how == "same" and any(r[2] for r in fs):
        r = rng.choice([r for r in fs if r[2]])
        r[2] = [[x[0] + 1 if x[0] < 255 else 3, x[1]] for x in r[2]]
        r[2] = [x for i, x in enumerate(r[2]) if i == 0 or r[2][i - 1][0] != x[0]]
    elif how == "size" and fs:
        rng.choice(fs)[2] = [[rng.choice([65, 66]), rng.randrange(1, 9)]]
    elif how == "less" and leaves:
        rows.remove(rng.choice(leaves))
    elif how == "kind" and leaves:
        r = rng.choice(leaves)
        r[1:] = ["d"] if r[1] == "f" else ["f", [[67, 2]]]
    elif how == "name" and leaves:
        r = rng.choice(leaves)
        q = r[0][:-1] + ["new%d" % rng.randrange(9)]
        if tuple(q) not in have:
            r[0] = q
    else:
        q = rng.choice(ds) + ["more%d" % rng.randrange(9)]
        if tuple(q) not in have:
            rows.append([q, "d"] if rng.random() < 0.4 else [q, "f", [[68, rng.randrange(1, 4)]]])
    return rows
