EDIT = """SPECIFICATION GenSpec
CONSTANTS MaxNodes = %d MaxLen = %d Mode = "%s"
INVARIANT Wellformed
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
%s
"""
VIS = """SPECIFICATION Spec
CONSTANTS MinNodes = %d MaxNodes = %d MaxWalk = %d
INVARIANT Agree
CHECK_DEADLOCK FALSE
%s
"""


def walk(rng, n):
    s = ""
    while len(s) < n:
        s += rng.choice("NP") * rng.choice([1, 1, 2, 3, rng.randrange(1, n + 1)])
    return s[:n]


def rand(rng, length, maxn):
    """random edits on a mirrored tree (to keep attach arguments legal), walks in between"""
    kids, s = {1: []}, []
    det = []
    def below(n):
        return [n] + [x for k in kids[n] for x in below(k)]
    def idx(p):
        n = len(kids[p])
        return rng.choice([-1, 0, n // 2, n - 1, n, n + 1, rng.randrange(0, n + 1)])
    def put(p, i, x):
        kids[p].insert(i if 0 <= i < len(kids[p]) else len(kids[p]), x)
    few = rng.random() < 0.4
    while len(s) < length:
        p = rng.choice(list(kids)[-6:]) if rng.random() < 0.3 else rng.choice(list(kids))
        r = rng.random()
        if r < 0.55 and len(kids) < maxn:
            i, n = idx(p), len(kids) + 1
            s.append(["add", p, rng.choice([0, 500, 1000]) if few else (n * 337) % 1001, i])
            kids[n] = []
            put(p, i, n)
        elif r < 0.65 and det:
            c = rng.choice(det)
            if p not in below(c):
                i = idx(p)
                s.append(["attach", p, c, i])
                det.remove(c)
                put(p, i, c)
        elif r < 0.75:
            i = idx(p)
            s.append(["remove", p, i])
            if 0 <= i < len(kids[p]):
                det.append(kids[p].pop(i))
        elif r < 0.78 and not few and len(kids[p]) > 1:
            s.append(["sort", p])
            kids[p].sort(key=lambda n: (n * 337) % 1001)
        elif r < 0.95:
            s.append(["visit", 1 if rng.random() < 0.7 else p, walk(rng, rng.randrange(1, 2 * len(kids) + 5))])
    if few:
        s += [["sort", p] for p in list(kids)[:10]]
    s += [["visit", 1, "N" * (len(kids) + 2)], ["visit", 1, "P" * (len(kids) + 2)]]
    return s


def deep(rng, n):
    """a path with a few twigs, walked to its ends and back"""
    par = [0]
    for i in range(2, n + 1):
        par.append(i - 1 if rng.random() < 0.9 else rng.randrange(1, i))
    vs = [500] + [(i * 337) % 1001 for i in range(2, n + 1)]
    return [["build", par, vs]] + [["visit", 1, w] for w in ("N" * (n + 1), "P" * (n + 1), "N" * (n - 1) + "P" * (n - 1) + "N" * 5, "P" * n + "N" * 9, "N" * (n // 2) + "P" * (n // 3) + "N" * n, walk(rng, 2 * n))] + [["remove", n // 2, 0], ["visit", 1, "N" * n], ["visit", n // 2 + 1, "P" * n]]


def wide(rng, n):
    """one node with many children, edited in the middle and sorted"""
    vs = [500] + [(i * 337) % 1001 for i in range(2, n + 1)]
    s = [["build", [0] + [1] * (n - 1), vs]]
    for i in (0, 1, n // 2, n - 2, n - 1, n):
        s += [["add", 1, 7, i], ["remove", 1, i], ["add", 1, 993, i]]
    s += [["visit", 1, "N" * (n + 9)], ["visit", 1, "P" * (n + 9)], ["visit", 1, walk(rng, 2 * n)], ["sort", 1], ["visit", 1, "N" * (n + 9)], ["remove", 1, n // 3], ["visit", 1, "P" * (n + 9)]]
    return s


def run(ctx):
    rng = ctx.rng
    b = ctx.build("gxverif/c10")
    n = ctx.pick(6, 8)
    ctx.design("TreeVisitor", VIS % (1, n, 99, "VIEW View"), "stack visitor refines the pre-order cursor, all shapes up to %d nodes, all walks" % n)
    k, w = ctx.pick((5, 8), (6, 11))
    walks = ctx.gen("TreeVisitor", VIS % (1, k, w, "ACTION_CONSTRAINT Emit"), "all walks of %d steps over all shapes up to %d nodes" % (w, k), prune=False)
    more = ctx.pick(6, 7)
    walks += ctx.gen("TreeVisitor", VIS % (more, more, more, "ACTION_CONSTRAINT Emit"), "all walks of %d steps over all shapes of %d nodes" % (more, more), prune=False)
    by = {}
    for par, dirs in walks:
        by.setdefault(tuple(par), []).append("".join(dirs))
    scripts = []
    for par, ws in sorted(by.items()):
        vs = [500] + [(i * 337) % 1001 for i in range(2, len(par) + 1)]
        for i in range(0, len(ws), 64):
            scripts.append([["build", list(par), vs]] + [["visit", 1, x] for x in ws[i:i + 64]])
        full = [["build", list(par), vs]]
        for root in range(1, len(par) + 1):     # walks confined to each subtree
            full += [["visit", root, d * (len(par) + 2)] for d in "NP"] + [["visit", root, walk(rng, 12)]]
        scripts.append(full)
    m = ctx.pick(4, 4)
    edits = ctx.gen("Tree", EDIT % (m, 99, "cover", "VIEW View"), "every edit at every index from every forest of up to %d nodes" % m)
    for i, s in enumerate(edits):
        s.append(["visit", 1, ("N" * 6, "P" * 6, "NNPNPP", "PPNNPN")[i % 4]])
    scripts += edits
    scripts += [rand(rng, 60, 25) for _ in range(ctx.pick(150, 1500))] + [rand(rng, 120, 80) for _ in range(ctx.pick(10, 100))]
    scripts += [deep(rng, k) for k in ctx.pick([40, 70, 130, 260, 1100], [40, 70, 130, 260, 600, 1100])] + [wide(rng, k) for k in ctx.pick([40, 70, 130, 260, 1100], [40, 70, 130, 260, 600, 1100])]
    scripts += [[["big", k]] for k in (6, 7, 40, 255, 257, 1000, 32769, 40000, 70000)]
    for kind in ("int", "hash"):
        if not ctx.check("TreeTrace", b, scripts, "CONSTANTS MaxNodes = 0 MaxLen = 0 Mode = \"\"\n", "edits and walks, kind " + kind, args=["-kind", kind], together=400):
            return
    ctx.extra["bounds"] = "all walks of %d steps over all shapes of up to %d nodes; all edits from all forests of up to %d nodes; seeded trees of up to 80 nodes, some of 1100 levels or children, a node of 70000 children in a fixed history" % (w, k, m)
