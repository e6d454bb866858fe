from fslib import *

M = ["MD5", "SHA1", "SHA256", "SHA512", "CRC32", "CRC64", "FINGERPRINT", "fp"]


def run(ctx):
    rng = ctx.rng
    b = ctx.build("gxverif/c29")
    contain(ctx)
    sc = []
    salts = ["", "", "s", "salt%d", "0"]
    for _ in range(ctx.pick(150, 1500)):
        rows = tree(rng, rng.randrange(0, 16), links=False, big=rng.random() < 0.3)
        s = [["tree", rows]]
        ps = [[]] + [r[0] for r in rows]
        for m in M:
            s.append([rng.choice(["hash", "hash/rel"]), rng.choice(ps), m, rng.choice(salts)])
        m = rng.choice(M)
        s += [["hash", [], m, ""], ["hash", [], m, "x"], ["hash", ["missing"], m, ""]]
        sc.append(s)
    for k in range(ctx.pick(150, 1500)):         # links: to files, to directories, to nothing
        rows = tree(rng, rng.randrange(1, 10), big=rng.random() < 0.1)
        have, ds = {tuple(r[0]) for r in rows}, [[]] + [r[0] for r in rows if r[1] == "d"]
        for i in range(rng.randrange(1, 4)):
            p = rng.choice(ds) + ["l%d" % i]
            if tuple(p) not in have:
                have.add(tuple(p))
                rows.append([p, "l", [], rng.choice([["nowhere"], rng.choice(rows)[0], rng.choice(rows)[0], p]) if k % 3 else rng.choice(rows)[0]])
        if not unfolded(rows):
            continue
        s = [["tree", rows]]
        modes(rng, [r for r in rows if r[1] != "l"], s)
        ls = [r[0] for r in rows if r[1] == "l"]
        s += [["hash", p, rng.choice(M), rng.choice(salts)] for p in ls[:3] + [[], []]] + [["hash", [], "fp", ""]]
        sc.append(s)
    # the order of creation does not matter; equal sizes and equal contents
    for _ in range(ctx.pick(60, 600)):
        n = rng.randrange(2, 9)
        names = ["n%d" % i for i in range(n)]
        cs = [[[rng.choice([97, 98, 99]), rng.choice([1, 1, 2])]] for _ in names]
        rows = [[[x], "f", c] for x, c in zip(names, cs)] + [[["d"], "d"], [["d", "x"], "f", [[97, 1]]], [["e"], "d"]]
        for _ in range(2):
            k = rng.sample(rows[:n], n) + rows[n:]
            sc.append([["tree", k], ["hash", [], "fp", ""], ["hash", [], "CRC32", ""], ["hash", [], rng.choice(M), "s"]])
    for size in (0, 1, 511, 512, 513, 32767, 32768, 32769, 65536, 200000):
        sc.append([["tree", [[["x"], "f", [[120, size]] if size else []]]]] + [["hash", ["x"], m, q] for m in M for q in ("", "s")] + [["hash", [], m, ""] for m in M])
    for size in (1 << 20, (1 << 22) - 1, 5 << 20, 17 << 20):     # large files that differ in one byte
        for c in ([[120, size]], [[120, size - 1], [121, 1]], [[121, 1], [120, size - 1]]):
            sc.append([["tree", [[["d"], "d"], [["d", "x"], "f", c], [["y"], "f", c]]]] + [["hash", ["y"], m, ""] for m in ("MD5", "CRC32", "fp")] + [["hash", [], rng.choice(M), "s"]])
    for _ in range(ctx.pick(25, 250)):           # several at the same time
        rows = tree(rng, rng.randrange(3, 16), links=False, big=rng.random() < 0.3)
        ps = [[]] + [r[0] for r in rows]
        sc.append([["tree", rows], ["par", [["hash", rng.choice(ps), m, rng.choice(salts)] for m in M + [rng.choice(M), "fp", "fp"]], 12], ["hash", [], "fp", ""]])
    for k in range(ctx.pick(80, 800)):           # trees that change between the questions, also with all times set back
        rows = tree(rng, rng.randrange(2, 12), links=False, big=rng.random() < 0.1)
        s, ms = [["retree", rows, k % 3 > 0]], rng.sample(M[:-1], 2) + ["fp"]
        for i in range(5):
            s += [["hash", [], m, ""] for m in ms] + [["hash", rng.choice(rows)[0] if rows else [], rng.choice(ms), rng.choice(salts)]]
            rows = edited(rng, rows)
            s.append(["retree", rows, k % 3 > 0])
        sc.append(s + [["hash", [], m, ""] for m in ms])
    for _ in range(ctx.pick(60, 600)):          # unreadable parts
        rows = tree(rng, rng.randrange(1, 12), links=False, big=False)
        if not rows:
            continue
        x = rng.choice(rows)[0]
        s = [["tree", rows], ["shut", x]]
        ok = [[]] + [r[0] for r in rows if r[0][:len(x)] != x] + [x]
        s += [["hash", rng.choice(ok), m, rng.choice(salts)] for m in M] + [["open", x], ["hash", [], rng.choice(M), ""]]
        sc.append(s)
    sc.append([["tree", []]] + [["bad", p, m] for m in M for p in ("/proc/self/mem", "/nowhere", "/root/x")])
    sc += [[["sparse", [["x", [4096, 1]], ["y", [0, 3]]], "CRC32"]], [["sparse", [["x", [2048, 3]]], "CRC32"]], [["sparse", [["x", [4096, 9]]], "fp"]]]
    if not ctx.check("FsTreeTrace", b, sc, "", "digests of files and trees"):
        return
    ctx.assumptions.append("the digest functions of the Go standard library are right (their use is what is checked)")
    ctx.extra["bounds"] = "seeded trees of up to 16 nodes, file sizes around the copy buffer and up to 17 MB, sparse files beyond 4 GB"
