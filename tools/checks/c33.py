GEN = "SPECIFICATION GenSpec\nCONSTANTS Msgs = {1, 2} Hashes = {\"default\", \"sha256\"} MaxObj = %d MaxLen = %d\nINVARIANT Paired\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n%s\n"


def run(ctx):
    rng = ctx.rng
    b = ctx.build("gxverif/c33")
    byte = lambda: rng.choice([0, 0, 1, 2, 255, rng.randrange(256)])
    g = ctx.gen("RsaKeysGen", GEN % (1, 99, "VIEW View"), "every operation from every small state", limit=ctx.pick(1500, 20000))
    g += ctx.gen("RsaKeysGen", GEN % (3, 30, ""), "random histories", simulate=ctx.pick(60, 1500), depth=28)
    sc = []
    kinds = [(1024, 1024), (1024, 1024), (1024, 1536), (1032, 1024), (1025, 1031), (2048, 1024)]
    hs = ["default", "sha256", "sha1", "md5", "sha384", "sha512"]
    for h in g:
        bits = rng.choice(kinds)
        room = (min(bits) + 7) // 8 - 11
        n = rng.choice([1, 2, 16, room - 1, room, rng.randrange(room)])
        m1 = [byte() for _ in range(n)]
        m2 = list(m1)
        if n:
            m2[rng.randrange(n)] ^= rng.choice([1, 128, 255])
        if not n or rng.random() < 0.3:
            m2 = rng.choice([m1 + [0], [0] + m1, m1[:-1] if n > 1 else [9]])[:room]
            if m2 == m1:
                m2 = [5] if m1 != [5] else [6]
        other = rng.choice([x for x in hs if x not in ("default", "sha512")] if rng.random() < 0.85 else ["sha512"])
        sub = {"sha256": other}
        sc.append([["start"], ["pair", bits[0], "a"], ["pair", bits[1], "b"]] +
                  [[{1: m1, 2: m2}[x] if (i in (2,) and st[0] in ("enc", "sign")) or (i == 3 and st[0] == "verify") else sub.get(x, x) if isinstance(x, str) else x for i, x in enumerate(st)] for st in h])
    for bits in (1024, 1025, 1031, 1032, 1040, 1536, 2048):      # all lengths around the limit
        k = (bits + 7) // 8
        s = [["start"], ["pair", bits, "a"], ["client", 1, "pub"], ["server", 1, "priv"]]
        x = 0
        for n in (0, 1, 2, k // 2, k - 13, k - 12, k - 11, k - 10, k - 9, k - 1, k, k + 1, 2 * k - 22, 3 * k - 33, 4 * k - 44, 8 * k - 88, 2 * k, 3 * k, 4 * k, 300, 1000) + ctx.pick((), tuple(range(k - 10, 5 * k))):
            s.append(["enc", 1, [byte() for _ in range(n)]])
            if n <= k - 11:
                x += 1
                s.append(["dec", 1, x, "no"])
        y = 0
        for n in (0, 1, k - 11, k, 500, 3000):
            for h in hs:
                m = [byte() for _ in range(n)]
                s.append(["sign", 1, m, h])
                y += 1
                s.append(["verify", 1, y, m, h, "no"])
                s.append(["verify", 1, y, m, rng.choice(hs), "no"])
                s.append(["verify", 1, y, m + [0], h, "no"])
                s.append(["verify", 1, y, m, h, rng.choice(["flip", "cut", "more"])])
        sc.append(s)
    for bits in [1024] * ctx.pick(12, 60) + [1536, 2048, 1030, 1039]:     # fresh pairs
        sc.append([["start"], ["pair", bits, "new"], ["client", 1, "pub"], ["server", 1, "priv"], ["enc", 1, [1, 2, 3]], ["dec", 1, 1, "no"], ["sign", 1, [4, 0], "default"], ["verify", 1, 1, [4, 0], "default", "no"]])
    if not ctx.check("RsaKeysTrace", b, sc, "", "keys, encryption and signatures", together=40):
        return
    ctx.assumptions.append("RSA, X.509 and PEM of the Go standard library are right (their use is what is checked); an altered ciphertext may decrypt to something else, never to the message")
    ctx.extra["bounds"] = "every operation from every state with one client, server, ciphertext and signature over two pairs; seeded histories of 28 operations; keys of 1024 to 2048 bits"
