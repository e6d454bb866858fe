import base64

CFG = "SPECIFICATION Spec\nCONSTANTS MaxLen = %d MaxKey = %d\nINVARIANTS RoundTrip Grows Local KeyFit Single Codings\nCHECK_DEADLOCK FALSE\n"


def run(ctx):
    rng = ctx.rng
    ctx.design("TripleDesCheck", CFG % (ctx.pick(4, 5), ctx.pick(4, 6)), "all short messages and keys of a toy cipher", min_states=5000)
    b = ctx.build("gxverif/c32")
    byte = lambda: rng.choice([0, 0, 1, 8, 127, 128, 255, rng.randrange(256), rng.randrange(256)])
    data = lambda n: [byte() for _ in range(n)]
    full = lambda n: [rng.randrange(256) for _ in range(n)]
    steps = []
    for n in list(range(0, 66)) + [127, 128, 129, 255, 256, 1023, 1024, 1025, 4096, 10000]:
        for kl in (0, 1, 7, 8, 9, 15, 16, 17, 23, 24, 25, 40) if n < 26 else (24, rng.randrange(41)):
            k = full(kl)
            steps.append(["enc", data(n), k, rng.choice([0, 1, 7, 8, 9, 40]), rng.choice([0, 1, 16])])
            steps.append(["dec", data(n), full(kl), rng.choice([0, 1, 8, 40]), rng.choice([0, 1, 16])])
    for tail in ([0], [0] * 8, [0] * 9, [0] * 15, [0] * 16, [0] * 23, [0] * 40, [0] * 300, [7] + [0] * 17, [1, 0], [0, 1], [0xc0, 0x80], [0xe2, 0x80], [0xff], [0x80, 0]):
        for n in (0, 1, 6, 7, 8, 15, 16):
            steps.append(["enc", full(n) + tail, full(24), 8, 0])
            steps.append(["encode", full(n) + tail, rng.randrange(2)])
            steps.append(["back", full(n) + tail, full(rng.choice([8, 24, 30])), rng.choice([0, 8]), 0])
            steps.append(["decback", full(n) + tail, rng.randrange(2)])
    for k in ([0] * 24, [1] * 24, [255] * 24, [1] * 8 + [254] * 16, full(8) * 3, full(16)):
        steps.append(["enc", data(17), k, 0, 0])
    # what decrypts to data that end in zeros or in bytes that are no text
    for _ in range(ctx.pick(300, 4000)):
        n = rng.choice([0, 8, 16, 24, 32, rng.randrange(100)])
        steps.append(["dec", full(n), full(rng.randrange(41)), rng.randrange(20), rng.randrange(20)])
        steps.append(["enc", data(rng.randrange(80)), full(rng.randrange(41)), rng.randrange(20), rng.randrange(20)])
    for n in list(range(0, 50)) + [100, 200, 1000, 3000]:
        steps += [["encode", data(n), rng.randrange(2)], ["encode", full(n), 0], ["encode", full(n), 1]]
        steps += [["back", data(n), full(rng.randrange(41)), 0, 0], ["decback", data(n), rng.randrange(2)]]
        steps += [["hash", data(n)], ["hash", full(n)]]
        steps += [["hex", full(n)], ["unhex", list(bytes(full(n)).hex().encode())], ["unhex", list(bytes(full(n)).hex().upper().encode())]]
    enc = lambda x: list(base64.b64encode(bytes(x)))
    for n in list(range(0, 41)) + [8, 16, 24, 32, 40] * 4 + [64, 72, 80]:
        for _ in range(ctx.pick(6, 30)):
            t = enc(full(n))
            w = rng.randrange(8)
            if w == 0 and t:
                t[rng.randrange(len(t))] = rng.choice([10, 13, 32, 45, 95, 61, 0, 200, 64, 91, 96, 123, 47, 58])
            elif w == 1:
                t.insert(rng.randrange(len(t) + 1), rng.choice([10, 13, 32, 61, 65]))
            elif w == 2 and t:
                t.pop(rng.randrange(len(t)))
            elif w == 3:
                for i in range(60, len(t), 61):
                    t.insert(i, 10)
                t.append(10)
            elif w == 4:
                t = [c for c in t if c != 61]
            elif w == 5:
                t = [{43: 45, 47: 95}.get(c, c) for c in t]
            elif w == 6 and t:
                t = rng.choice([[32] + t, t + [32], [9] + t + [9], t + [61], [0xef, 0xbb, 0xbf] + t, [{43: 32}.get(c, c) for c in t], [{43: 45}.get(c, c) for c in t], [{47: 95}.get(c, c) for c in t]])
            steps.append(["decode", t, rng.randrange(2)])
            h = list(bytes(full(n)).hex().encode())
            if h and rng.random() < 0.7:
                h[rng.randrange(len(h))] = rng.choice([47, 48, 57, 58, 64, 65, 70, 71, 96, 97, 102, 103, 0, 255, 32])
            if h and rng.random() < 0.3:
                h.pop()
            steps.append(["unhex", h])
    steps += [["unhex", [48, c]] for c in range(256)]
    steps += [["decode", list(s), i] for i in (0, 1) for s in (b"", b"=", b"==", b"A", b"AA", b"AA==", b"AAAA", b"\n", b"AAAAAAAAAAA=", b"AAAAAAAAAAA", b"AAAAAAAAAA==", b"AAAAAAAAAAA==", b"AAAAAAAAAAB=", b"AAAAAAAAAAA=\n", b"AAAAAAAAAAA=A", b"AAAA AAAAAA=", b"AAAAAAAAAAA=AAAAAAAAAAA=")]
    rng.shuffle(steps)
    sc = [steps[i:i + 25] for i in range(0, len(steps), 25)]
    if not ctx.check("TripleDesTrace", b, sc, "", "encryptions, decryptions and codings", together=400):
        return
    ctx.assumptions.append("DES and SHA-512 of the Go standard library are right (their use is what is checked)")
    ctx.extra["bounds"] = "all data lengths 0..65 and keys of 0..40 bytes; toy cipher: all messages of %d bytes and keys of %d" % (ctx.pick(4, 5), ctx.pick(4, 6))
