ALG = """SPECIFICATION Spec
CONSTANTS MaxBytes = %d MaxDst = %d Bufs = {%s} MaxReads = %d Scenarios = %s
INVARIANTS Prefix RetOk
%s
CHECK_DEADLOCK FALSE
"""


def run(ctx):
    rng = ctx.rng
    ctx.design("CopyAlg", ALG % (4, 3, "1,2,3", 5, "FALSE", "PROPERTY Refines"), "copy loop refines MultiCopy")
    b = ctx.build("gxverif/c18")
    n = ctx.pick(3, 4)
    base = ctx.gen("CopyAlg", ALG % (n, 3, "1,2,3", n + 1, "TRUE", "ACTION_CONSTRAINT Emit"), "every environment behaviour: sources of up to %d bytes, 3 destinations, one fault anywhere" % n)
    scripts = []
    for s in base:
        c = s[0]
        scripts.append([c])
        alt = rng.choice(["pusher", "pusher", "bytes", "buffer", "strings"])
        if alt != "pusher":
            c2 = ["copy", alt, c[2], c[3], [[k, "open"] for k, _ in c[4]], c[5]]
        else:
            c2 = ["copy", "pusher"] + c[2:]
        scripts.append([c2])
        scripts.append([["copy", rng.choice(["reader", "reader", "pusher"]), rng.choice([-1, 0, 0, 999999, 7])] + c[3:]])
    scripts = list({str(s): s for s in scripts}.values())
    for _ in range(ctx.pick(400, 6000)):
        k = rng.randrange(0, 12)
        big = rng.choice([5, 40, 40, 300])
        reads = [[rng.choice([0, 1, 2, rng.randrange(0, big)]), "open"] for _ in range(k)]
        if rng.random() < 0.8:
            reads.append([rng.randrange(0, 10) if rng.random() < 0.5 else 0, rng.choice(["eof", "eof", "rerr"])])
        tot = sum(r[0] for r in reads)
        nd = rng.randrange(1, 6)
        fault = [0, 0, "none"] if rng.random() < 0.4 or not tot else [rng.randrange(1, nd + 1), rng.randrange(0, tot), rng.choice(["err", "short", "errfull"])]
        kind = rng.choice(["reader", "reader", "pusher", "bytes", "buffer", "strings"])
        if kind not in ("reader", "pusher"):
            reads = [[r[0], "open"] for r in reads]
        scripts.append([["copy", kind, rng.choice([-1, 0, 1, 2, 3, 7, 16, 64, 999999]), nd, reads, fault]])
    for kind in ("reader", "pusher", "bytes"):
        for tot in (32767, 32768, 32769, 70000, 300000):
            for nd in (1, 2):
                scripts.append([["copy", kind, -1, nd, [[tot, "open"]], [0, 0, "none"]]])
                scripts.append([["copy", kind, 999999, nd, [[tot, "open"]], [nd, 32768, rng.choice(["err", "short"])] if tot > 32768 else [nd, tot - 1, "short"]]])
    for nd in (8, 9, 16, 17, 33, 100, 300):      # many destinations
        for f in ([0, 0, "none"], [nd, 3, "err"], [nd // 2, 5, "short"]):
            scripts.append([["copy", rng.choice(["reader", "pusher", "bytes"]), rng.choice([-1, 4]), nd, [[7, "open"], [4, "open"]], f]])
    if not ctx.check("CopyTrace", b, scripts, "", "copies with scripted sources, buffers, destinations and faults", together=400):
        return
    ctx.check("CopyTrace", b, [[["huge", hi, lo, fail]] for hi, lo, fail in ctx.pick([(2048, 5, False), (4096, 77, False), (4096, 78, True)], [(2048, 5, False), (4096, 77, False), (4096, 78, True), (20000, 1, False)])], "", "copies beyond 2 and 4 GB")
    ctx.extra["bounds"] = "all environments: sources up to %d bytes in any chunking, 1-3 destinations, buffers 1-3 (sampled: nil, empty, larger), one fault at every byte; seeded larger copies up to 300000 bytes and 300 destinations; three of up to 4 GB to two destinations, by checksum" % n
