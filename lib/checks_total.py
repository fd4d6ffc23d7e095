"""C01: loading is total."""
import gen
import models
from checks_loader import entry, file, layout, BYTE_ENTRIES, READER_ENTRIES
from core import validate
from loader import input_bytes

FOCUS = ["panic", "crash", "hang", "memory", "time"]
H = b"HIERARCHY\nROOT a\n{\nOFFSET 0 0 0\nCHANNELS 1 Xposition\n}\n"
R = b"HIERARCHY\nROOT a\n{\n"
M = b"MOTION\nFrames: 0\nFrame Time: 0.1\n"
TOKENS = [b"HIERARCHY", b"ROOT", b"JOINT", b"End", b"Site", b"{", b"}", b"OFFSET", b"CHANNELS", b"MOTION", b"Frames:", b"Frame", b"Time:",
          b"Xposition", b"Zrotation", b"0", b"1", b"-1", b"3", b"1.5", b"1e400", b"-1e-400", b"nan", b"inf", b"18446744073709551615",
          b"18446744073709551616", b"9223372036854775807", b"4294967296", b"x", b":", b"\xff\xfe", b"\xc2\xa0", b"\x00", b"\n", b"\n", b"\n", b"\r\n", b"\t", b"a" * 300]
NUMS = [b"0", b"1", b"2", b"7", b"255", b"65536", b"1000000", b"2147483648", b"4294967295", b"4294967296", b"10000000000", b"4611686018427387903",
        b"4611686018427387904", b"9223372036854775807", b"9223372036854775808", b"18446744073709551615", b"18446744073709551616", b"-1", b"1e9", b"99999999999999999999999999"]


def heavy(n):
    """Long and deep inputs, as parts to be repeated."""
    j, o, c = b"JOINT b\n{\n", b"OFFSET 0 0 0\n", b"CHANNELS 1 Xposition\n"
    site = b"End Site\n{\nOFFSET 1 1 1\n}\n"
    yield "chain", [[R, 1], [j + o + c, n], [b"}\n", n + 1], [M, 1]]
    yield "unclosed", [[R, 1], [j + o, n]]
    yield "unopened", [[R, 1], [b"}\n", n]]
    yield "star", [[R, 1], [j + o + b"}\n", n], [b"}\n" + M, 1]]
    yield "starsites", [[R, 1], [j + o + c + site + b"}\n", n], [b"}\n" + M, 1]]
    yield "comb", [[R, 1], [j + b"}\n" + j, n], [b"}\n", n + 1], [M, 1]]
    yield "depths", [[R, 1], [j * 40 + b"}\n" * 40, n // 40 + 1], [b"}\n" + M, 1]]
    yield "sitechain", [[R, 1], [site + j, n], [b"}\n", n + 1], [M, 1]]
    yield "channels", [[R + b"CHANNELS 3", 1], [b" Xposition", n], [b"\n}\n" + M, 1]]
    yield "offsets", [[R, 1], [b"OFFSET 1 2 3\n", n], [b"}\n" + M, 1]]
    yield "unknown", [[R, 1], [b"FOO bar\n", n], [b"}\n" + M, 1]]
    yield "blank", [[b"\n", n], [H, 1], [b" \r\n", n], [M, 1], [b"\n", n]]
    yield "line", [[b"x", 10 * n]]
    yield "colons", [[b":", 10 * n], [b"\n" + H + M, 1]]
    yield "spaces", [[b" ", 10 * n], [b"\n" + H + M, 1], [b" ", 10 * n]]
    yield "name", [[b"HIERARCHY\nROOT ", 1], [b"x", 10 * n], [b"\n{\n}\n" + M, 1]]
    yield "values", [[H + b"MOTION\nFrames: %d\nFrame Time: 1\n" % n, 1], [b"1 ", n]]
    yield "lines", [[H + b"MOTION\nFrames: %d\nFrame Time: 1\n" % n, 1], [b"1\n", n]]
    yield "toofew", [[H + b"MOTION\nFrames: %d\nFrame Time: 1\n" % (n + 1), 1], [b"1\n", n]]
    yield "number", [[H + b"MOTION\nFrames: 1\nFrame Time: 1\n", 1], [b"1", 10 * n], [b"\n", 1]]
    yield "fraction", [[H + b"MOTION\nFrames: 1\nFrame Time: 1\n0.", 1], [b"0", 10 * n], [b"1\n", 1]]
    yield "exponent", [[H + b"MOTION\nFrames: 1\nFrame Time: 1\n1e-", 1], [b"9", n], [b"\n", 1]]
    yield "frametime", [[H + b"MOTION\nFrames: 0\nFrame Time: 0.", 1], [b"3", 10 * n], [b"\n", 1]]
    yield "frames", [[H + b"MOTION\nFrames: ", 1], [b"9", n], [b"\nFrame Time: 1\n", 1]]
    yield "numchannels", [[R + b"CHANNELS ", 1], [b"9", n], [b"\n}\n" + M, 1]]


def c01(cx):
    rng, ops, tags = cx.rng, [], []

    def add(data, tag, **kw):
        op = {"op": "load", "snap": False}
        if isinstance(data, bytes):
            op["data"] = data.decode("latin-1")
            op.update(kw or entry(rng, data))
        else:
            op["parts"] = [[p.decode("latin-1"), k] for p, k in data]
            op.update(kw)
        ops.append(op)
        tags.append(tag)

    # every transition of the loader model, malformed or not
    cases = models.loader_mc(cx, 2, 2, 3, 2, False, True)
    if not cx.thorough:
        cases = models.stratified(rng, cases, 9000)
    cx.replayed += len(cases)
    for lines, k in cases:
        add(layout(rng, 0.5).render(lines), "LoaderMC:" + k)

    # and lines of all sorts in all places
    for text, k in models.lines(cx, cx.n(1000, None)):
        add(text, "LineMC:" + k)
        cx.replayed += 1

    # counts that are not what follows
    for a in NUMS:
        for f in (b"HIERARCHY\nROOT a\n{\nOFFSET 0 0 0\nCHANNELS %s Xposition\n}\n" % a + M,
                  b"HIERARCHY\nROOT a\n{\nOFFSET 0 0 0\nCHANNELS %s\n}\n" % a + M,
                  H + b"MOTION\nFrames: %s\nFrame Time: 0.1\n1 2 3\n" % a,
                  H.replace(b"CHANNELS 1", b"CHANNELS " + a) + b"MOTION\nFrames: %s\nFrame Time: 0.1\n1 2 3\n" % a,
                  H.replace(b"1 Xposition", b"3 Xposition Yposition Zrotation") + b"MOTION\nFrames: %s\nFrame Time: 0.1\n1 2 3\n" % a,
                  H + b"MOTION\nFrames: 1\nFrame Time: %s\n1\n" % a,
                  R + b"OFFSET %s %s %s\n}\n" % (a, a, a) + M,
                  H + b"MOTION\nFrames: 1\nFrame Time: 1\n%s\n" % a):
            add(f, "counts", entry="bytes")
            add(f, "counts", entry=rng.choice(READER_ENTRIES), chunks=[5], cap=8)

    # bytes of all kinds
    for _ in range(cx.n(12000, 300000)):
        k = rng.random()
        if k < 0.1:
            data = gen.strange(rng)
            tag = "strange"
        elif k < 0.5:
            r = gen.skeleton(rng, maxj=5, num=gen.simple_number)
            data = layout(rng, 0.6).render(file(rng, r, lax=0.05))
            data = gen.mutate_bytes(data, rng)
            tag = "mutated"
        elif k < 0.65:
            r = gen.skeleton(rng, maxj=4, num=gen.simple_number)
            st = file(rng, r)
            for _ in range(rng.randint(1, 6)):
                st = gen.defect(st, rng)
            data = layout(rng, 0.6).render(st)
            tag = "defects"
        elif k < 0.9:
            n = rng.randint(1, 60)
            data = (R if rng.random() < 0.5 else H + M if rng.random() < 0.3 else H if rng.random() < 0.4 else b"") + b"".join(
                rng.choice(TOKENS) + rng.choice([b" ", b" ", b"\n", b"\n", b""]) for _ in range(n))
            tag = "tokens"
        else:
            n = rng.choice([0, 1, 2, rng.randint(0, 200)])
            data = bytes(rng.getrandbits(8) if rng.random() < 0.3 else rng.choice(b"\n {}:.-01eHROTJ\r\t\xff") for _ in range(n))
            tag = "bytes"
        add(data, tag)

    # every prefix of a file, and every byte of it replaced
    for _ in range(cx.n(2, 12)):
        r = gen.skeleton(rng, n=rng.choice([2, 3]), num=gen.simple_number, chstyle="one", names=lambda g: g.choice([b"a", b"n:b"]))
        data = layout(rng, 0.5).render(file(rng, r, nf=1))
        for at in range(len(data) + 1):
            add(data[:at], "prefix", entry=rng.choice(BYTE_ENTRIES))
            if at < len(data):
                add(data[:at] + bytes([rng.choice(b"\n {}:\xff0-")]) + data[at + 1:], "replaced", entry="bytes")
                add(data[:at] + data[at + 1:], "deleted", entry="bytes")

    for n in cx.n([300, 20000, 100000], [300, 5000, 20000, 100000, 250000]):
        for tag, parts in heavy(n):
            add(parts, "heavy:" + tag, entry="bytes")
            if n < 100000 or cx.thorough:
                add(parts, "heavy:" + tag, entry="reader", chunks=[4096])

    res = cx.ad.run([[op] for op in ops])
    traces = []
    for i, (op, r) in enumerate(zip(ops, res)):
        r = r[0]
        if "none" in r or "skipped" in r:
            continue
        cx.count(tags[i].split(":")[0])
        size = len(op["data"]) if "data" in op else len(input_bytes(op))
        o = next((k for k in ("panic", "crash", "hang") if k in r), None) or ("ok" if r["ok"] else "err")
        cx.count("outcome:" + o)
        traces.append({"id": i, "size": size, "r": o, "kb": min(r.get("peak", 0) // 1024, 2**30), "ms": min(r.get("us", 0) // 1000, 2**30)})
    verdicts, st = validate(cx.work, "OutcomeTrace", traces, FOCUS)
    cx.add_tlc(st, len(traces))
    for tr in traces:
        v = verdicts[tr["id"]]
        if v["d"]:
            op = dict(ops[tr["id"]])
            cx.violation({"input": op, "observed": tr, "result": res[tr["id"]], "why": v["d"], "tag": tags[tr["id"]]})
    cx.note_distinct({str(op.get("data") or op.get("parts")) for op in ops})
    cx.sample({"tag": tags[-1], "input": str(ops[-1])[:300]})
    cx.sample({"tag": tags[0], "input": ops[0]})
