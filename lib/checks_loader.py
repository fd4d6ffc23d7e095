"""C01 to C08: what the loader does with bytes."""
import gen
import models
import oracle
from models import stratified
from core import validate
from loader import Batch, OUTCOMES, observation

BROKEN = ["panic", "crash", "hang"]
TEXT_ENTRIES = ["bytes_str", "str", "str_m", "parse", "try_str"]
BYTE_ENTRIES = ["bytes", "bytes_m", "try_bstr", "try_bytes", "slice", "cursor"]
READER_ENTRIES = ["reader", "reader_m", "bufreader"]
ALL = BROKEN + ["memory", "rejected", "accepted", "accepted-count", "accepted-io", "name", "offset", "endsite", "channels",
                "columns", "index", "parent", "root", "children", "njoints", "jointsmut", "nchannels", "frametime",
                "frames", "nframes", "kind", "line", "detail", "counts", "ioerror"]


def layout(rng, plain=0.5):
    return gen.Layout(rng, plain=rng.random() < plain)


def entry(rng, data):
    """A random entry point, with the arguments it needs."""
    k = rng.random()
    if k < 0.35:
        return {"entry": rng.choice(BYTE_ENTRIES)}
    if k < 0.6:
        return {"entry": rng.choice(TEXT_ENTRIES)} if is_utf8(data) else {"entry": "try_bstr"}
    kw = {"entry": rng.choice(READER_ENTRIES), "chunks": gen.chunks(rng, len(data))}
    if rng.random() < 0.4:
        kw["intr"] = sorted({rng.randint(0, 40) for _ in range(rng.randint(1, 6))})
    kw["cap"] = rng.choice([1, 2, 3, 7, 16, 64, 8192])
    return kw


def is_utf8(b):
    try:
        b.decode()
        return True
    except UnicodeDecodeError:
        return False


def add_cases(cx, b, cases, plain=0.7, entries=False):
    rng = cx.rng
    cx.replayed += len(cases)
    for lines, k in cases:
        data = layout(rng, plain).render(lines)
        b.add(data, tag="LoaderMC:" + k, **(entry(rng, data) if entries else {}))


def file(rng, root, nf=None, rows=None, num=gen.simple_number, lax=0.0, ft=None, count=None):
    nf = rng.choice([0, 1, 1, 2, 3]) if nf is None else nf
    rows = rows or rng.choice(["frame", "frame", "frame", "each", "one", "mixed"])
    return gen.hierarchy(root, rng, lax) + gen.motion(root, rng, nf, ft=ft, rows=rows, num=num, count=count)


def skeletons(cx, b, n, plain=0.7, **kw):
    rng = cx.rng
    for i in range(n):
        r = gen.skeleton(rng, **kw)
        b.add(layout(rng, plain).render(file(rng, r)), tag="skeleton")


def strange(cx, b, n):
    for _ in range(n):
        b.add(gen.strange(cx.rng), tag="strange")


def big_skeletons(cx, b, sizes, how=("chain", "star", "comb", "bushy", "random", "deepstar")):
    rng = cx.rng
    for n in sizes:
        for h in how:
            r = gen.skeleton(rng, n=n, how=h, num=gen.simple_number, chstyle=rng.choice(["one", "three", "mixed"]))
            b.add(gen.Layout().render(file(rng, r, nf=rng.choice([0, 1, 2]))), tag="big:" + h)


def c02(cx):
    b, rng = Batch(), cx.rng
    cases = models.loader_mc(cx, *cx.n((3, 2, 2), (4, 4, 2)), 9, True, True)
    add_cases(cx, b, [c for c in cases if c[1] == "Loaded"])
    skeletons(cx, b, cx.n(1500, 30000), num=gen.number)
    skeletons(cx, b, cx.n(150, 2000), maxj=40, num=gen.simple_number)
    for _ in range(cx.n(250, 5000)):
        # with lines between the statements that are none
        b.add(layout(rng, 0.7).render(file(rng, gen.skeleton(rng, maxj=6), lax=0.25)), tag="lax")
    # every byte next to every keyword: such lines are no statements
    for c in range(256):
        c = bytes([c])
        if oracle.SEP.match(c) or oracle.EXOTIC.search(c):
            continue
        for near in (lambda k: k + c, lambda k: c + k, lambda k: k + c + b"x", lambda k: k + c + k):
            lines = [[near(k), b"4", b"5", b"6"] for k in gen.KEYWORDS]
            rng.shuffle(lines)
            st = file(rng, gen.skeleton(rng, n=2, num=gen.simple_number))
            for l in lines:
                st.insert(rng.randint(0, next(i for i, x in enumerate(st) if x[0] == b"MOTION")), l)
            b.add(layout(rng, 0.9).render(st), tag="near")
    channel_counts(b, rng, cx.n(70, 300))
    names = list(gen.edges(cx.n(40, 300)))
    rng.shuffle(names)
    for at in range(0, len(names), 12):
        some = names[at:at + 12]
        r = gen.skeleton(rng, n=len(some), num=gen.simple_number)
        for j, nm in zip(r.walk(), some):
            j.name = nm
        b.add(gen.Layout().render(file(rng, r, nf=0)), tag="edgename")
    big_skeletons(cx, b, cx.n([48, 130], [48, 130, 300, 700]))
    for ln in cx.n([2000, 70000], [1000, 4095, 4096, 4097, 8192, 65535, 65536, 70000, 300000]):
        nm = bytes(rng.choice(b"abcdefgh:XYZ") for _ in range(ln))
        r = gen.skeleton(rng, n=2, names=lambda g, nm=nm: b"n" + nm, num=gen.simple_number)
        b.add(gen.Layout().render(file(rng, r, nf=0)), tag="longname")
    strange(cx, b, cx.n(350, 12000))
    b.run(cx.ad, cx, BROKEN + ["rejected", "njoints", "name", "offset", "endsite", "channels"])


def channel_counts(b, rng, upto):
    """Joints with every number of channels: a root with so many, and a child below a root with another number."""
    for n in range(upto + 1):
        r = gen.skeleton(rng, n=3, how="chain", num=gen.simple_number)
        js = list(r.walk())
        js[0].ch = [rng.choice(gen.CH) for _ in range(rng.choice([0, 1, n]))]
        js[1].ch = [rng.choice(gen.CH) for _ in range(n)]
        b.add(gen.Layout().render(file(rng, r, nf=1)), tag="channelcount")
        js[0].ch, js[1].ch = js[1].ch, js[0].ch
        b.add(gen.Layout().render(file(rng, r, nf=0)), tag="channelcount")


def c04_loader(cx):
    b, rng = Batch(), cx.rng
    cases = models.loader_mc(cx, *cx.n((3, 4, 2), (4, 8, 2)), 9, True, True)
    add_cases(cx, b, [c for c in cases if c[1] == "Loaded"])
    for style in ["mixed", "many", "six", "three", "one", "none"]:
        skeletons(cx, b, cx.n(150, 3000), chstyle=style, num=gen.simple_number)
    big_skeletons(cx, b, cx.n([60], [60, 200, 500]))
    channel_counts(b, rng, cx.n(40, 300))
    for _ in range(cx.n(6, 40)):
        # a joint with hundreds of channels
        r = gen.skeleton(rng, maxj=5, num=gen.simple_number)
        js = list(r.walk())
        j = rng.choice(js)
        j.ch = [rng.choice(gen.CH) for _ in range(rng.choice([31, 32, 33, 64, 100, 255, 256, 257, 400]))]
        b.add(gen.Layout().render(file(rng, r, nf=rng.choice([0, 1, 2]))), tag="manychannels")
    strange(cx, b, cx.n(350, 12000))
    b.run(cx.ad, cx, BROKEN + ["columns", "nchannels"])


def c05(cx):
    b, rng = Batch(), cx.rng
    cases = models.loader_mc(cx, 1, cx.n(2, 2), cx.n(4, 8), 9, True, True)
    cases = [c for c in cases if c[1] in ("Loaded", "MotionCountMismatch")]
    cases2 = models.loader_mc(cx, 2, cx.n(3, 4), cx.n(6, 12), 9, True, True)
    cases2 = [c for c in cases2 if c[1] in ("Loaded", "MotionCountMismatch")]
    add_cases(cx, b, cases + cases2)
    for i in range(cx.n(1300, 25000)):
        r = gen.skeleton(rng, maxj=6, num=gen.simple_number)
        nf = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 7, 12])
        n = r.channels()
        if n * nf > 300:
            nf = max(1, 300 // n)
        k = rng.random()
        count, extra = nf, 0
        st = None
        if k < 0.25:
            # too many or too few values, by any amount
            count = max(0, nf + rng.choice([-3, -2, -1, 1, 2, 3, 10, 255, 65536, 2**31 - 1 - nf, 2**32, 2**32 - nf, 2**63, 2**64 - 1 - nf]))
        st = file(rng, r, nf=nf, num=gen.number, count=count)
        if 0.25 <= k < 0.45 and n:
            rows = [x for x in range(len(st)) if x > 0 and st[x][0][:1] in b"+-.0123456789"]
            if rng.random() < 0.5 and rows:
                row = st[rng.choice(rows)]
                for _ in range(rng.choice([1, 1, 2, len(row)])):
                    if row:
                        row.pop(rng.randrange(len(row)))
                st = [x for x in st if x]
            else:
                st.append([gen.number(rng) for _ in range(rng.choice([1, 1, 2, n]))])
        b.add(layout(rng, 0.6).render(st), tag="motion")
    # many frames, and wide frames
    for nf, n in cx.n([(400, 3), (60, 60), (1, 1200)], [(400, 3), (60, 60), (1, 1200), (4000, 1), (1, 5000), (1000, 6), (3, 2000)]):
        r = gen.skeleton(rng, n=3, num=gen.simple_number, chstyle="none")
        r.ch = [gen.CH[i % 6] for i in range(n)]
        for rows in ["frame", "each", "one", "mixed"]:
            b.add(gen.Layout().render(file(rng, r, nf=nf, rows=rows, num=gen.number)), tag="big")
    # every spelling of a frame time the generator knows
    for _ in range(cx.n(300, 4000)):
        r = gen.skeleton(rng, n=1, num=gen.simple_number, chstyle="one")
        b.add(gen.Layout().render(file(rng, r, nf=1)), tag="frametime")
    # one number at a time: dense numeric coverage
    for _ in range(cx.n(60, 600)):
        r = gen.skeleton(rng, n=1, chstyle="six")
        b.add(gen.Layout().render(file(rng, r, nf=20, num=gen.number)), tag="numbers")
    # spellings of every length
    long = [x for n in cx.n(list(range(1, 150)) + [255, 256, 257, 400], list(range(1, 700)) + [1000, 1023, 1024, 1025, 4096])
            for x in gen.spellings(rng, n)]
    rng.shuffle(long)
    for at in range(0, len(long), 40):
        few = iter(long[at:at + 40] + [b"0"] * 40)
        r = gen.skeleton(rng, n=1, chstyle="six", num=gen.simple_number)
        r.ch = r.ch[:4] if len(r.ch) > 4 else [gen.CH[0]] * 4
        b.add(gen.Layout().render(file(rng, r, nf=10, num=lambda g: next(few))), tag="spellings")
    strange(cx, b, cx.n(250, 6000))
    b.run(cx.ad, cx, BROKEN + ["rejected", "frametime", "frames", "nframes", "nchannels", "counts", "accepted-count"])


GOOD = (b"HIERARCHY\nROOT a\n{\nOFFSET 1 2 3\nCHANNELS 1 Xposition\nJOINT b\n{\nEnd Site\n{\nOFFSET 4 5 6\n}\n}\n}\n"
        b"MOTION\nFrames: 2\nFrame Time: 0.5\n7\n8\n")


def c06(cx):
    b, rng = Batch(), cx.rng
    cases = models.loader_mc(cx, 2, 2, 3, 2, False, True)
    if not cx.thorough:
        one = models.loader_mc(cx, 1, 2, 3, 1, False, True)
        cases = models.stratified(rng, cases, 2500) + models.stratified(rng, one, 1500)
    else:
        models.loader_mc(cx, 3, 2, 3, 1, False, False)
    add_cases(cx, b, cases)
    for text, k in models.lines(cx, None):
        b.add(text, tag="LineMC:" + k, **entry(rng, text))
        cx.replayed += 1
    for i in range(cx.n(450, 9000)):
        r = gen.skeleton(rng, maxj=8, num=gen.simple_number)
        st = file(rng, r, lax=rng.choice([0, 0, 0, 0.15]))
        for _ in range(4):
            d = st
            for _ in range(rng.choice([1, 1, 1, 2])):
                d = gen.defect(d, rng)
            b.add(layout(rng, 0.5).render(d), tag="defect")
    # everything one edit away from a good file
    for data in (GOOD, GOOD.replace(b"\n", b"\r\n")[:-2]) if cx.thorough else (GOOD,):
        for text in gen.neighbours(data, bytes(range(256)) if cx.thorough else b"xs :\n1"):
            b.add(text, tag="neighbour", **entry(rng, text))
    for text in gen.line_neighbours(GOOD, gen.WORDS if cx.thorough else gen.KEYWORDS + [b"x", b"1", b"MOTION", b"Frames: 3", b"Xposition", b"OFFSET x", b":"]):
        b.add(text, tag="neighbour:line", **entry(rng, text))
    # a bad word far along a line
    for n in cx.n([3, 40, 1001, 4000], [3, 40, 255, 256, 1001, 4000, 32769, 65537]):
        for _ in range(cx.n(3, 6)):
            vals = [b"1"] * n
            for _ in range(rng.choice([1, 2])):
                vals[rng.choice([rng.randrange(n), n - 1])] = rng.choice(gen.BADNUM)
            b.add(b"HIERARCHY\nROOT a\n{\nCHANNELS 1 Xposition\n}\nMOTION\nFrames: %d\nFrame Time: 1\n" % n + b" ".join(vals) + b"\n", tag="defect:wide")
            chs = [rng.choice(gen.CH) for _ in range(min(n, 5000))]
            for _ in range(rng.choice([1, 2])):
                chs[rng.randrange(len(chs))] = rng.choice(gen.BADCH)
            b.add(b"HIERARCHY\nROOT a\n{\nCHANNELS %d " % n + b" ".join(chs) + b"\n}\nMOTION\nFrames: 0\nFrame Time: 1\n", tag="defect:wide")
    # a defect deep inside or at the end of something long
    for _ in range(cx.n(12, 200)):
        r = gen.skeleton(rng, n=rng.choice([20, 60]), num=gen.simple_number)
        st = file(rng, r, nf=rng.choice([1, 3, 20]))
        b.add(layout(rng, 0.5).render(gen.defect(st, rng)), tag="defect:long")
    strange(cx, b, cx.n(500, 15000))
    b.run(cx.ad, cx, BROKEN + ["accepted", "accepted-count", "rejected", "kind", "line", "detail", "counts"])


TINY = "HIERARCHY\nROOT r\n{\nCHANNELS 2 Xposition Zrotation\n}\nMOTION\nFrames: 1\nFrame Time: 7\n11 12\n"
SOURCES = [
    TINY, TINY[:-1], TINY.replace("\n", "\r\n"), "\n\n" + TINY.replace("MOTION", "\n\nMOTION").replace("11 12", "11\n\n12"),
    TINY.replace("\n}", "\nOFFSET 1 2\n}"), TINY.replace("Frames: 1", "Frames: x"), TINY.replace("11 12", "11 x 12"),
    TINY.replace("Frames: 1", "Frames: 2"), TINY[:TINY.index("MOTION")], TINY[:TINY.index("11")],
    TINY.replace("}\n", "JOINT k\n{\nOFFSET 1 2 3\nEnd Site\n{\nOFFSET 4 5 6\n}\n}\n}\n"),
    TINY.replace("CHANNELS 2 Xposition Zrotation\n", "").replace("11 12\n", "\n"), "", "\n", TINY + "13\n", TINY.replace("ROOT", "x:y\nROOT"),
]
BROAD = TINY.replace("}\n", "JOINT k\n{\nOFFSET 1 2 3\nEnd Site\n{\nOFFSET 4 5 6\n}\n}\nJOINT m\n{\nCHANNELS 1 Yposition\n}\n}\n")


def sources(cx, b, failing, most):
    """Deliveries of a text in pieces, from the model of a source."""
    rng, out = cx.rng, []
    if cx.thorough:
        models.source_mc(cx, SOURCES, failing, 6, 2, False)
        texts = SOURCES
    elif failing:
        texts = [TINY] + rng.sample(SOURCES[1:], 1)
    else:
        texts = [TINY] + rng.sample(SOURCES[1:], 5)
    for text, pieces, fault in stratified(rng, [(c, c[0]) for c in models.source_mc(cx, texts, failing, 3, 1, True)], most, first=True):
        kw = {"entry": rng.choice(READER_ENTRIES), "chunks": pieces + [1 << 20], "cap": rng.choice([1, 2, 5, 64, 8192])}
        if fault >= 0:
            kw["fault"] = failure(rng, fault)
        b.add(text, tag="SourceMC", **kw)
        cx.replayed += 1


def layouts(cx, b, most):
    """Layouts of the same statements, from the model of layouts."""
    rng = cx.rng
    def parts(t):
        ls = [l.split(" ") for l in t.splitlines()]
        k = next(i for i, l in enumerate(ls) if l[0] == "Frame") + 1
        return {"head": ls[:k], "vals": [v for l in ls[k:] for v in l]}
    two = TINY.replace("Frames: 1", "Frames: 2").replace("11 12", "11 12 13 14")
    files = [parts(t) for t in ([two, BROAD.replace("11 12", "11 12 13")])]
    blanks, leads, trails = ["", "\n", " \t\r\n\n"], ["", " ", "\t\f"], ["", " \t"]
    seps, ends = [" ", "\t", " \f \t"], ["\n", "\r\n"]
    if cx.thorough:
        models.layout_mc(cx, files + [parts(t) for t in SOURCES[4:8]], blanks + [" \n", "\r\n\r\n"],
                         leads + ["  ", "\r", "\t"], seps + ["  ", "\r", "\f"], trails + ["\t", "\r \r"], ends, False)
    else:
        files, blanks = [rng.choice(files)], ["", " \t\r\n\n"]
    texts = models.layout_mc(cx, files, blanks, leads, seps, trails, ends, True)
    if len(texts) > most:
        cx.notes.append("%d of %d layouts replayed" % (most, len(texts)))
        texts = rng.sample(texts, most)
    for t in texts:
        b.add(t, tag="LayoutMC", **entry(rng, t))
        cx.replayed += 1


ODD = [b"\xef\xbb\xbf", b"\r", b"\x00", b"\x0b", b"\x0c", b"\xc2\xa0", b"\xc2\x85", b"\xe2\x80\xa8", b"\xe3\x80\x80", b"\xff", b"\x1a", b"\\", b"\r\r\n", b"\n\r", b"#", b"\x7f", b"\xe2\x80\x8b"]


def ways(rng, data):
    """Every way to offer these bytes."""
    out = [{"entry": e} for e in BYTE_ENTRIES + (TEXT_ENTRIES if is_utf8(data) else [])]
    for e in READER_ENTRIES:
        out.append({"entry": e, "chunks": [1], "cap": rng.choice([1, 2, 8192])})
        out.append({"entry": e, "chunks": gen.chunks(rng, len(data)), "cap": rng.choice([1, 5, 64, 8192]), "intr": sorted({rng.randint(0, 30) for _ in range(3)})})
    return out


def agreeing(cx, n):
    """Texts of any kind, their meaning left open: the ways to load them agree."""
    rng, ops, where = cx.rng, [], []
    for _ in range(n):
        k = rng.random()
        st = file(rng, gen.skeleton(rng, maxj=4, num=gen.simple_number))
        data = gen.Layout(rng, plain=rng.random() < 0.5).render(st)
        if k < 0.2:
            data = rng.choice(ODD) + data
        elif k < 0.3:
            data = data + rng.choice(ODD)
        elif k < 0.6:
            c = rng.choice(ODD)
            for _ in range(rng.choice([1, 1, 2, 5])):
                at = rng.choice([m for m in range(len(data)) if data[m:m + 1] in b" \n\t:\r"] + [rng.randint(0, len(data))])
                data = data[:at] + c + data[at + rng.choice([0, 0, 1]):]
        elif k < 0.65:
            data = data.replace(b"\r\n", b"\n").replace(b"\n", rng.choice(ODD))
        elif k < 0.7:
            data = b"".join(bytes([c, 0]) for c in data) if rng.random() < 0.5 else b"\x00".join(data.split(b" "))
        elif k < 0.8:
            data = gen.mutate_bytes(data, rng)
        elif k < 0.9:
            data = gen.strange(rng)
        else:
            data = gen.Layout(rng, plain=False).render(gen.defect(st, rng))
        ws = ways(rng, data)
        where.append((len(ops), len(ws), data))
        ops += [dict({"op": "load", "data": data.decode("latin-1")}, **w) for w in ws]
    res = cx.ad.run([[op] for op in ops])
    traces, src = [], []
    for at, m, data in where:
        got = [observation(res[j][0])[0] for j in range(at, at + m)]
        if any(g["r"] == "skipped" for g in got):
            continue
        src.append(at)
        traces.append({"id": len(traces), "results": got})
    verdicts, st = validate(cx.work, "AgreeTrace", traces, ["agree"])
    cx.add_tlc(st, len(traces))
    cx.count("agreeing", len(traces))
    for tr in traces:
        v = verdicts[tr["id"]]
        if v["d"]:
            at = src[tr["id"]]
            cx.violation({"input": ops[at], "ways": [ops[at + w - 1] for w in v["ways"]], "first": tr["results"][0],
                          "others": [tr["results"][w - 1] for w in v["ways"]], "why": v["d"], "tag": "agreeing"})


def c07(cx):
    b, rng = Batch(), cx.rng
    agreeing(cx, cx.n(350, 6000))
    layouts(cx, b, cx.n(2500, 12000))
    sources(cx, b, False, cx.n(2500, 12000))
    # the same statements through every entry point, in many layouts and chunkings
    for i in range(cx.n(60, 900)):
        r = gen.skeleton(rng, maxj=6, num=gen.simple_number)
        st = file(rng, r, num=rng.choice([gen.number, gen.simple_number]))
        if rng.random() < 0.25:
            st = gen.defect(st, rng)
        for _ in range(cx.n(24, 30)):
            # other rows with the same numbers
            s2 = st
            if rng.random() < 0.5:
                k = next((x for x in range(len(st)) if st[x][0] == b"Frame"), None)
                if k is not None and all(x[0][:1] in b"+-.0123456789" for x in st[k + 1:]):
                    vals = [v for row in st[k + 1:] for v in row]
                    s2 = st[:k + 1] + gen.split_rows(vals, r.channels(), rng, rng.choice(["frame", "each", "one", "mixed", "mixed"]))
            data = gen.Layout(rng, plain=rng.random() < 0.1).render(s2)
            b.add(data, tag="layout", **entry(rng, data))
    # every entry point on the same text
    for i in range(cx.n(10, 100)):
        r = gen.skeleton(rng, maxj=6, num=gen.simple_number, names=rng.choice([gen.name, lambda g: g.choice(gen.PLAIN)]))
        data = gen.Layout(rng, plain=False).render(file(rng, r))
        for e in BYTE_ENTRIES + (TEXT_ENTRIES if is_utf8(data) else []):
            b.add(data, tag="entry", entry=e)
        for e in READER_ENTRIES:
            b.add(data, tag="entry", entry=e, chunks=[1], cap=1)
            b.add(data, tag="entry", entry=e, chunks=[3], cap=5, intr=list(range(0, 400, 2)))
            b.add(data, tag="entry", entry=e, chunks=[len(data)], cap=4096)
    # a chunk boundary at every offset, with and without an interruption there
    for i in range(cx.n(3, 12)):
        r = gen.skeleton(rng, n=rng.choice([1, 2]), num=gen.simple_number, names=lambda g: g.choice([b"a", b"n:b"]))
        data = gen.Layout(rng, plain=False).render(file(rng, r))
        for at in range(1, len(data)):
            b.add(data, tag="boundary", entry=rng.choice(["reader", "reader_m"]), chunks=[at, 1 << 20], intr=rng.choice([[], [0], [1], [0, 1, 2, 4]]))
    b.run(cx.ad, cx, ALL)


FAULTS = ["NotFound", "PermissionDenied", "ConnectionReset", "BrokenPipe", "WouldBlock", "InvalidInput", "InvalidData",
          "TimedOut", "WriteZero", "UnexpectedEof", "Other", "OutOfMemory", "Unsupported"]


def failure(rng, at):
    """A failure after so many bytes; afterwards the reader may fail again, end, or go on as if nothing had happened."""
    return {"at": at, "kind": rng.choice(FAULTS), "msg": rng.choice(["disk on fire", "lost", "x%dy" % at]),
            "then": rng.choice(["fail", "fail", "end", "more"])}


def c08(cx):
    b, rng = Batch(), cx.rng
    sources(cx, b, True, cx.n(3000, 15000))
    def fault(data, at, e=None):
        b.add(data, tag="fault", entry=e or rng.choice(READER_ENTRIES), chunks=gen.chunks(rng, len(data)) if rng.random() < 0.8 else [1 << 20],
              cap=rng.choice([1, 3, 7, 64, 8192]), fault=failure(rng, at),
              intr=sorted({rng.randint(0, 30) for _ in range(3)}) if rng.random() < 0.2 else [])
    # a failure at every byte offset of small files
    for i in range(cx.n(9, 120)):
        r = gen.skeleton(rng, maxj=4, num=gen.simple_number, names=rng.choice([gen.name, lambda g: g.choice(gen.PLAIN)]))
        st = file(rng, r)
        if i % 3 == 2:
            st = gen.defect(st, rng)
        data = gen.Layout(rng, plain=rng.random() < 0.6).render(st)
        for at in range(0, len(data) + 1):
            fault(data, at)
    # every kind of error, at a few offsets
    r = gen.skeleton(rng, n=3, num=gen.simple_number)
    data = gen.Layout().render(file(rng, r, nf=2))
    for kind in FAULTS:
        for e in READER_ENTRIES:
            for at in sorted({0, 1, len(data) // 3, data.index(b"MOTION"), data.index(b"MOTION") + 7, data.index(b"Frame Time"), len(data) - 1, len(data)}):
                b.add(data, tag="kind", entry=e, cap=16, fault={"at": at, "kind": kind, "msg": "m" + kind})
    # random offsets of larger files
    for i in range(cx.n(60, 600)):
        r = gen.skeleton(rng, maxj=20, num=gen.simple_number)
        data = gen.Layout(rng, plain=rng.random() < 0.6).render(file(rng, r, nf=rng.choice([0, 1, 5])))
        for _ in range(4):
            fault(data, rng.choice([rng.randint(0, len(data)), len(data), len(data) - 1, max(0, len(data) - rng.randint(0, 20))]))
    b.run(cx.ad, cx, BROKEN + ["accepted-io", "accepted", "rejected", "kind", "line", "ioerror"])
