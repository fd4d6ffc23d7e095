"""C21: how Bvhs and their parts compare."""
import numpy as np

import gen
import oracle
import session
from checks_loader import file
from checks_session import mc, pick
from core import validate
from loader import snap_for_spec

FOCUS = ["bvh", "joint", "frame", "framemut", "channel", "hash"]


def text_of(h):
    return oracle.text32(h).encode()


def bits(x):
    return "%08x" % np.float32(x).view(np.uint32)


def near(rng):
    """A number, and one like it but different."""
    while True:
        b = rng.choice([0x3f800000, 1, 0x7f7fffff, 0x00800000, rng.getrandbits(32), 0x42280000])
        b &= rng.choice([0xffffffff, 0x7fffffff])
        c = rng.choice([b + 1, b - 1, b ^ 0x80000000, b ^ 1 << rng.randrange(31), 0x7f800000])
        x, y = "%08x" % b, "%08x" % (c & 0xffffffff)
        if oracle.finite(x) and b & 0x7fffffff and c & 0x7fffffff and (oracle.finite(y) or c == 0x7f800000):
            return x, y


def names(rng):
    """A name, and one like it but different."""
    n = bytes(rng.choice(b"abcXYZ019_.-") for _ in range(rng.choice([1, 2, 7, 15, 16, 22, 23, 24, 25, 31, 32, 64, 200])))
    k = rng.choice([0, len(n) - 1, rng.randrange(len(n))])
    if rng.random() < 0.3:  # different bytes none of which is a character, or characters that look alike
        x, y = rng.choice([rng.sample([b"\xff", b"\xfe", b"\xf8", b"\xc0", b"\xc1"], 2), ["\u00e9".encode(), "e\u0301".encode()],
                           ["\ufffd".encode(), b"\xff"], [b"\x00", b"\x01"], ["\u212b".encode(), "\u00c5".encode()]])
        return n[:k] + x + n[k:], n[:k] + y + n[k:]
    return n, rng.choice([n + b"x", n + n[-1:], n[:k] + (b"Q" if n[k] != 81 else b"R") + n[k + 1:], n.swapcase() if n.swapcase() != n else n + b"a",
                          n[:k] + bytes([n[k] | 128]) + n[k + 1:]])


def render(rng, x, num, name, chans):
    """The file for a Bvh of EqualityMC."""
    js = []
    for j in x["sk"]:
        g = gen.Joint(name[j["name"]], [num(v) for v in j["off"]], [chans[c] for c in j["ch"]], [num(v) for v in j["es"]] if j["es"] else None)
        js.append(g)
        if j["par"] >= 0:
            js[j["par"]].kids.append(g)
    vals = [num(v) for f in x["frames"] for v in f]
    st = gen.hierarchy(js[0]) + [[b"MOTION"], [b"Frames:", b"%d" % len(x["frames"])], [b"Frame", b"Time:", b"1"]]
    return gen.Layout(rng, plain=rng.random() < 0.8).render(st + gen.split_rows(vals, x["nch"], gen_rows, "frame"))


class gen_rows:
    """No chance in how rows are split."""
    random = staticmethod(lambda: 1.0)


def comparison(rng, g, js=range(12), fs=range(6), cs=range(16)):
    """Compare a and b, after looking at both."""
    g.ops += [{"op": "snap", "slot": "a"}, {"op": "snap", "slot": "b"},
              {"op": "compare", "slot": "a", "to": "b", "js": list(js), "fs": list(fs), "cs": list(cs)}]


def judge(cx, hist, tag):
    res = cx.ad.run(hist)
    traces, src = [], []
    for h, (ops, rs) in enumerate(zip(hist, res)):
        bad = next((r for r in rs if any(k in r for k in ("panic", "crash", "hang"))), None)
        if bad is not None:
            cx.violation({"history": ops[:len(rs)], "why": "panic", "result": bad, "tag": tag})
            continue
        if len(rs) < len(ops) or "eq" not in rs[-1]:
            continue
        src.append(h)
        op = ops[-1]
        traces.append({"id": len(traces), "a": snap_for_spec(rs[-3]), "b": snap_for_spec(rs[-2]), "js": op["js"], "fs": op["fs"], "cs": op["cs"], "o": rs[-1]})
    verdicts, st = validate(cx.work, "EqualityTrace", traces, FOCUS)
    cx.add_tlc(st, len(traces))
    cx.count(tag, len(traces))
    for tr in traces:
        v = verdicts[tr["id"]]
        if v["d"]:
            cx.violation({"history": hist[src[tr["id"]]], "why": v["d"], "observed": tr["o"], "tag": tag})
    cx.note_distinct({str(h) for h in hist})


def c21(cx):
    rng = cx.rng
    cases = mc(cx, "EqualityMC", {"MaxChanges": 2}, ["Laws", "Emitted"], constraint=None)
    hist = []
    for c in pick(cx, cases, cx.n(3500, 60000)):
        n1, n2 = near(rng)
        nm = dict(zip("jk", names(rng)))
        num = {"3f800000": n1, "3f800001": n2, "7fc00000": "7fc00000", "00000000": "00000000", "80000000": "80000000"}
        six = rng.sample(gen.CH, 6)
        chans = {"Xposition": six[0], "Xrotation": six[1], "Yrotation": six[2]}
        g = session.Gen(rng)
        for s in "ab":
            d = render(rng, c[s], lambda v: text_of(num[v]), nm, chans)
            g.ops.append({"op": "load", "slot": s, "data": d.decode("latin-1"), "entry": "bytes", "snap": False})
        t = rng.choice([0, 1, 999999999, 33333333, rng.getrandbits(29)])
        for s in "ab":
            n = rng.choice([t, t]) + (1 if c[s]["ft"] == "2" else 0)
            g.ops.append({"op": "setft", "slot": s, "s": str(rng.choice([7]) if n < 10**9 else 8), "n": n % 10**9})
        comparison(rng, g)
        hist.append(g.ops)
    judge(cx, hist, "EqualityMC")
    # skeletons of any shape; the second differs from the first by what becomes of one line
    hist = []
    for _ in range(cx.n(500, 8000)):
        g = session.Gen(rng)
        r = gen.skeleton(rng, maxj=8, num=rng.choice([gen.simple_number, gen.number]))
        st = file(rng, r, nf=rng.choice([1, 2, 5]), num=gen.number)
        two = [list(l) for l in st]
        k = rng.random()
        if k < 0.2:
            # one more joint somewhere, one more frame, or one more channel
            m = next(i for i, l in enumerate(two) if l[0] == b"MOTION")
            at = rng.choice([m - 1, m - 1] + [i for i, l in enumerate(two) if l[0] in (b"JOINT", b"}") and i < m])
            more = file(rng, gen.skeleton(rng, n=1, chstyle="none", num=gen.simple_number), nf=0)
            two[at:at] = [[b"JOINT", rng.choice(list(r.walk())).name]] + more[2:next(i for i, l in enumerate(more) if l[0] == b"MOTION")]
        elif k < 0.85:
            k = rng.randrange(len(two))
            l = two[k]
            i = rng.randrange(len(l))
            if l[0] in (b"ROOT", b"JOINT") and len(l) > 1:
                l[1] = rng.choice(names(rng))
            elif l[0] == b"CHANNELS" and len(l) > 2:
                l[rng.randrange(2, len(l))] = rng.choice(gen.CH)
            elif l[0] == b"OFFSET" or k > len(two) - 4:
                l[i if l[0] != b"OFFSET" else rng.randrange(1, 4)] = gen.number(rng)
        for s, x in ("a", st), ("b", two):
            g.ops.append({"op": "load", "slot": s, "data": gen.Layout(rng, plain=rng.random() < 0.5).render(x).decode("latin-1"), "entry": "bytes", "snap": False})
        comparison(rng, g)
        hist.append(g.ops)
    judge(cx, hist, "lines")
    # large ones, with one difference somewhere, or none
    hist = []
    for nj, nf in cx.n([(40, 40), (3, 1500), (250, 2)], [(40, 40), (3, 1500), (250, 2), (1, 9000), (1500, 1), (100, 200)]):
        for what in ("value", "offset", "name", "same", "last", "frames"):
            r = gen.skeleton(rng, n=nj, num=gen.simple_number, chstyle="one" if nj < 4 else "mixed")
            g = session.Gen(rng)
            st = gen.hierarchy(r) + gen.motion(r, rng, nf, ft=b"1", num=gen.simple_number)
            m = next(i for i, l in enumerate(st) if l[0] == b"MOTION")
            two = [list(l) for l in st]
            js = list(range(3)) + list(range(max(3, nj - 3), nj))
            fs = list(range(2)) + list(range(max(2, nf - 2), nf))
            if what in ("value", "last") and len(two) > m + 3:
                k = rng.randrange(m + 3, len(two)) if what == "value" else len(two) - 1
                two[k][rng.randrange(len(two[k])) if what == "value" else -1] = b"12345.5"
                fs = sorted(set(fs + [min(k - m - 3, nf - 1)]))
            elif what == "offset":
                k = rng.choice([i for i, l in enumerate(two) if l[0] == b"OFFSET"])
                two[k][rng.randrange(1, 4)] = b"12345.5"
            elif what == "name":
                k = rng.choice([i for i, l in enumerate(two) if l[0] == b"JOINT"] or [1])
                two[k][1] = two[k][1] + b"x"
            elif what == "frames" and r.channels():
                two = two[:m] + gen.motion(r, rng, nf - 1, ft=b"1", num=gen.simple_number)
            for s, x in ("a", st), ("b", two):
                g.ops.append({"op": "load", "slot": s, "data": gen.Layout().render(x).decode("latin-1"), "entry": "bytes", "snap": False})
            comparison(rng, g, js, fs, rng.sample(range(max(1, r.channels())), min(8, max(1, r.channels()))))
            g.ops[-1]["cs"].sort()
            hist.append(g.ops)
    # many channels of the same type, alike but for their columns; and wide frames
    for n in cx.n([40, 70, 140, 300, 600], [40, 70, 140, 300, 600, 1100, 2100, 4200]):
        for kids in (0, 1, 5):
            g = session.Gen(rng)
            r = gen.skeleton(rng, n=1 + kids, num=gen.simple_number, chstyle="none")
            for j in r.walk():
                j.ch = [rng.choice(gen.CH)] * (n // (1 + kids))
            total = r.channels()
            one = file(rng, r, nf=2, num=lambda g: b"1")
            two = [list(l) for l in one]
            k = rng.randrange(1 + next(i for i, l in enumerate(two) if l[0] == b"Frame"), len(two))
            two[k][rng.choice([-1, 0, rng.randrange(len(two[k]))])] = rng.choice([b"1", b"2", b"nan"])
            for s, x in ("a", one), ("b", two):
                g.ops.append({"op": "load", "slot": s, "data": gen.Layout().render(x).decode("latin-1"), "entry": "bytes", "snap": False})
            at = {0, 1, 2, total - 1} | {2 ** e + d for e in range(3, 13) for d in (-1, 0, 1)}
            comparison(rng, g, range(6), range(2), sorted(c for c in at if c < total))
            hist.append(g.ops)
    judge(cx, hist, "large")
    cx.sample({"history": hist[-1][-1]})


def c22(cx):
    import checks_writer
    checks_writer.setters(cx, True)
