"""Files of tens of thousands of joints, channels and frames (spec/BvhScale.tla)."""
import struct

import session
from core import ToolError, tlc, validate
from loader import observation

CH = [b"Xposition", b"Yposition", b"Zposition", b"Xrotation", b"Yrotation", b"Zrotation"]
EDGES = [0, 1, 2, 3, 126, 127, 128, 129, 254, 255, 256, 257, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 65538]
ALL = ["joints", "tree", "columns", "frames", "frametime", "access", "panic", "crash", "hang", "rejected", "unequal"]


def par(g, i):
    if i == 0:
        return -1
    if g["shape"] == "comb":
        return (i - 1) // g["p"] * g["p"]
    return i - 1 if i <= g["n"] // 2 else 2 * (g["n"] // 2) - i


def nch(g, i):
    return g["w"] if i == 0 else i % g["m"]


def columns(g):
    return sum(nch(g, i) for i in range(g["n"]))


def text(g, x=None):
    """The file, or the file with a defect (BvhScale: ErrorOf)."""
    what, at, k = (x["what"], x["i"], x["k"]) if x else ("", -1, -1)
    out = [b"HIERARCHY\n"]
    stack = []
    parents = [par(g, i) for i in range(g["n"])]
    inner = set(parents)
    col = 0
    for i in range(g["n"]):
        while stack and stack[-1] != parents[i]:
            stack.pop()
            out.append(b"}\n")
        stack.append(i)
        here = what if i == at else ""
        xyz = [b"%d" % (i % m) for m in (1000, 7, 11)]
        if here == "axis":
            xyz[k] = b"1e"
        out.append(b"%s%s\n{\nOFFSET %s\nCHANNELS %s" % (b"JOINT" if i else b"ROOT", b"" if here == "name" else b" j%d" % i, b" ".join(xyz),
                                                        b"-1" if here == "count" else b"%d" % nch(g, i)))
        for c in range(nch(g, i)):
            out.append(b" " + (b"Xpos" if here == "channel" and c == k else CH[(col * 5 + col // 7) % 6]))
            col += 1
        out.append(b"\n")
        if i not in inner and i % 2 == 0:
            out.append(b"End Site\n{\nOFFSET %d 0 1\n}\n" % (i % 13))
    out.append(b"}\n" * len(stack))
    out.append(b"MOTION\nFrames: %d\nFrame Time: 0.25\n" % g["nf"])
    for r in range(g["nf"] if col else 0):
        row = [b"%d" % ((r * col + c) % 9973) for c in range(col)]
        if r == at and what == "value":
            row[k] = b"1e"
        elif r == at and what == "short":
            row.pop()
        elif r == at and what == "long":
            row.append(b"7")
        out.append(b" ".join(row) + b"\n")
    return b"".join(out)


def plain(bits):
    """A single-precision value as the text of an integer, if it is one."""
    if not bits:
        return ""
    f = struct.unpack(">f", bytes.fromhex(bits))[0]
    return str(int(f)) if f == f and abs(f) < 2**24 and f == int(f) and bits != "80000000" else bits


def files(cx):
    def g(shape, n, p=1, w=0, m=1, nf=0):
        return {"shape": shape, "n": n, "p": p, "w": w, "m": m, "nf": nf}
    out = [g("comb", 66000, p=66000, m=2), g("comb", 70001, p=1), g("comb", 66100, p=257, m=3, nf=1), g("broom", 66001, w=3, m=2),
           g("broom", 1001, w=1, m=5, nf=3), g("comb", 1, w=66000, nf=2), g("comb", 1, w=1, nf=66000), g("comb", 301, p=7, w=6, m=4, nf=150),
           g("comb", 3, p=1, w=300, m=4, nf=300), g("comb", 33000, p=33000, m=4, nf=1)]
    if cx.thorough:
        out += [g("comb", 300000, p=2, w=3, m=2), g("broom", 250000, m=2), g("comb", 2, w=300000, m=2, nf=2), g("comb", 1, w=2, nf=1000000),
                g("comb", 5000, p=50, w=6, m=4, nf=100)]
    return out


def model(cx, spoil=False):
    c = {"MaxJoints": cx.n(4, 7) if spoil else cx.n(7, 12), "MaxParam": cx.n(3, 4) if spoil else cx.n(4, 6), "Spoil": spoil}
    r = tlc(cx.work, "ScaleMC", c, invariants=["Coherent", "Loaded", "Placed", "Fails"])
    if r.violated:
        raise ToolError("ScaleMC: " + r.violated + r.out[-3000:])
    cx.add_mc("ScaleMC", r, c)


def scale(cx, focus, again=False, entries=("bytes", "reader", "bufreader", "str")):
    """Load huge files (again: write and load them once more) and look at samples of them."""
    rng = cx.rng
    model(cx)
    cases, gs = [], files(cx)
    for g in gs:
        n = g["n"]
        js = sorted({i for i in EDGES + [n - 1, n - 2, n // 2, n // 2 + 1] + [rng.randrange(n) for _ in range(25)] if 0 <= i < n})
        cols = columns(g)
        vals = []
        if cols and g["nf"]:
            for _ in range(60):
                pick = lambda k: rng.choice([i for i in EDGES + [k - 1, k - 2] if 0 <= i < k]) if rng.random() < 0.6 else rng.randrange(k)
                vals.append([pick(g["nf"]), pick(cols)])
        look = {"op": "probe", "joints": js, "vals": vals}
        op = {"op": "load", "data": text(g).decode(), "entry": rng.choice(entries), "snap": False, "cap": 8192, "chunks": [4096]}
        ops = [op, look]
        if again:
            ops += [{"op": "reload", "to": "b", "opts": {"indent": "none" if n > 5000 else "tabs"}, "entry": "bytes", "snap": False}, dict(look, slot="b")]
        cases.append(ops)
    traces = []
    for i, (g, ops, res) in enumerate(zip(gs, cases, cx.ad.run(cases, hang_s=120))):
        looks = []
        for op, r in zip(ops, res):
            bad = session.outcome(r)
            if bad:
                looks.append({"is": "broken", "how": bad})
                break
            if op["op"] in ("load", "reload"):
                if not r["ok"]:
                    looks.append({"is": "broken", "how": "rejected"})
                    break
                if op["op"] == "reload" and not r["eq"]:
                    looks.append({"is": "broken", "how": "unequal"})
                continue
            looks.append({"is": "totals", "o": {k: r[k] for k in ("nj", "nm", "nc", "nf", "ft", "columns", "odd")}})
            if (r["nj"], r["nc"]) != (g["n"], columns(g)):
                continue
            for k, o in zip(op["joints"], r["joints"]):
                if not o:
                    looks.append({"is": "broken", "how": "joints"})
                    continue
                o["off"], o["es"] = [plain(x) for x in o["off"]], [plain(x) for x in o["es"]]
                o["ch"] = [[a, b, plain(v)] for a, b, v in o["ch"]]
                looks.append({"is": "joint", "i": k, "o": o})
            looks += [{"is": "value", "r": a, "c": b, "o": plain(o)} for (a, b), o in zip(op["vals"], r["vals"])]
        traces.append({"id": i, "g": g, "ft": "250000000", "looks": looks})
    verdicts, st = validate(cx.work, "ScaleTrace", traces, focus)
    cx.add_tlc(st, len(traces))
    cx.count("scale:looks", sum(len(t["looks"]) for t in traces))
    cx.note_distinct({str(g) for g in gs})
    for i, v in verdicts.items():
        if v["d"]:
            cx.violation({"file": gs[i], "why": v["d"], "tag": "scale"})


def failures(cx):
    """Huge files whose reader fails."""
    rng = cx.rng
    model(cx, True)
    src, cases = [], []
    for g in files(cx):
        data = text(g)
        near = [k * m + d for k in (4096, 8192, 65536, 1 << 20) for m in (1, 2, 3) for d in (-1, 0, 1)]
        at = data.index(b"MOTION")
        near += [at + d for d in (-2, -1, 0, 1, 6, 7, 14, 15, 16)] + [len(data), len(data) - 1, len(data) - 2] + [rng.randrange(len(data)) for _ in range(8)]
        for a in rng.sample([x for x in near if 0 <= x <= len(data)], cx.n(4, 16)):
            f = {"at": a, "kind": rng.choice(["NotFound", "BrokenPipe", "UnexpectedEof", "Other", "InvalidData", "WouldBlock", "ConnectionReset"]), "msg": "lost at %d" % a,
                 "then": rng.choice(["fail", "end", "more"])}
            src.append((g, {"what": "io", "i": data[:a].count(b"\n"), "k": 0}, f))
            cases.append([{"op": "load", "data": data.decode(), "entry": rng.choice(["reader", "bufreader", "reader_m"]), "snap": False,
                           "cap": rng.choice([64, 8192, 65536]), "chunks": [rng.choice([1000, 4096, 65536, 1 << 20])], "fault": f}])
    judge_errors(cx, src, cases, "failures")


def judge_errors(cx, src, cases, tag):
    traces = []
    for i, ((g, x, f), r) in enumerate(zip(src, cx.ad.run(cases, hang_s=120))):
        bad = session.outcome(r[0])
        if not bad and r[0]["ok"]:
            bad = "accepted"
        if bad:
            looks = [{"is": "broken", "how": bad}]
        else:
            e = observation(r[0])[0]["err"]
            looks = [{"is": "error", "x": x, "o": {k: e[k] for k in ("sec", "kind", "line", "axis", "idx", "act", "exp", "fr", "cl", "bad")}}]
            looks[0]["io"] = {k: e["io"].get(k, "") for k in ("kind", "msg")} if e.get("io") else {"kind": "", "msg": ""}
            looks[0]["failure"] = {"kind": f["kind"], "msg": f["msg"]} if f else {"kind": "", "msg": ""}
        traces.append({"id": i, "g": g, "ft": "250000000", "looks": looks})
    verdicts, st = validate(cx.work, "ScaleTrace", traces, ALL + ["accepted", "error"])
    cx.add_tlc(st, len(traces))
    cx.count("scale:" + tag, len(traces))
    for i, v in verdicts.items():
        if v["d"]:
            cx.violation({"file": src[i][0], "defect": src[i][1:], "why": v["d"], "observed": traces[i]["looks"], "tag": "scale"})


def defects(cx):
    """Huge files with one defect."""
    rng = cx.rng
    model(cx, True)
    def edge(n):
        return rng.choice([i for i in EDGES + [n - 1, n - 2, 8191, 8192, 16383, 16384, 16385] if 0 <= i < n] + [rng.randrange(n)])
    cases, src = [], []
    for g in files(cx):
        cols = columns(g)
        for _ in range(cx.n(3, 12)):
            xs = [{"what": y, "i": edge(g["n"]), "k": rng.randrange(3) if y == "axis" else 0} for y in ("axis", "name", "count")]
            wide = [i for i in [edge(g["n"]) for _ in range(20)] if nch(g, i)]
            if wide:
                xs.append({"what": "channel", "i": wide[0], "k": edge(nch(g, wide[0]))})
            if cols and g["nf"]:
                xs += [{"what": "value", "i": edge(g["nf"]), "k": edge(cols)}] * 3
                xs.append({"what": rng.choice(["short", "long"]), "i": g["nf"] - 1, "k": cols - 1})
            x = rng.choice(xs)
            src.append((g, x, None))
            cases.append([{"op": "load", "data": text(g, x).decode(), "entry": rng.choice(["bytes", "reader", "bufreader", "str"]), "snap": False, "cap": 8192, "chunks": [4096]}])
    judge_errors(cx, src, cases, "defects")


def histories(cx, what):
    """Histories on Bvhs whose frames or channels are counted in tens of thousands."""
    rng = cx.rng
    out = []

    def start(nch, nf):
        g = session.Gen(rng)
        data = b"HIERARCHY\nROOT a\n{\nCHANNELS %d%s\n}\nMOTION\nFrames: %d\nFrame Time: 0.25\n" % (
            nch, b" Xposition Zrotation"[:10] * nch if nch < 3 else b" Xposition" * nch, nf)
        data += b"".join(b" ".join(b"%d" % ((r * nch + c) % 9973) for c in range(nch)) + b"\n" for r in range(nf))
        g.ops.append({"op": "load", "slot": "a", "data": data.decode(), "entry": "bytes"})
        g.sk["a"], g.names["a"], g.nf["a"] = [nch], [b"a"], nf
        return g

    def end(g, after):
        g.snap("a", after)
        out.append(g.ops)

    for nch, nf in ((1, 65538), (2, 32770)):
        g = start(nch, nf)
        if what == "cursor":
            s = [["last"], ["prev"], ["prev"], ["surr"], ["rm"], ["next"], ["next"], ["next"], ["ins", g.fresh(nch), "vec"], ["ins", g.fresh(nch), "slice"],
                 ["prev"], ["ins", g.fresh(nch + 1), "vec"], ["insm", [g.fresh(nch) for _ in range(5)], "exact"], ["setp", nch - 1, session.value(rng)],
                 ["first"], ["prev"], ["ins", g.fresh(nch), "vec"], ["rm"], ["last"], ["rm"], ["prev"], ["setn", 0, session.value(rng)], ["rm"], ["rm"],
                 ["insm", [g.fresh(nch) for _ in range(4)], "huge"], ["prev"], ["prev"]]
            g.ops.append({"op": "cursor", "slot": "a", "script": s + [[rng.choice(["into", "from", "intom", "fromm"])]]})
            g.ops.append({"op": "cursor", "slot": "a", "script": [["last"], ["rm"], ["rmall"], ["rm"], ["ins", g.fresh(nch), "vec"]]})
            end(g, "cursor")
        elif what == "iter":
            for mut in (False, True):
                far = [65535, 65536, 255, 256, 1, nf - 70000 if nf > 70000 else 30000]
                script = [{"c": rng.choice(["nth", "nthb", "n", "b"]), "k": rng.choice(far + [0])} for _ in range(6)]
                script.append({"c": rng.choice(["count", "last"]), "k": 0})
                if mut:
                    for c in script:
                        c["set"] = [[0, session.value(rng), "set"]]
                g.ops.append({"op": "iter", "slot": "a", "mut": mut, "script": script, "from": rng.choice([0, 1, 3])})
            end(g, "iter")
    if what in ("access", "cursor"):
        nch = 66000
        g = start(nch, 2)
        if what == "access":
            script = []
            for i in [0, 255, 256, 32768, 65535, 65536, 65537, nch - 1, nch, nch + 1, 70000, 131072, 2**31 - 2]:
                for c in ("get", "idx", "set", "setm", "setidx"):
                    cmd = {"f": rng.choice([0, 1]), "via": "m" if c.startswith("set") else rng.choice("sm"), "c": c}
                    if c in ("set", "get") and i < nch and rng.random() < 0.5:
                        cmd.update(ch=["a", 0, i], byref=rng.random() < 0.5)
                    else:
                        cmd["i"] = i
                    if c.startswith("set"):
                        cmd["v"] = session.value(rng)
                    script.append(cmd)
            g.ops.append({"op": "access", "slot": "a", "script": script})
            end(g, "access")
        else:
            g.ops.append({"op": "cursor", "slot": "a", "nopeek": True, "script": [
                ["next"], ["ins", g.fresh(nch), "vec"], ["ins", g.fresh(nch % 65536), "vec"], ["ins", g.fresh(nch - 1), "vec"], ["ins", g.fresh(1), "vec"],
                ["prev"], ["setp", 65536, session.value(rng)], ["setn", 65535, session.value(rng)], ["setn", nch, session.value(rng)], ["rm"]]})
            end(g, "cursor")
    return out


def huge(cx, what, focus):
    session.run(cx, histories(cx, what), focus, "huge")


BROKEN = ["panic", "crash", "hang", "rejected"]


def c02(cx):
    scale(cx, BROKEN + ["joints"])


def c03(cx):
    scale(cx, BROKEN + ["tree"])


def c04(cx):
    scale(cx, BROKEN + ["columns", "access"])


def c05(cx):
    scale(cx, BROKEN + ["frames", "frametime"])


def c06(cx):
    defects(cx)


def c08(cx):
    failures(cx)


def c09(cx):
    scale(cx, ALL, again=True)
