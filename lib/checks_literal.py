"""C16: literals."""
import json

import gen
import oracle
from core import tlc, validate, ToolError
from literals import Literals, rust_tokens
from loader import snap_for_spec
from models import stratified

FOCUS = ["rejected", "accepted", "accepted-count", "name", "offset", "endsite", "channels", "columns", "index", "parent", "root", "children",
         "njoints", "jointsmut", "nchannels", "frametime", "frames", "nframes", "unequal"]
FLOATS = [b"0.0", b"-0.0", b"1.0", b"-1.0", b"1.", b"0.1", b"16777217.0", b"1e0", b"2.5e-3", b"-1E2", b"1e-45", b"1e-46", b"3.4028235e38", b"-3.4028235e38",
          b"1.1754942e-38", b"0.30000001192092896", b"00012.50", b"123456789.123456789", b"8388609.5", b"1e+3", b"0.000001", b"100000000.0"]
TIMES = [b"0.033333333333", b"0.0333333", b"0.04", b"1", b"0", b"0.0", b"1.5", b"7", b"0.008333", b"1e-9", b"0.5e-9", b"1.5e-9", b"86400.000000001", b"604799.5",
         b"1e3", b"2147483647", b"0.0166666666666667", b"3.", b"1e9"]
NAMES = ["Hips", "Spine", "a", "b", "End", "Site", "JOINT", "ROOT", "OFFSET", "CHANNELS", "MOTION", "Frames", "Frame", "Time", "HIERARCHY", "Xposition", "builder", "offset", "bvh",
         "new_bvh", "_x", "x1", "é", "右腕", "Кость", "if", "type", "fn", "A" * 23, "B" * 24, "C" * 25, "D" * 80, "num_channels", "Duration", "r", "r#type", "r#fn", "r#a"]


def number(rng, poor=[False]):
    k = rng.random()
    if k < 0.01:
        # now and then there are few different numbers for a while
        poor[0] = rng.random() < 0.3
    if poor[0]:
        return rng.choice([b"0.0", b"0.0", b"0.0", b"1.0", b"-0.0"])
    k = rng.random()
    if k < 0.3:
        return rng.choice(FLOATS)
    if k < 0.8:
        return b"%.*f" % (rng.randint(1, 7), rng.uniform(-400, 400))
    while True:
        import struct
        f = struct.unpack("<f", struct.pack("<I", rng.getrandbits(32)))[0]
        t = b"%.*e" % (rng.randint(1, 12), f)
        if b"n" not in t and oracle.finite(oracle.f32_bits(t)):
            return t


def filled(rng, lines):
    """The model's literal with numbers and names of Rust."""
    names = rng.sample(NAMES, 9)
    out = []
    for st in lines:
        st = [t.encode() for t in st]
        if st[0] == b"OFFSET":
            st = [st[0]] + [number(rng) for _ in st[1:]]
        elif st[0] in (b"ROOT", b"JOINT"):
            st = [st[0], names[int(st[1][1:])].encode()]
        elif st[0] == b"Frame":
            st = [st[0], st[1], rng.choice(TIMES)]
        elif st[0].isdigit():
            st = [number(rng) for _ in st]
        out.append(st)
    return out


def spine(rng, depth):
    """A deep chain of joints, some of which have other children before or after the next one of the chain."""
    leaf = lambda: gen.Joint(b"l", [b"0"] * 3, [], [number(rng) for _ in range(3)] if rng.random() < 0.6 else None)
    j = leaf()
    for _ in range(depth - 1):
        before, after = ([leaf() for _ in range(rng.choice([0, 0, 0, 1, 2]))] for _ in range(2))
        j = gen.Joint(b"s", [b"0"] * 3, [], None, before + [j] + after)
    return j


def grown(rng, maxj, style, r=None):
    """A random literal, and the number of its channels."""
    r = r or gen.skeleton(rng, maxj=maxj, num=number, chstyle="none", sites=rng.choice(["leaves", "leaves", "none", "some"]),
                     how=rng.choice(["chain", "star", "comb", "deepstar", "bushy", "random", "random"]))
    out = [[b"HIERARCHY"]]

    def go(j, top):
        out.append([b"ROOT" if top else b"JOINT", rng.choice(NAMES).encode()])
        out.append([b"{"])
        n = 0
        if rng.random() > (0.2 if style == "lax" else 0.02):
            k = {"lax": rng.randint(0, 9), "any": rng.randint(0, 9), "three": 6 if top else 3, "few": rng.choice([0, 0, 1]), "nine": 9}[style]
            out.append([b"OFFSET"] + [number(rng) for _ in range(3)])
            out.append([b"CHANNELS", b"%d" % k] + [rng.choice(gen.CH) for _ in range(k)])
            n += k
        for c in j.kids:
            n += go(c, False)
        if j.site and not j.kids:
            out.extend([[b"End", b"Site"], [b"{"], [b"OFFSET"] + [number(rng) for _ in range(3)], [b"}"]])
        out.append([b"}"])
        return n

    return out, go(r, True)


def motion(rng, nch):
    f = rng.choice([0, 1, 1, 2, 3, 5])
    v = nch * f
    if rng.random() < 0.25:
        v = max(0, v + rng.choice([-1, 1, nch, -nch, 2]))
    elif rng.random() < 0.1:
        f += 1
    if v == 0:
        f = 0
    vals = [number(rng) for _ in range(v)]
    rows = []
    k = rng.choice([1, max(1, nch), max(1, v)])
    while vals:
        rows.append(vals[:k])
        vals = vals[k:]
    return [[b"MOTION"], [b"Frames:", b"%d" % f], [b"Frame", b"Time:", rng.choice(TIMES)]] + rows


def model(cx):
    cases = []
    for c, ml, mv in cx.n([({0, 1, 2}, 3, 4)], [({0, 1, 2, 3}, 3, 6), ({0, 2}, 4, 4)]):
        k = {"MaxJoints": 9, "MaxChannels": 9, "MaxValues": mv, "MaxOffsets": 9, "Valid": False, "Emit": True, "LitChannels": c, "MaxLit": ml}
        r = tlc(cx.work, "LiteralMC", k, invariants=["Agree", "AgreeAtEnd", "CoherentLiteral", "CoherentState"], spec="LitSpec",
                view="LitView", workers=1)
        if r.violated:
            raise ToolError("LiteralMC: " + r.violated + "\n" + r.out[-4000:])
        cx.add_mc("LiteralMC", r, k)
        for line in r.printed:
            d = json.loads(line[5:])
            # kinds: joints, and whether it evaluates
            cases.append((d["lines"], "%s:%d" % (d["k"], sum(1 for l in d["lines"] if l[0] == "JOINT"))))
    return cases


def text_of(rng, lines):
    return gen.Layout(rng, plain=rng.random() < 0.7).render(lines)


def literals(cx, most, grow, focus):
    rng = cx.rng
    lits, kinds, all_ = Literals(), [], []
    for lines, k in stratified(rng, model(cx), most):
        st = filled(rng, lines)
        all_.append(st)
        kinds.append("LiteralMC:" + k)
    cx.replayed += len(all_)
    for _ in range(grow):
        st, n = grown(rng, rng.choice([1, 2, 4, 8, 16]), rng.choice(["lax", "any", "any", "three", "few", "nine"]))
        all_.append(st + motion(rng, n))
        kinds.append("grown")
    for depth in [8, 9, 10, 12, 16, 17, 20, 24] * cx.n(1, 4):
        st, n = grown(rng, 0, rng.choice(["lax", "few", "few"]), spine(rng, depth))
        all_.append(st + motion(rng, n))
        kinds.append("spine")
    for width in cx.n([40, 70, 140], [40, 64, 65, 66, 129, 140, 260]):
        # many leaves below the same joint, and many frames
        j = gen.Joint(b"w", [b"0"] * 3, [], None, [gen.Joint(b"l", [b"0"] * 3, [], [number(rng) for _ in range(3)] if rng.random() < 0.3 else None)
                                                   for _ in range(width)])
        at = rng.randrange(width)
        j = gen.Joint(b"r", [b"0"] * 3, [], None, [gen.Joint(b"x", [b"0"] * 3, [], None), j])
        j.kids[1].kids[at].kids = [gen.Joint(b"y", [b"0"] * 3, [], None), gen.Joint(b"z", [b"0"] * 3, [], None)]
        st, n = grown(rng, 0, rng.choice(["lax", "few"]), j)
        f = rng.choice([1, 3])
        all_.append(st + [[b"MOTION"], [b"Frames:", b"%d" % (f if n else 0)], [b"Frame", b"Time:", b"0.1"]] + [[number(rng) for _ in range(n)] for _ in range(f if n else 0)])
        kinds.append("wide")
    for f in (130, 300):
        st, n = grown(rng, 1, "few")
        while n != 1:
            st, n = grown(rng, 1, "few")
        all_.append(st + [[b"MOTION"], [b"Frames:", b"%d" % f], [b"Frame", b"Time:", b"0.1"]] + [[number(rng)] for _ in range(f)])
        kinds.append("long")
    for depth in (10, 24):
        st = [[b"HIERARCHY"]]
        for i in range(depth):
            st += [[b"JOINT" if i else b"ROOT", b"d%d" % i], [b"{"], [b"OFFSET"] + [number(rng) for _ in range(3)], [b"CHANNELS", b"1", rng.choice(gen.CH)]]
        st += [[b"}"]] * (depth - 4) + [[b"JOINT", b"e"], [b"{"], [b"}"]] + [[b"}"]] * 4
        all_.append(st + [[b"MOTION"], [b"Frames:", b"1"], [b"Frame", b"Time:", b"0.1"]] + [[number(rng) for _ in range(depth)]])
        kinds.append("deep")
    for st in all_:
        lits.add(rust_tokens(st, rng), text_of(rng, st))
    res = lits.run(cx.work)
    traces = []
    for i, r in enumerate(res):
        data = lits.lits[i][1]
        num, weird = oracle.table(data)
        if weird:
            raise ToolError("a literal whose text is left open: %r" % data)
        if "snap" in r:
            obs, eq, ne = {"r": "ok", "snap": snap_for_spec(r["snap"])}, r["eq"], r["ne"]
        else:
            obs, eq, ne = {"r": "err", "err": {"sec": "", "kind": "none", "line": -1, "iline": -1, "fline": -1, "axis": "", "idx": -1, "act": "", "exp": "",
                                              "fr": "", "cl": "", "bad": "", "io": {"kind": "", "msg": ""}}}, "", ""
        cx.count("literal " + ("has a value" if "snap" in r else "panics" if "panic" in r else "does not compile"))
        traces.append({"id": i, "bytes": list(data), "text": oracle.esc(data), "size": len(data), "num": num, "fault": -1,
                       "io": {"kind": "", "msg": ""}, "obs": obs, "mem": 0, "eq": eq, "ne": ne})
    verdicts, st = validate(cx.work, "LiteralTrace", traces, focus, invariants=("LiteralVerdict", "CoherentState"))
    cx.add_tlc(st, len(traces))
    for tr in traces:
        v = verdicts[tr["id"]]
        cx.count("literal text: " + (v["pc"] if v["pc"] == "Loaded" else v["kind"]))
        if v["d"]:
            cx.violation({"literal": lits.lits[tr["id"]][0], "text": lits.lits[tr["id"]][1].decode("latin-1"), "why": v["d"], "expected": v["exp"],
                          "observed": res[tr["id"]], "tag": kinds[tr["id"]]})
    cx.note_distinct({l[0] for l in lits.lits})
    cx.sample({"literal": lits.lits[0][0]})
    cx.sample({"literal": lits.lits[-3][0][:400]})


def refused(cx):
    """Literals which promise frames and give none, or not enough: no Bvh, whether or not they compile."""
    rng, lits = cx.rng, Literals()
    for _ in range(cx.n(6, 20)):
        while True:
            st, n = grown(rng, 4, rng.choice(["any", "three"]))
            if n:
                break
        st += [[b"MOTION"], [b"Frames:", b"%d" % rng.choice([1, 2, 10])], [b"Frame", b"Time:", rng.choice(TIMES)]]
        lits.add(rust_tokens(st, rng), text_of(rng, st))
    cx.count("literals without the frames they promise", len(lits.lits))
    for i, r in enumerate(lits.run(cx.work)):
        if "snap" in r:
            cx.violation({"literal": lits.lits[i][0], "why": ["accepted-count"], "observed": r})


def empties(cx):
    """The forms without a skeleton are empty Bvhs, which are no text that loads."""
    rng, lits, times = cx.rng, Literals(), []
    for st in ([], [[b"HIERARCHY"], [b"MOTION"]], [[b"HIERARCHY"], [b"MOTION"], [b"Frames:", b"0"]]):
        lits.add(rust_tokens(st, rng), b"")
        times.append(b"0")
    for x in TIMES:
        lits.add(rust_tokens([[b"HIERARCHY"], [b"MOTION"], [b"Frames:", b"0"], [b"Frame", b"Time:", x]], rng), b"")
        times.append(x)
    traces = []
    for i, r in enumerate(lits.run(cx.work, groups=1)):
        if "snap" not in r:
            cx.violation({"literal": lits.lits[i][0], "why": ["rejected"], "observed": r})
            continue
        traces.append({"id": i, "ops": [{"op": "new", "slot": "a", "cmds": []}, {"op": "setft", "slot": "a", "ft": oracle.frame_time(times[i])[1], "cmds": []},
                                        {"op": "snap", "slot": "a", "after": "other", "snap": snap_for_spec(r["snap"]), "cmds": []}]})
    verdicts, st = validate(cx.work, "SessionTrace", traces, ["skeleton", "nchannels", "frametime", "frames-other", "tree", "wholeframes"],
                            invariants=("Verdict", "ModelOk"))
    cx.add_tlc(st, len(traces))
    for tr in traces:
        if verdicts[tr["id"]]["d"]:
            cx.violation({"literal": lits.lits[tr["id"]][0], "why": verdicts[tr["id"]]["d"], "observed": tr})


def c16(cx):
    literals(cx, cx.n(500, 3000), cx.n(300, 2500), FOCUS)
    refused(cx)
    empties(cx)


def trees(cx):
    literals(cx, cx.n(120, 600), cx.n(80, 500), ["index", "parent", "root", "children", "njoints", "jointsmut"])


def columns(cx):
    literals(cx, cx.n(120, 600), cx.n(100, 500), ["columns", "nchannels"])
