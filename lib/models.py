"""Runs of the bounded models, and the cases they emit."""
import json

from core import tlc, ToolError

LOADER_INV = ["CoherentState", "Completable", "EndsRight", "Described", "DescribedAtEnd"]


def loader_mc(cx, joints, channels, values, offsets, valid, emit):
    c = {"MaxJoints": joints, "MaxChannels": channels, "MaxValues": values, "MaxOffsets": offsets,
         "Valid": valid, "Emit": emit}
    r = tlc(cx.work, "LoaderMC", c, invariants=LOADER_INV, properties=["Stable"], view="View",
            constraint="Constraint", workers=1 if emit else 8)
    if r.violated:
        raise ToolError("LoaderMC: " + r.violated + "\n" + r.out[-4000:])
    cx.add_mc("LoaderMC", r, c)
    cases = []
    for line in r.printed:
        d = json.loads(line[5:])
        cases.append(([[t.encode() for t in st] for st in d["lines"] + d["done"]], d["k"]))
    return cases


def stratified(rng, cases, total, first=False):
    """About `total` of the cases, as evenly spread over their kinds as possible."""
    by = {}
    for c in cases:
        by.setdefault(c[1], []).append(c)
    out = []
    kinds = sorted(by, key=lambda k: len(by[k]))
    for i, k in enumerate(kinds):
        share = (total - len(out)) // (len(kinds) - i)
        xs = by[k]
        out += xs if len(xs) <= share else rng.sample(xs, share)
    return [c[0] for c in out] if first else out


def source_mc(cx, texts, failing, piece, intr, emit):
    """SourceMC; the emitted cases as (text, pieces, fault)."""
    c = {"Texts": texts, "MaxPiece": piece, "MaxIntr": intr, "Failing": failing, "Emit": emit}
    r = tlc(cx.work, "SourceMC", c, invariants=["Assembled", "Outcome", "NoTruncatedData"],
            properties=["Frugal", "Ends"], view="View", workers=1 if emit else 8)
    if r.violated:
        raise ToolError("SourceMC: " + r.violated + "\n" + r.out[-4000:])
    cx.add_mc("SourceMC", r, dict(c, Texts=len(texts)))
    ds = [json.loads(l[5:]) for l in r.printed]
    return [(texts[d["x"] - 1].encode(), d["pieces"], d["fault"]) for d in ds]


def layout_mc(cx, files, blanks, leads, seps, trails, ends, emit):
    """LayoutMC; the emitted texts."""
    c = {"Files": files, "Blanks": set(blanks), "Leads": set(leads), "Seps": set(seps), "Trails": set(trails),
         "Ends": set(ends), "Emit": emit}
    r = tlc(cx.work, "LayoutMC", c, invariants=["SameAsBare"], properties=["SameAsWhole"], view="View",
            workers=1 if emit else 8)
    if r.violated:
        raise ToolError("LayoutMC: " + r.violated + "\n" + r.out[-4000:])
    cx.add_mc("LayoutMC", r, dict(c, Files=len(files)))
    return [json.loads(l[5:])["text"].encode() for l in r.printed]


HEAD = ["HIERARCHY", "ROOT r", "{"]
BODY = HEAD + ["OFFSET 4 5 6", "CHANNELS 1 Xposition"]
REST = ["}", "MOTION", "Frames: 1", "Frame Time: 7", "9"]
KEYS = ["HIERARCHY", "ROOT", "JOINT", "End", "{", "}", "OFFSET", "CHANNELS", "foo", "MOTION"]
CONTEXTS = [
    # before, after, first words, further words, joiners, words
    (HEAD, REST, ["OFFSET"], ["1", "x", "1.5"], [" ", ":"], 5),
    (BODY, REST, ["OFFSET"], ["1", "x"], [" ", "\t"], 5),
    (HEAD, REST, ["CHANNELS"], ["0", "1", "2", "x", "Xposition", "foo"], [" ", ":"], 4),
    (HEAD, REST, ["CHANNELS"], ["1", "Zrotation", "x"], [" "], 6),
    (BODY + ["End Site", "{"], ["}"] + REST, ["OFFSET"], ["1", "x"], [" ", ":"], 5),
    (BODY + ["End Site", "{"], ["}"] + REST, KEYS, ["1", "Site", "x"], [" "], 3),
    (BODY + ["JOINT a", "{", "}"], REST, KEYS, ["1", "Site", "a", "{"], [" ", ":"], 3),
    (BODY + ["JOINT a"], ["{", "}"] + REST, KEYS, ["1", "Site", "a", "{"], [" "], 3),
    (BODY, REST, KEYS, ["1", "Site", "a", "{", "Xposition"], [" ", ":"], 3),
    (HEAD[:1], HEAD[1:] + REST, KEYS, ["r", "ROOT", "x", "{"], [" ", ":"], 3),
    (HEAD[:2], HEAD[2:] + REST, KEYS, ["r", "{", "}"], [" "], 3),
    ([], HEAD + REST, KEYS, ["r", "HIERARCHY"], [" ", ":"], 3),
    (BODY + REST[:1], REST[2:], ["MOTION", "foo", "Frames:", "}"], ["x", ":", "MOTION"], [" ", "\t", ":"], 3),
    (BODY + REST[:2], REST[3:], ["Frames:", "Frames", ":", "foo"], [":", "::", "1", "0", "x", "1.5", "Frames"], [" ", ":"], 4),
    (BODY + REST[:3], REST[4:], ["Frame", "foo", "Frame:"], ["Time:", "Time", "Time::", ":", "::", "7", ":7", "x", "1.5"], [" "], 5),
    (BODY + REST[:3], REST[4:], ["Frame"], ["Time:", "7", "x"], [" ", "\t", ":"], 4),
    (BODY + REST[:4], [], ["1", "x", "1.5"], ["1", "x", "1.5", ":"], [" ", "\t", ":"], 4),
    (BODY + REST[:4] + ["9"], [], ["1", "x"], ["1", "x"], [" "], 5),
]


def line_mc(cx, which, less, emit):
    """LineMC; the emitted texts with their kinds."""
    cs = [CONTEXTS[i] for i in which]
    c = {"Contexts": [{"before": b, "first": f, "rest": r, "joiners": j, "max": m - less} for b, a, f, r, j, m in cs], "Emit": emit}
    r = tlc(cx.work, "LineMC", c, invariants=["Places", "OwnLine", "Others"], properties=["FirstWrong", "Same"],
            view="View", workers=1 if emit else 8)
    if r.violated:
        raise ToolError("LineMC: " + r.violated + "\n" + r.out[-4000:])
    cx.add_mc("LineMC", r, dict(c, Contexts=len(cs)))
    out = []
    for l in r.printed:
        d = json.loads(l[5:])
        b, a = cs[d["c"] - 1][:2]
        out.append(("\n".join(b + [d["line"]] + a + [""]).encode(), "%s in %d" % (d["k"], which[d["c"] - 1])))
    return out


def lines(cx, most):
    """Texts of LineMC.  A quick check makes lines shorter by a word."""
    out = line_mc(cx, range(len(CONTEXTS)), cx.n(1, 0), True)
    return out if most is None else stratified(cx.rng, [(c, c[1]) for c in out], most, first=True)
