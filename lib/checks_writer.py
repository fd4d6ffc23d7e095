"""C10 and C11: what is written, and how it is delivered."""
import json

import gen
import models
import oracle
import session
from checks_session import mc, pick, small, load_some
from checks_loader import layout, file
from core import ToolError, tlc, validate
from loader import snap_for_spec, unlat

LINES = ["Hierarchy", "Declare", "Open", "Offset", "Channels", "Site", "SiteOpen", "SiteOffset", "SiteClose", "Close",
         "Motion", "Frames", "Time", "Row", "Rest"]
TERM = {"unix": b"\n", "windows": b"\r\n", "native": b"\n", None: b"\n"}


def indent_text(o):
    i = o.get("indent", "tabs")
    return {"tabs": b"\t", "none": b""}[i] if isinstance(i, str) else b" " * i


def effective(op):
    """The options that hold for a write operation."""
    return {} if op.get("via") in ("to_string", "write_to") else op.get("opts", {})


def written_trace(ident, snap, op, r):
    """The trace of one write of a Bvh observed just before."""
    o = effective(op)
    text = r["text"] if "text" in r else r["got"]
    offs = {v for j in snap["joints"] for v in list(j["off"]) + list(j["es"])}
    mos = {v for f in snap["frames"] for v in f}
    return {
        "id": ident,
        "b": {"sk": [{"name": j["name"], "par": j["par"], "off": j["off"], "es": j["es"], "ch": [c[0] for c in j["ch"]]} for j in snap["joints"]],
              "nch": snap["nc"], "ft": snap["ft"], "frames": snap["frames"]},
        "indent": oracle.esc(indent_text(o)), "term": oracle.esc(TERM[o.get("term")]), "sp": oracle.esc(b" "),
        "off": {v: oracle.texts32(v, o.get("off")) for v in offs} or {"none": []},
        "mo": {v: oracle.texts32(v, o.get("mo")) for v in mos} or {"none": []},
        "ft": oracle.texts_time(snap["ft"], o.get("ft")),
        "text": oracle.esc(unlat(text))}


def run_written(cx, histories, tag):
    """Histories in which every write comes right after a snap of the same Bvh."""
    res = cx.ad.run(histories)
    traces, where = [], []
    for i, (ops, rs) in enumerate(zip(histories, res)):
        snap = None
        for k, (op, r) in enumerate(zip(ops, rs)):
            bad = session.outcome(r)
            if bad:
                if bad != "skipped" and op["op"] in ("write", "load"):
                    cx.violation({"history": ops[:k + 1], "result": r, "why": bad, "tag": tag})
                break
            if "none" in r or "skipped" in r:
                continue
            if op["op"] == "snap":
                snap = (op["slot"], snap_for_spec(r))
            elif op["op"] == "write" and snap and snap[0] == op["slot"]:
                traces.append(written_trace(len(traces), snap[1], op, r))
                where.append((i, k))
    verdicts, st = validate(cx.work, "WriterTrace", traces, LINES)
    cx.add_tlc(st, len(traces))
    for tr in traces:
        v = verdicts[tr["id"]]
        cx.count("lines", v["lines"])
        if v["d"]:
            i, k = where[tr["id"]]
            cx.violation({"history": histories[i][:k + 1], "why": v["d"], "at": v["at"], "rest": v["rest"],
                          "text": tr["text"][:2000], "tag": tag})
    cx.count(tag + ":written", len(traces))
    cx.note_distinct({json.dumps(h, sort_keys=True) for h in histories})
    if histories:
        cx.sample({"tag": tag, "history": histories[0][:6]})


PREC = [0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18, 20, 24, 30, 45, 60, 149, 150, 300, 1000]


def opts(rng):
    o = session.write_opts(rng)
    for p in ("off", "ft", "mo"):
        o.pop(p, None)
    # all, none, one of them, or any
    k = rng.randrange(6)
    for i, p in enumerate(("off", "ft", "mo")):
        if k == i or (k == 3) or (k == 4 and rng.random() < 0.5):
            o[p] = rng.choice(PREC)
    if k == 3 and rng.random() < 0.5:
        o["off"] = o["ft"] = o["mo"]
    return o


def look(g, s, n=1):
    """Writes a Bvh under some options, after looking at it."""
    g.snap(s)
    for _ in range(n):
        g.ops.append({"op": "write", "slot": s, "opts": opts(g.rng), "via": g.rng.choice(["string", "string", "string", "writer", "to_string", "write_to"])})


TIES = ["3f000000", "3fc00000", "40200000", "3e800000", "3e000000", "bf000000", "be800000", "3d800000", "3c800000", "c0200000",
        "4b000001", "4a800001", "4a000003", "41000000", "3dcccccd", "33d6bf95", "3f7fffff", "3f7fbe77", "42c7ff7d", "461c3fff",
        "7f7fffff", "ff7fffff", "00000001", "80000001", "00800000", "80000000", "00000000", "5f000000", "60ad78ec", "4cbebc20"]


def value(rng):
    k = rng.random()
    if k < 0.4:
        return rng.choice(TIES)
    if k < 0.6:
        # halves, quarters, ...: ties at some precision
        return oracle.f32_bits(repr(rng.randint(-4000, 4000) / 2 ** rng.randint(0, 10)).encode())
    return session.value(rng)


def nines(rng):
    return rng.choice([b"0.5", b"1.5", b"2.5", b"0.25", b"0.125", b"-0.5", b"9.9999", b"0.99999", b"-99.96", b"0.05", b"1e10", b"-0", b"3e-5", b"7e-46", b"16777216", b"1e-10",
                       b"0.3", b"123456.78", b"3.4028235e38"])


def setters(cx, fields):
    """Options set step by step: their fields and their equality, or what they write."""
    rng = cx.rng
    cases = []
    full = {"indent": {"tabs", "none", "2", "0"}, "term": {"unix", "windows", "native"}, "off": {"any", "0", "2"}, "ft": {"any", "3"}, "mo": {"any", "0", "1"}}
    less = {"indent": {"tabs", "none", "3"}, "term": {"unix", "windows"}, "off": {"any", "1"}, "ft": {"any", "3"}, "mo": {"any", "2"}}
    for values, steps in cx.n([(full, 3 if fields else 2), (less, 3)], [(full, 3), (less, 4)]):
        r = tlc(cx.work, "OptionsMC", {"Values": values, "MaxSteps": steps, "Emit": True}, invariants=["LastHolds", "Swapped", "Emitted"],
                properties=["OneField"], workers=1)
        if r.violated:
            raise ToolError("OptionsMC: " + r.violated + "\n" + r.out[-4000:])
        cx.add_mc("OptionsMC", r, {"Values": values, "MaxSteps": steps})
        cases += [json.loads(l[5:]) for l in r.printed]
    cases = pick(cx, cases, cx.n(2500 if fields else 1000, 20000))
    way = lambda: rng.choice(["with", "with", "plain", "field"])
    hist, where = [], []
    for k in range(0, len(cases), 4):
        g = session.Gen(rng)
        g.load("a", gen.skeleton(rng, n=rng.choice([2, 3]), num=rng.choice([gen.number, nines]), chstyle="one", sites="leaves"), rng.choice([1, 2]))
        g.snap("a")
        for c in cases[k:k + 4]:
            script = [[way(), f, v] for f, v in c["h"]]
            twin = [[way(), f, v] for f, v in c["h"]]
            j = rng.randrange(4)
            if j == 0:
                rng.shuffle(twin)
            elif j == 1:
                twin = twin[::-1]
            elif j == 2:
                # the same again, after something else
                twin = [[way(), f, v] for f, v in rng.choice(cases)["h"]] + [[way(), f, v] for f, v in c["o"].items()]
            elif twin:
                one = rng.choice(twin)
                one[2] = rng.choice(sorted(full[one[1]]))
            g.ops.append({"op": "options", "slot": "a", "script": script, "twin": twin})
            where.append((len(hist), len(g.ops) - 1, c["o"]))
        hist.append(g.ops)
    if fields:
        # long histories, with any values
        many = [str(x) for x in list(range(40)) + [63, 64, 127, 128, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 65537, 2**31, 2**32 - 1, 2**32, 2**63, 2**64 - 1]]
        some = {"indent": ["tabs", "none", "default"] + many, "term": ["unix", "windows", "native", "default"]}
        for _ in range(cx.n(1500, 20000)):
            digits = rng.choice([many, many[:4], rng.sample(many, 3)])
            def setting():
                f = rng.choice(["indent", "term", "off", "ft", "mo"])
                return [way(), f, rng.choice(some[f] if f == "term" else ["tabs", "none"] + digits if f == "indent" else ["any"] + digits)]
            script = [setting() for _ in range(rng.randint(1, 12))]
            twin = [[way()] + x[1:] for x in script]
            for _ in range(rng.choice([0, 1, 1, 2])):
                twin[rng.randrange(len(twin))] = setting()
            if rng.random() < 0.3:
                rng.shuffle(twin)
            where.append((len(hist), 1, None))
            hist.append([{"op": "new", "slot": "a"}, {"op": "options", "slot": "a", "script": script, "twin": twin, "dry": True}])
    res = cx.ad.run(hist)
    traces, texts, src, seen = [], [], [], {}
    for h, k, o in where:
        if k >= len(res[h]) or "steps" not in res[h][k]:
            if k < len(res[h]) and session.outcome(res[h][k]) and "skipped" not in res[h][k]:
                cx.violation({"history": hist[h][:k + 1], "result": res[h][k], "why": session.outcome(res[h][k]), "tag": "setters"})
            continue
        op, r = hist[h][k], res[h][k]
        src.append((h, k))
        traces.append({"id": len(traces), "is": "options", "script": op["script"], "twin": op["twin"], "o": {x: y for x, y in r.items() if x != "text"}})
        if fields:
            continue
        eff = {"indent": o["indent"] if o["indent"] in ("tabs", "none") else int(o["indent"]), "term": o["term"]}
        eff.update({p: int(o[p]) for p in ("off", "ft", "mo") if o[p] != "any"})
        if h not in seen:
            seen[h] = snap_for_spec(res[h][1])
        texts.append(written_trace(len(texts), seen[h], {"opts": eff}, r))
    cx.note_distinct({str(x) for x in hist})
    cx.count("options set", len(traces))
    if not fields:
        verdicts, st = validate(cx.work, "WriterTrace", texts, LINES)
        cx.add_tlc(st, len(texts))
        for tr in texts:
            v = verdicts[tr["id"]]
            if v["d"]:
                at = src[tr["id"]]
                cx.violation({"history": hist[at[0]][:at[1] + 1], "why": v["d"], "at": v["at"], "rest": v["rest"], "text": tr["text"][:2000], "tag": "setters"})
        return
    op = {"op": "terms", "terms": ["unix", "windows", "native", "default"],
          "indents": ["tabs", "none", "default"] + [str(n) for n in list(range(20)) + [64, 255, 256, 65536, 2**32]]}
    r = cx.ad.run([[op]])[0][0]
    if session.outcome(r):
        cx.violation({"input": op, "why": session.outcome(r), "result": r})
    else:
        traces.append({"id": len(traces), "is": "terms", "terms": op["terms"], "indents": op["indents"], "o": r})
        src.append(None)
    verdicts, st = validate(cx.work, "OptionsTrace", traces, ["options", "options-eq", "terminators", "indents"])
    cx.add_tlc(st, len(traces))
    for tr in traces:
        if verdicts[tr["id"]]["d"]:
            at = src[tr["id"]]
            cx.violation({"history": hist[at[0]][:at[1] + 1] if at else [op], "why": verdicts[tr["id"]]["d"], "observed": tr, "tag": "setters"})


def c10(cx):
    rng = cx.rng
    setters(cx, False)
    cases = mc(cx, "WriterMC", dict(zip(("MaxJoints", "MaxChannels", "MaxFrames"), cx.n((3, 2, 1), (4, 1, 1)))),
               ["Accepted", "Same", "InStep", "Nesting"], ["Ends"], constraint=None, view=None)
    if cx.thorough:
        cases += mc(cx, "WriterMC", {"MaxJoints": 3, "MaxChannels": 3, "MaxFrames": 2}, ["Accepted", "Same", "InStep", "Nesting"], ["Ends"], constraint=None, view=None)
    hist = []
    for c in pick(cx, cases, cx.n(3000, 40000)):
        g = session.Gen(rng)
        if not c["par"]:
            g.new("a")
        else:
            js = [gen.Joint(gen.name(rng), [rng.choice([gen.number, nines, gen.simple_number])(rng) for _ in range(3)],
                            [rng.choice(gen.CH) for _ in range(n)], [gen.number(rng) for _ in range(3)] if e else None)
                  for e, n in zip(c["es"], c["ch"])]
            for i, p in enumerate(c["par"]):
                if p >= 0:
                    js[p].kids.append(js[i])
            g.load("a", js[0], c["nf"])
        look(g, "a", 2)
        hist.append(g.ops)
    run_written(cx, hist, "WriterMC")

    # histories
    hist = []
    for _ in range(cx.n(700, 12000)):
        g = session.Gen(rng, infinite=rng.random() < 0.2)
        load_some(g, lambda g, s: g.load(s, gen.skeleton(rng, maxj=8, num=rng.choice([gen.number, nines])), rng.choice([0, 1, 1, 2, 3])))
        for _ in range(rng.choice([1, 2, 3])):
            s = g.pick()
            k = rng.randrange(8)
            if k < 2:
                g.cursor(s, rng.randint(1, 6))
            elif k == 2:
                g.setft(s)
            elif k == 3:
                g.extract(s)
            elif k == 4:
                g.clone(s, rng.choice("abc"))
            elif k == 5:
                g.access(s, 4)
            look(g, s)
        hist.append(g.ops)
    run_written(cx, hist, "history")

    # numbers
    hist = []
    for _ in range(cx.n(250, 5000)):
        g = session.Gen(rng)
        r = small(rng, 6, rng.choice([1, 2]))
        for j in r.walk():
            j.off = [rng.choice([gen.number, nines])(rng) for _ in range(3)]
            j.site = [rng.choice([gen.number, nines])(rng) for _ in range(3)] if rng.random() < 0.5 else None
        g.load("a", r, 0)
        g.ops.append({"op": "cursor", "slot": "a", "script": [["insm", [[value(rng) for _ in range(6)] for _ in range(4)], "exact"]]})
        g.nf["a"] = 4
        for _ in range(3):
            g.setft("a", week=rng.random() < 0.7)
            look(g, "a")
        hist.append(g.ops)
    run_written(cx, hist, "numbers")

    # deep, wide and long
    hist = []
    for n in cx.n([40, 120], [40, 120, 300]):
        for how in ("chain", "star", "comb", "bushy", "random", "deepstar"):
            g = session.Gen(rng)
            g.load("a", gen.skeleton(rng, n=n, how=how, num=gen.simple_number, chstyle="mixed"), rng.choice([0, 1, 2]))
            look(g, "a", 1)
            hist.append(g.ops)
    for nf, nch in [(120, 3), (4, 120), (200, 1), (300, 1), (3, 300)] + cx.n([], [(700, 2), (2, 1100), (1030, 1)]):
        for term in ("unix", "windows"):
            g = session.Gen(rng)
            g.load("a", small(rng, nch), nf)
            look(g, "a")
            g.ops[-1]["via"] = "string"
            g.ops[-1]["opts"]["term"] = term
            hist.append(g.ops)
    for ln in (1000, 9000):
        g = session.Gen(rng)
        nm = bytes(rng.choice(b"abcdefgh:XYZ") for _ in range(ln))
        g.load("a", gen.skeleton(rng, n=2, names=lambda r, nm=nm: b"n" + nm, num=gen.simple_number), 1)
        look(g, "a", 2)
        hist.append(g.ops)
    run_written(cx, hist, "big")


# --- delivery ---------------------------------------------------------------------------------------

KINDS = ["NotFound", "PermissionDenied", "ConnectionReset", "BrokenPipe", "WouldBlock", "InvalidInput", "InvalidData", "TimedOut",
         "WriteZero", "UnexpectedEof", "Other", "Unsupported", "AlreadyExists", "OutOfMemory"]
SINK = ["prefix", "ok", "failed", "error"]


def error(rng):
    return {"err": rng.choice(KINDS), "msg": "the writer says %d" % rng.randrange(1000)}


def flush_error(rng):
    """Unlike a write, a flush that is interrupted is a failure like any other."""
    return dict(error(rng), **({"err": "Interrupted"} if rng.random() < 0.2 else {}))


def run_sinks(cx, bvhs, cases, tag):
    """cases: list of (index of the Bvh, write operation).  The text to be delivered is that of the
    in-memory rendering with the same options, obtained in the same history."""
    scripts = []
    for b, op in cases:
        ref = dict(op, via="string")
        if op["via"] == "write_to":
            ref["opts"] = {}
        scripts.append(bvhs[b] + [{k: v for k, v in ref.items() if k not in ("resp", "flush", "limit")}, op])
    res = cx.ad.run(scripts)
    traces = []
    for i, (ops, rs) in enumerate(zip(scripts, res)):
        r = rs[-1]
        bad = session.outcome(r)
        if bad or len(rs) < len(ops):
            if bad and "skipped" not in r:
                cx.violation({"history": ops, "result": r, "why": bad, "tag": tag})
            continue
        fails = [x for x in ops[-1].get("resp", []) + [ops[-1].get("limit"), ops[-1].get("flush")] if isinstance(x, dict) and "err" in x]
        f = fails[0] if fails else {"err": "", "msg": ""}
        traces.append({"id": i, "text": oracle.esc(unlat(rs[-2]["text"])), "got": oracle.esc(unlat(r["got"])), "log": r["log"],
                       "fail": {"kind": f["err"], "msg": f["msg"]}, "res": r["res"]})
    verdicts, st = validate(cx.work, "SinkTrace", traces, SINK)
    cx.add_tlc(st, len(traces))
    for tr in traces:
        v = verdicts[tr["id"]]
        cx.count("calls", v["calls"])
        cx.count("failed:" + (v["failed"] or "no"))
        if v["d"]:
            cx.violation({"history": scripts[tr["id"]], "why": v["d"], "result": tr["res"], "calls": len(tr["log"]),
                          "last calls": tr["log"][-5:], "delivered": len(tr["got"]), "of": len(tr["text"]), "tag": tag})
    cx.note_distinct({json.dumps(x, sort_keys=True) for x in scripts})
    cx.sample({"tag": tag, "write": cases[0][1] if cases else ""})
    return res


def c11(cx):
    rng = cx.rng
    inv = ["Prefix", "OkIsDelivered", "ErrIsFailure", "DeliveredIsOk", "Emitted"]
    mcases = mc(cx, "SinkMC", {"Size": cx.n(4, 5), "MaxIntr": 2}, inv, ["Ends"], constraint=None, view=None)
    mc(cx, "SinkMC", {"Size": cx.n(6, 9), "MaxIntr": 3}, inv, ["Ends"], constraint=None, view=None, emit=False)
    mcases = [json.loads(x) for x in sorted({json.dumps(c) for c in mcases})]

    def bvh(r, nf):
        g = session.Gen(rng)
        g.load("a", r, nf)
        return g.ops
    bvhs = [[{"op": "new", "slot": "a"}]]
    for i in range(cx.n(12, 60)):
        bvhs.append(bvh(gen.skeleton(rng, maxj=5, num=gen.simple_number), rng.choice([0, 1, 2])))
    for i in range(cx.n(3, 10)):
        bvhs.append(bvh(gen.skeleton(rng, n=rng.choice([20, 60]), num=gen.number, chstyle="three"), rng.choice([3, 10])))

    def op(**kw):
        via = rng.choice(["writer", "writer", "writer", "write_to"])
        return dict({"op": "write", "slot": "a", "opts": opts(rng) if via == "writer" else {}, "via": via}, **kw)
    plain = [op() for _ in bvhs]
    base = run_sinks(cx, bvhs, list(enumerate(plain)), "plain")
    ncalls = [sum(1 for x in r[-1]["log"] if x["c"] == "w") if "log" in r[-1] else 0 for r in base]
    sizes = [len(r[-1]["got"]) if "got" in r[-1] else 0 for r in base]

    # the answers of the model at the beginning, at the end, or all over the calls
    cases = []
    for h in pick(cx, mcases, cx.n(1500, 20000)):
        b = rng.randrange(len(bvhs))
        resp = [error(rng) if x == "err" else x if x in ("intr", "zero") else int(x) for x in h if not x.startswith("flush")]
        lead = rng.choice([0, 0, rng.randrange(ncalls[b] + 1), max(0, ncalls[b] - 1)])
        o = op(resp=[10**6] * lead + resp)
        if h[-1] == "flusherr":
            o["flush"] = flush_error(rng)
        cases.append((b, o))
    run_sinks(cx, bvhs, cases, "SinkMC")

    # failures at every call and at every byte; fullness at every byte
    cases = []
    few = list(range(len(bvhs)))
    for b in few:
        ks = list(range(ncalls[b])) if ncalls[b] <= cx.n(80, 1000) else sorted(rng.sample(range(ncalls[b]), cx.n(80, 1000)))
        for k in ks:
            o = dict(plain[b], resp=[10**6] * k + [error(rng)])
            cases.append((b, o))
            if rng.random() < 0.4:
                cases.append((b, dict(plain[b], resp=[10**6] * k + ["zero"])))
            if rng.random() < 0.4:
                cases.append((b, dict(plain[b], resp=[10**6] * k + ["intr"] * rng.choice([1, 1, 2, 5]))))
        at = list(range(sizes[b] + 1))
        if len(at) > cx.n(60, 1500):
            at = sorted(set(rng.sample(at, cx.n(55, 1500)) + [0, 1, sizes[b] - 1, sizes[b], sizes[b] - 2]))
        for a in at:
            o = dict(plain[b], limit=dict(error(rng), at=a) if rng.random() < 0.8 else {"at": a})
            if rng.random() < 0.3:
                o["resp"] = [rng.choice([1, 2, 3, 7, 10**6, "intr"]) for _ in range(200)]
            cases.append((b, o))
        cases.append((b, dict(plain[b], flush=flush_error(rng))))
    run_sinks(cx, bvhs, cases, "every")

    # every byte by itself; random answers
    cases = []
    for b in few:
        cases.append((b, dict(plain[b], resp=[1] * (sizes[b] + 1))))
        cases.append((b, dict(plain[b], resp=["intr", 1] * (sizes[b] + 1))))
    for _ in range(cx.n(700, 12000)):
        b = rng.choice(few)
        n = rng.randint(1, min(20000, 3 * ncalls[b] + 5))
        style = rng.choice([[1], [1, "intr"], [1, 2, 3], [5, 10**6, "intr"], [1, 10**6], [10**6, 10**6, 10**6, "intr", 1], [4, 8, 16], [64, 1]])
        resp = [rng.choice(style) for _ in range(n)]
        k = rng.random()
        o = op(resp=resp)
        if k < 0.25:
            resp.append(error(rng))
        elif k < 0.35:
            resp.append("zero")
        elif k < 0.55:
            o["flush"] = flush_error(rng)
        cases.append((b, o))
    run_sinks(cx, bvhs, cases, "random")

    # long texts, long lines
    large = []
    wide = gen.Joint(b"r", [b"0"] * 3, [rng.choice(gen.CH) for _ in range(cx.n(1500, 20000))], None)
    large.append(bvh(wide, 3))
    large.append(bvh(gen.skeleton(rng, n=cx.n(120, 600), num=gen.number, chstyle="three"), cx.n(10, 30)))
    large.append(bvh(gen.skeleton(rng, n=1, num=gen.number, chstyle="one"), cx.n(2500, 30000)))
    large.append(bvh(gen.skeleton(rng, n=2, num=gen.simple_number, names=lambda g: b"n" * g.choice([9000, 70000])), 1))
    plain = [op() for _ in large]
    base = run_sinks(cx, large, list(enumerate(plain)), "large")
    ncalls = [sum(1 for x in r[-1]["log"] if x["c"] == "w") if "log" in r[-1] else 0 for r in base]
    sizes = [len(r[-1]["got"]) if "got" in r[-1] else 0 for r in base]
    cases = []
    for b, size in enumerate(sizes):
        edges = sorted({e for k in (512, 1024, 4096, 8192, 16384, 65536) for m in (1, 2) for e in (k * m - 1, k * m, k * m + 1) if e < size} | {size - 1, size})
        for a in rng.sample(edges, min(len(edges), cx.n(5, 40))) + [rng.randrange(size + 1) for _ in range(cx.n(3, 20))]:
            o = dict(plain[b], limit=dict(error(rng), at=a) if rng.random() < 0.8 else {"at": a})
            if rng.random() < 0.5:
                o["resp"] = [rng.choice([64, 1000, 4095, 4096, 8192, 10**6, "intr"]) for _ in range(400)]
            cases.append((b, o))
        for _ in range(cx.n(3, 20)):
            k = rng.choice([0, max(0, ncalls[b] - 1), rng.randrange(ncalls[b] + 1)])
            cases.append((b, dict(plain[b], resp=[10**6] * k + [rng.choice([1, 512, 4096, 8191, 8192, "intr", error(rng), "zero"]) for _ in range(3)])))
        cases.append((b, dict(plain[b], resp=[rng.choice([4096, 8192, 65536])] * 400, flush=flush_error(rng))))
        cases.append((b, dict(plain[b], resp=[rng.choice([1, 7]), "intr"] * 3000)))
    run_sinks(cx, large, cases, "large")
