"""C20: what errors say about themselves."""
import re

import gen
import models
import oracle
import session
from checks_loader import BROKEN, READER_ENTRIES, FAULTS, entry, file, layout
from checks_session import sessions, small, cursor_models
from checks_total import H, M, NUMS, R
from core import validate

FOCUS = ["contains", "section", "line", "source", "names-line", "names-axis", "names-counts", "count-roles"]

# What the message about a wrong number of values says that its numbers are, where it says so like this.
COUNTS = {
    "exp": r"\bexpected(?: to find| a total of)?:? (\d+)\b",
    "act": r"\b(?:found|got|but there (?:are|were)|actual(?:ly)?):? (\d+)\b",
    "fr": r"\b(?:num frames|number of frames|frames) ?[=:] ?(\d+)\b",
    "cl": r"\b(?:num clips|num channels|number of channels|clips|channels) ?[=:] ?(\d+)\b",
}


def run_errors(cx, ops, tags):
    res = cx.ad.run([[op] for op in ops])
    traces = []
    for i, (op, r) in enumerate(zip(ops, res)):
        r = r[0]
        if "none" in r or session.outcome(r):
            # panics of the loader itself are C01's
            cx.count("other outcome")
            continue
        if "ok" not in r or r["ok"]:
            cx.count("loaded")
            continue
        e = r["err"]
        for k in ("line", "iline", "fline"):
            if e[k] >= 2**31:
                break
        cx.count("%s:%s" % (e["sec"], e["kind"]))
        msg = e["chain"][0] if e["chain"] else ""
        esc = lambda x: oracle.esc(x.encode("utf-8", "replace"))
        traces.append({
            "id": i, "sec": e["sec"], "kind": e["kind"], "line": e["line"], "iline": e["iline"], "fline": e["fline"],
            "axisl": e["axis"].lower(), "act": e["act"], "exp": e["exp"], "fr": e["fr"], "cl": e["cl"],
            "disp": esc(e["disp"]), "low": esc(e["disp"].lower()), "chain": [esc(x) for x in e["chain"]], "types": e["ctypes"],
            "cause": esc(e["io"]["msg"] if e["kind"] == "Io" else e["pcbad"]),
            "roles": session.roles(msg, COUNTS),
            "words": re.findall(r"[a-z]+|\d+", msg.lower())})
    verdicts, st = validate(cx.work, "ErrorTrace", traces, FOCUS)
    cx.add_tlc(st, len(traces))
    by = {t["id"]: t for t in traces}
    for i, v in verdicts.items():
        if v["d"]:
            cx.violation({"input": ops[i], "why": v["d"], "observed": by[i], "tag": tags[i]})
    cx.note_distinct({str(op.get("data")) + str(op.get("fault")) + op["entry"] for op in ops})
    cx.sample({"tag": tags[0], "input": ops[0]})


def c20(cx):
    rng, ops, tags = cx.rng, [], []

    def add(data, tag, **kw):
        op = {"op": "load", "data": data.decode("latin-1"), "snap": False}
        op.update(kw or entry(rng, data))
        ops.append(op)
        tags.append(tag)

    cases = models.loader_mc(cx, 2, 2, 3, 2, False, True)
    cases = [c for c in cases if c[1] != "Loaded"]
    cases = models.stratified(rng, cases, cx.n(5000, 40000))
    cx.replayed += len(cases)
    for lines, k in cases:
        add(layout(rng, 0.5).render(lines), "LoaderMC:" + k)
    for text, k in models.lines(cx, cx.n(800, 12000)):
        add(text, "LineMC:" + k)
        cx.replayed += 1
    for _ in range(cx.n(1500, 30000)):
        r = gen.skeleton(rng, maxj=8, num=gen.simple_number)
        st = file(rng, r)
        for _ in range(rng.choice([1, 1, 2])):
            st = gen.defect(st, rng)
        add(layout(rng, 0.4).render(st), "defect")
    for _ in range(cx.n(600, 12000)):
        r = gen.skeleton(rng, maxj=4, num=gen.simple_number)
        add(gen.mutate_bytes(layout(rng, 0.5).render(file(rng, r)), rng), "mutated")
    # defects far down, so that lines have several digits
    for _ in range(cx.n(250, 4000)):
        r = gen.skeleton(rng, maxj=30, num=gen.simple_number)
        st = file(rng, r, nf=rng.choice([1, 30]))
        d = layout(rng, 0.4).render(gen.defect(st, rng))
        add(b"\n" * rng.choice([0, 9, 95, 990, 10000, 99998]) + d, "far")
    # counts, axes and indices
    for a in NUMS:
        add(H + b"MOTION\nFrames: %s\nFrame Time: 0.1\n1 2 3\n" % a, "counts", entry="bytes")
        add(H.replace(b"1 Xposition", b"3 Xposition Yposition Zrotation") + b"MOTION\nFrames: %s\nFrame Time: 0.1\n1 2 3 4\n" % a, "counts", entry="bytes")
    for _ in range(cx.n(200, 2000)):
        n, f, v = rng.randint(1, 40), rng.randint(0, 50), rng.randint(0, 300)
        add(b"HIERARCHY\nROOT a\n{\nCHANNELS %d" % n + b" Zrotation" * n + b"\n}\nMOTION\nFrames: %d\nFrame Time: 1\n" % f + b"1 " * v, "counts", entry="bytes")
    for n in (40, 1001, 5000):
        for _ in range(4):
            vals = [b"1"] * n
            vals[rng.randrange(n)] = rng.choice(gen.BADNUM)
            add(b"\n" * rng.choice([0, 20]) + H + b"MOTION\nFrames: 1\nFrame Time: 1\n" + b" ".join(vals) + b"\n", "wide", entry="bytes")
    for k in range(3):
        for bad in [b""] + gen.BADNUM:
            for pre in (b"", b"\n", b"\n" * 11, b"\n" * 122):
                t = [b"1", b"2", b"3"]
                t[k] = bad
                add(pre + R + b"OFFSET " + b" ".join(t[:k + 1] if not bad else t) + b"\n}\n" + M, "axis", entry="bytes")
                add(pre + R + b"End Site\n{\nOFFSET " + b" ".join(t[:k + 1] if not bad else t) + b"\n}\n}\n" + M, "axis", entry="bytes")
    for w in gen.BADCH + [b"\xf0\x9f\x99\x82", b"x" * 500]:
        add(R + b"CHANNELS 2 Xposition " + w + b"\n}\n" + M, "channel", entry="bytes")
    # failing readers
    for _ in range(cx.n(400, 6000)):
        r = gen.skeleton(rng, maxj=4, num=gen.simple_number)
        data = layout(rng, 0.7).render(file(rng, r))
        add(data, "io", entry=rng.choice(READER_ENTRIES), chunks=gen.chunks(rng, len(data)), cap=rng.choice([1, 16, 8192]),
            fault={"at": rng.randint(0, len(data)), "kind": rng.choice(FAULTS), "msg": rng.choice(["disk on fire", "", "motion hierarchy 7", "x" * 80, "ünicode"])})
    run_errors(cx, ops, tags)

    # refusals of the cursor and of values
    focus = BROKEN + ["message", "message-roles"]
    def bad(g):
        for _ in range(2):
            s = g.pick()
            nch, nf = g.nch(s), g.nf[s]
            script = []
            for _ in range(rng.randint(1, 12)):
                k = rng.randrange(6)
                if k == 0:
                    script.append(["ins", g.fresh(rng.choice([0, 1, nch + 1, nch + 10, 2 * nch, max(0, nch - 1), 123])), rng.choice(["vec", "slice", "box"])])
                elif k == 1:
                    script.append(["insm", [g.fresh(nch), g.fresh(rng.choice([0, nch + 1, nch + 12, max(0, nch - 1)]))], "exact"])
                elif k == 2:
                    script += [["last"], ["rm"]]
                elif k == 3:
                    script.append([rng.choice(["setn", "setp"]), nch + rng.choice([0, 1, 9, 1000, 2**31 - 2 - nch]), session.value(rng)])
                elif k == 4:
                    script.append([rng.choice(["next", "prev", "first"])])
                else:
                    script.append(["rm"])
            g.ops.append({"op": "cursor", "slot": s, "script": script, "nopeek": True})
            g.nf[s] = 0
            g.access(s, 6)
    session.run(cx, cursor_models(cx, cx.n(1500, 30000)), focus, "CursorMC")
    session.run(cx, sessions(cx, cx.n(500, 8000), bad, load=lambda g, s: g.load(s, small(rng, rng.choice([0, 1, 2, 3, 11, 12, 100])), rng.choice([0, 1, 2, 12]))), focus, "refusals")
    # errors that nothing returns at present
    ops = [{"op": "seterr", "i": i} for i in [0, 1, 2, 7, 10, 99, 12345, 2**31 - 1]]
    for op, r in zip(ops, cx.ad.run([[o] for o in ops])):
        r = r[0]
        if session.outcome(r) or any(str(op["i"]) not in re.findall(r"\d+", r[k]) for k in ("ch", "fr")):
            cx.violation({"input": op, "why": "message", "observed": r})
