"""C18: channel names."""
import gen
import oracle
import session
from checks_session import mc
from core import validate
from loader import unlat

VIAS = ["from_bytes", "from_slice", "try_bytes", "try_str", "from_str", "parse", "bytes_str", "load"]
ALPHABET = "".join(sorted(set("Xposition" + "Zrotation" + "YxyzPROWAabcz019_-")))


def c18(cx):
    rng = cx.rng
    inv = ["SixNames", "Folded", "Distinct", "Emitted"]
    alpha = {x for x in ALPHABET}
    words = mc(cx, "VocabularyMC", {"Alphabet": alpha, "MaxEdits": 1}, inv, constraint=None)
    if cx.thorough:
        words += mc(cx, "VocabularyMC", {"Alphabet": {"X", "Y", "x", "p", "r", "o", "n", "a"}, "MaxEdits": 2}, inv, constraint=None)
    words = sorted({w.encode() for w in words})
    cx.replayed += len(words)
    extra = set(gen.CH)
    for w in gen.CH:
        # every byte at every place
        for i in range(len(w) + 1):
            for c in (range(256) if cx.thorough or i in (0, 1, len(w) - 1, len(w)) else rng.sample(range(256), 40)):
                extra.add(w[:i] + bytes([c]) + w[i:])
                extra.add(w[:i] + bytes([c]) + w[i + 1:])
        for v in gen.CH:
            for i in range(len(w) + 1):
                extra.add(w[:i] + v[i:])
                extra.add(w[:i] + v)
                extra.add(w + v[:i])
        extra |= {w.lower(), w.upper(), w.capitalize(), w[::-1], w * 2, w * 50, w + b" " * 3, b"\xef\xbb\xbf" + w, w.replace(b"o", "о".encode()), w.swapcase(), w[1:] + w[:1]}
    extra |= {b"", b"position", b"rotation", b"X", b"Y", b"Z", b"Xscale", b"Wrotation", b"PositionX", b"RotationX", b"Position X", b"X position", b"\x00", b"\xff" * 30, "Xросition".encode()}
    for _ in range(cx.n(500, 20000)):
        extra.add(bytes(rng.getrandbits(8) for _ in range(rng.randint(0, 40))))
        extra.add(gen.mutate_bytes(rng.choice(gen.CH), rng))
    allw = words + sorted(extra - set(words))
    ops = []
    for w in allw:
        for via in (VIAS if w in gen.CH else rng.sample(VIAS, cx.n(3, 8))):
            # the loader splits at separators, so that another word gets there
            if via == "load" and (not w or oracle.SEP.search(w) or oracle.EXOTIC.search(w)):
                continue
            ops.append({"op": "chan", "bytes": w.decode("latin-1"), "via": via})
    res = cx.ad.run([[o] for o in ops])
    traces = []
    for i, (op, r) in enumerate(zip(ops, res)):
        r = r[0]
        if "none" in r or "skipped" in r:
            continue
        bad = session.outcome(r)
        if bad:
            cx.violation({"input": op, "why": bad, "result": r})
            continue
        obs = dict(r, r="ok" if r["ok"] else "err", bad=oracle.esc(unlat(r["bad"])))
        cx.count("accepted" if r["ok"] else "refused")
        cx.count("via:" + op["via"])
        traces.append({"id": i, "word": oracle.esc(unlat(op["bytes"])), "via": op["via"], "obs": obs})
    verdicts, st = validate(cx.work, "VocabularyTrace", traces, ["rejected", "accepted", "type", "printed", "axis", "kind", "bytes"])
    cx.add_tlc(st, len(traces))
    for tr in traces:
        v = verdicts[tr["id"]]
        if v["d"]:
            cx.violation({"input": ops[tr["id"]], "why": v["d"], "observed": tr["obs"]})
    cx.note_distinct({(o["bytes"], o["via"]) for o in ops})
    cx.sample(ops[0])
