"""C19: whatever loads is coherent."""
import gen
import models
import oracle
import session
from checks_loader import BROKEN, entry, file, layout
from checks_session import sessions
from checks_total import H, M, NUMS, R, TOKENS

FOCUS = BROKEN + ["tree", "children", "columns", "wholeframes", "reload", "skeleton", "nchannels", "frametime", "frames-load"]
WEEK = 604800 * 10**9


def inputs(cx):
    """Inputs likely to be accepted although they are not what anyone would write."""
    rng = cx.rng
    cases = models.loader_mc(cx, 2, 2, 3, 2, False, True)
    cases = models.stratified(rng, cases, cx.n(4000, 40000))
    cx.replayed += len(cases)
    for lines, k in cases:
        yield "LoaderMC", layout(rng, 0.3).render(lines)
    for _ in range(cx.n(7000, 200000)):
        k = rng.random()
        if k < 0.4:
            r = gen.skeleton(rng, maxj=6, num=gen.simple_number)
            d = layout(rng, 0.5).render(file(rng, r, lax=rng.choice([0, 0.1, 0.5])))
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                d = gen.mutate_bytes(d, rng)
            yield "mutated", d
        elif k < 0.55:
            # statements in another order
            r = gen.skeleton(rng, maxj=5, num=gen.simple_number, chstyle=rng.choice(["none", "one", "mixed"]))
            st = gen.hierarchy(r, rng, 0.2)
            for _ in range(rng.choice([1, 1, 2, 4])):
                i, j = rng.randrange(2, len(st)), rng.randrange(2, len(st))
                what = rng.randrange(4)
                if what == 0:
                    st[i], st[j] = st[j], st[i]
                elif what == 1:
                    st.insert(j, st.pop(i))
                elif what == 2:
                    st.insert(j, st[i])
                elif len(st) > 4:
                    del st[i]
            yield "reordered", layout(rng, 0.5).render(st + gen.motion(r, rng, 0))
        elif k < 0.9:
            yield "wandering", gen.strange(rng)
        else:
            n = rng.randint(1, 40)
            yield "tokens", R + b"".join(rng.choice(TOKENS) + rng.choice([b" ", b"\n", b"\n"]) for _ in range(n)) + M
    for a in NUMS:
        for f in (b"HIERARCHY\nROOT a\n{\nOFFSET 0 0 0\nCHANNELS %s Xposition\n}\n" % a + M,
                  b"HIERARCHY\nROOT a\n{\nOFFSET 0 0 0\nCHANNELS %s\n}\n" % a + M,
                  b"HIERARCHY\nROOT a\n{\nOFFSET 0 0 0\nCHANNELS 0\n}\nMOTION\nFrames: %s\nFrame Time: 0.1\n" % a,
                  H + b"MOTION\nFrames: %s\nFrame Time: 0.1\n1 2 3\n" % a,
                  H + b"MOTION\nFrames: 1\nFrame Time: %s\n1\n" % a):
            yield "counts", f


def whole(snap):
    return snap["joints"] and int(snap["ft"]) < WEEK and all(
        oracle.finite(x) for j in snap["joints"] for x in j["off"] + j["es"]) and all(oracle.finite(x) for f in snap["frames"] for x in f)


def c19(cx):
    rng = cx.rng
    tags, hist = [], []
    for tag, data in inputs(cx):
        op = {"op": "load", "slot": "a", "data": data.decode("latin-1")}
        op.update(entry(rng, data))
        if op["entry"] in ("parse", "str", "str_m", "bytes_str", "try_str") and rng.random() < 0.5:
            op = {"op": "load", "slot": "a", "data": data.decode("latin-1"), "entry": "bytes"}
        o = {k: v for k, v in session.write_opts(rng).items() if k in ("indent", "term", "default", "order", "fields")}
        hist.append([op, {"op": "reload", "slot": "a", "to": "b", "opts": o, "entry": "bytes"}])
        tags.append(tag)
    # what is accepted decides whether its text has to be accepted again
    res = cx.ad.run(hist)
    good, loaded = [], 0
    for ops, r, tag in zip(hist, res, tags):
        if session.outcome(r[0]) or not r[0].get("ok"):
            cx.count(tag + ":not accepted")
            continue
        cx.count(tag + ":accepted")
        if whole(r[0]["snap"]):
            good.append(ops + [{"op": "snap", "slot": "b", "after": "load"}, {"op": "snap", "slot": "a", "after": "load"}])
        else:
            cx.count("not finite or of a week or empty")
            good.append(ops[:1])
    session.run(cx, good, FOCUS, "accepted")
    # and it remains so in histories of edits and copies
    def do(g):
        for _ in range(rng.randint(1, 5)):
            s = g.pick()
            k = rng.randrange(5)
            if k == 0:
                g.cursor(s)
            elif k == 1:
                g.clone(s, "c")
            elif k == 2:
                g.reload(s, rng.choice("bc"))
            elif k == 3 and rng.random() < 0.3:
                g.extract(s)
            else:
                g.iter(s)
    session.run(cx, sessions(cx, cx.n(300, 6000), do), BROKEN + ["tree", "children", "columns", "wholeframes"], "histories")
