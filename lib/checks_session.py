"""C03, C09, C12 to C15, C17: what is done with Bvhs once they exist."""
import json

import gen
import models
import checks_scale
import session
from checks_loader import BROKEN, file, layout, entry, strange
from core import tlc, ToolError
from loader import Batch


def mc(cx, module, constants, invariants=(), properties=(), constraint="Constraint", view="View", emit=True):
    """Run a bounded model; return the cases it emits."""
    c = dict(constants, Emit=emit)
    r = tlc(cx.work, module, c, invariants=list(invariants), properties=list(properties), view=view,
            constraint=constraint, workers=1 if emit else 8)
    if r.violated:
        raise ToolError(module + ": " + r.violated + "\n" + r.out[-4000:])
    cx.add_mc(module, r, c)
    return [json.loads(l[5:]) for l in r.printed]


def pick(cx, cases, most):
    """A random selection of at most so many cases."""
    if len(cases) > most:
        cx.notes.append("%d of %d emitted histories replayed" % (most, len(cases)))
        cases = cx.rng.sample(cases, most)
    cx.replayed += len(cases)
    return cases


def rng_cut(cx, cases, most):
    return cases if len(cases) <= most else cx.rng.sample(cases, most)


def small(rng, nch, joints=None):
    """A skeleton with so many channels."""
    js = joints or rng.choice([1, 1, 2, 3])
    r = gen.skeleton(rng, n=js, num=gen.simple_number, chstyle="none")
    all_ = list(r.walk())
    for i in range(nch):
        rng.choice(all_).ch.append(gen.CH[rng.randrange(6)])
    return r


def sessions(cx, n, do, load=None, two=0.4, odd=False):
    """Random histories: bring Bvhs in, do something, look at everything."""
    rng, out = cx.rng, []
    for _ in range(n):
        g = session.Gen(rng, infinite="odd" if odd and rng.random() < 0.4 else False)
        load_some(g, load, two)
        do(g)
        g.snap_all()
        out.append(g.ops)
    return out


def load_some(g, load=None, two=0.4):
    rng = g.rng
    def one(s):
        if load:
            load(g, s)
        else:
            g.load(s, gen.skeleton(rng, maxj=6, num=gen.simple_number), rng.choice([0, 1, 1, 2, 3, 4, 6]))
    one("a")
    if rng.random() < two:
        one("b")
    if rng.random() < 0.08:
        g.new("d")


# --- cursor -------------------------------------------------------------------------------------

def cursor_case(rng, case):
    """The history of a CursorMC case."""
    g = session.Gen(rng)
    w = case["w"]
    g.load("a", small(rng, w), case["n"])
    script = []
    width = {"ok": w, "short": w - 1, "long": w + 1}
    for c, arg in case["h"]:
        if c == "ins":
            script.append(["ins", g.fresh(width[arg[0]]), rng.choice(["vec", "slice", "box"])])
        elif c == "insm":
            script.append(["insm", [g.fresh(width[x]) for x in arg], rng.choice(["exact", "slices", "zero", "zero0", "more", "less"])])
        elif c in ("setn", "setp"):
            script.append([c, arg[0], session.value(rng)])
        else:
            script.append([c])
    if rng.random() < 0.3:
        script.append(["surr"])
    if rng.random() < 0.5:
        script.append([rng.choice(["into", "from", "intom", "fromm"])])
    g.ops.append({"op": "cursor", "slot": "a", "script": script, "mutpeek": rng.random() < 0.3, "nopeek": rng.random() < 0.1})
    g.snap("a", "cursor")
    return g.ops


def cursor_models(cx, most):
    cases = []
    cases += mc(cx, "CursorMC", {"MaxFrames": 3, "Width": 0, "Memory": 2}, ["TypeOk"], ["IsListEdit"])
    cases += mc(cx, "CursorMC", {"MaxFrames": 3, "Width": 2, "Memory": 1}, ["TypeOk"], ["IsListEdit"])
    if cx.thorough:
        cases += mc(cx, "CursorMC", {"MaxFrames": 3, "Width": 1, "Memory": 2}, ["TypeOk"], ["IsListEdit"])
        cases += mc(cx, "CursorMC", {"MaxFrames": 5, "Width": 3, "Memory": 1}, ["TypeOk"], ["IsListEdit"])
        mc(cx, "CursorMC", {"MaxFrames": 5, "Width": 2, "Memory": 3}, ["TypeOk"], ["IsListEdit"], emit=False)
    return [cursor_case(cx.rng, c) for c in pick(cx, cases, most)]


def cursor_do(g):
    for _ in range(g.rng.choice([1, 1, 2, 3])):
        s = g.pick()
        g.cursor(s)
        if g.rng.random() < 0.2:
            g.access(s, 3)


def cursor_check(cx, focus):
    cases = cursor_models(cx, cx.n(5000, 10**6))
    session.run(cx, cases, focus, "CursorMC")
    session.run(cx, sessions(cx, cx.n(600, 12000), cursor_do, odd=True), focus, "cursor")
    # long scripts on many and wide frames
    def big(g, s):
        nf, nch = g.rng.choice([(40, 3), (3, 60), (130, 1), (12, 17), (5, 100), (3, 300)])
        g.load(s, small(g.rng, nch), nf)
    session.run(cx, sessions(cx, cx.n(25, 400), lambda g: g.cursor("a", length=60), load=big, two=0.3), focus, "cursor:big")
    # there and back, past every frame
    walks = []
    for nf in cx.n([300, 1100], [300, 1100, 2100, 4200]):
        g = session.Gen(cx.rng)
        g.load("a", small(cx.rng, 1), nf)
        g.ops.append({"op": "cursor", "slot": "a", "script": [["next"]] * (nf + 2) + [["prev"]] * (nf + 2)})
        walks.append(g.ops)
    session.run(cx, walks, focus, "cursor:walk")
    checks_scale.huge(cx, "cursor", focus)


def c12(cx):
    cursor_check(cx, BROKEN + ["index", "peek", "into", "nchannels", "count"])


def c13(cx):
    cursor_check(cx, BROKEN + ["frames-cursor", "refusal", "count", "index", "skeleton", "frametime"])


# --- iterators ----------------------------------------------------------------------------------

def iter_case(rng, case):
    g = session.Gen(rng)
    g.load("a", small(rng, rng.choice([1, 1, 2, 3])), case["n"])
    n = g.nch("a")
    if rng.random() < 0.3:
        g.odd("a")
    mut = rng.random() < 0.6
    script = []
    for c, k in case["h"]:
        cmd = {"c": c, "k": k}
        if mut and rng.random() < 0.6:
            cmd["set"] = [[rng.randrange(n), session.value(rng), rng.choice(["set", "idx", "slice", "asmut", "borrow"])]]
        script.append(cmd)
    op = {"op": "iter", "slot": "a", "mut": mut, "script": script}
    g.ops.append(op)
    g.snap("a", "iter")
    return g.ops


def c14(cx):
    rng = cx.rng
    focus = BROKEN + ["iter-frames", "iter-len", "iter-count", "frames-iter", "wholeframes", "skeleton", "frametime"]
    cases = mc(cx, "IterMC", {"MaxFrames": 4, "MaxSkip": 3, "Memory": 1}, ["EachOnce"], ["Takes", "Fused"])
    mc(cx, "IterMC", {"MaxFrames": cx.n(5, 7), "MaxSkip": 3, "Memory": 1}, ["EachOnce"], ["Takes", "Fused"], emit=False)
    if cx.thorough:
        cases += mc(cx, "IterMC", {"MaxFrames": 5, "MaxSkip": 6, "Memory": 1}, ["EachOnce"], ["Takes", "Fused"])
    session.run(cx, [iter_case(rng, c) for c in pick(cx, cases, cx.n(6000, 80000))], focus, "IterMC")

    def do(g):
        for _ in range(rng.choice([1, 2, 3])):
            s = g.pick()
            if rng.random() < 0.25:
                g.cursor(s, 4)
            if rng.random() < 0.1:
                g.extract(s)
            if rng.random() < 0.2:
                g.odd(s)
            g.iter(s)
    session.run(cx, sessions(cx, cx.n(900, 15000), do, odd=True), focus, "iter")
    def big(g, s):
        nf, nch = rng.choice([(40, 3), (3, 60), (200, 1), (1, 300), (2, 101), (4, 66)])
        g.load(s, small(rng, nch), nf)
        if rng.random() < 0.6:
            g.odd(s)
    session.run(cx, sessions(cx, cx.n(60, 600), do, load=big, two=0.1), focus, "iter:big")
    checks_scale.huge(cx, "iter", focus)


# --- access -------------------------------------------------------------------------------------

def c15(cx):
    rng = cx.rng
    focus = BROKEN + ["access", "frames-access", "frames-cursor"]
    cases = mc(cx, "AccessMC", {"MaxWidth": cx.n(4, 6)}, ["Selects"], constraint=None, view=None)
    cx.replayed += len(cases)
    by = {}
    for c in cases:
        by.setdefault(c["w"], []).append(c["cmd"])
    hist = []
    for w, cmds in by.items():
        if w == 0:
            continue
        rng.shuffle(cmds)
        for a in range(0, len(cmds), 12):
            for via in "sm":
                g = session.Gen(rng)
                nf = rng.choice([1, 2, 3])
                g.load("a", small(rng, w), nf)
                script = []
                for c in cmds[a:a + 12]:
                    if via == "s" and c["c"].startswith("set"):
                        continue
                    cmd = {"f": rng.randrange(nf), "via": via, "c": c["c"], "v": session.value(rng, "odd")}
                    if c["r"] == "one":
                        cmd["i"] = c["a"]
                        del_v = not c["c"].startswith("set")
                    else:
                        cmd.update(r=c["r"], a=c["a"], b=c["b"])
                        del_v = not c["c"].startswith("set")
                    if del_v:
                        del cmd["v"]
                    script.append(cmd)
                g.ops.append({"op": "access", "slot": "a", "script": script})
                g.snap("a", "access")
                hist.append(g.ops)
    session.run(cx, hist, focus, "AccessMC")

    # every value stored over every value, in every way
    ways = ["set", "setm", "setidx", "setslice"]
    vals = ["00000000", "80000000", "3f800000", "00000001", "7f800000", "7fc00000", "ffc00001"] + ([] if not cx.thorough else [
        "bf800000", "80000001", "ff800000", "7fc12345", "7f7fffff", "00800000", "3f800001"])
    edges = mc(cx, "RegisterMC", {"Width": 2, "Values": set(vals), "Ways": set(ways)}, ["Holds"], ["ReturnsOld", "OthersKeep"], constraint=None)
    edges = [dict(e) for e in sorted({tuple(sorted(e.items())) for e in edges})]
    rng.shuffle(edges)
    cx.replayed += len(edges)
    hist = []
    for a in range(0, len(edges), 8):
        g = session.Gen(rng)
        g.load("a", small(rng, 2), rng.choice([1, 2]))
        script = []
        f = rng.randrange(g.nf["a"])
        def put(e, way, v):
            cmd = {"f": f, "via": "m", "c": way, "i": e["at"], "v": v}
            if way == "setslice":
                cmd["w"] = rng.choice(["slice", "asmut", "borrow"])
            elif rng.random() < 0.4:
                j = [(j, k) for j, m in enumerate(g.sk["a"]) for k in range(m)][e["at"]]
                del cmd["i"]
                cmd.update(ch=["a"] + list(j), byref=rng.random() < 0.5)
            script.append(cmd)
        for e in edges[a:a + 8]:
            put(e, rng.choice(ways), e["old"])
            put(e, e["way"], e["new"])
            script.append({"f": f, "via": rng.choice("sm"), "c": "get", "i": e["at"]})
        g.ops.append({"op": "access", "slot": "a", "script": script})
        g.snap("a", "access")
        hist.append(g.ops)
    session.run(cx, hist, focus, "RegisterMC")

    # every channel of every joint addresses its own column
    hist = []
    for _ in range(cx.n(120, 2500)):
        g = session.Gen(rng)
        load_some(g, two=0.7)
        for s in list(g.live()):
            for t in g.live():
                chans = [[t, j, k] for j, m in enumerate(g.sk[t]) for k in range(m)]
                rng.shuffle(chans)
                script = []
                for ch in chans[:40]:
                    via = rng.choice("sm")
                    c = rng.choice(["get", "idx"] if via == "s" else ["get", "idx", "set", "setm", "setidx"])
                    cmd = {"f": rng.randint(0, max(0, g.nf[s] - 1)), "via": via, "c": c, "ch": ch, "byref": rng.random() < 0.5}
                    if c.startswith("set"):
                        cmd["v"] = session.value(rng, "odd")
                    script.append(cmd)
                g.ops.append({"op": "access", "slot": s, "script": script})
                g.snap(s, "access")
        hist.append(g.ops)
    session.run(cx, hist, focus, "channels")

    def do(g):
        for _ in range(rng.choice([1, 2, 3])):
            s = g.pick()
            if rng.random() < 0.2:
                g.cursor(s, 5)
            g.access(s)
    session.run(cx, sessions(cx, cx.n(900, 15000), do, two=0.6, odd=True), focus, "access")
    def big(g, s):
        nf, nch = rng.choice([(40, 3), (3, 60), (1, 300), (2, 101), (4, 66), (1, 17), (1, 33)])
        g.load(s, small(rng, nch), nf)
        if rng.random() < 0.6:
            g.odd(s)
            g.ops.append({"op": "access", "slot": s, "script": [
                {"f": f, "via": rng.choice("ssm"), "c": rng.choice(["get", "idx"]), "i": i}
                for f in {0, g.nf[s] - 1} for i in [0, nch - 1] + rng.choices(range(nch), k=5)]})
    session.run(cx, sessions(cx, cx.n(60, 600), do, load=big, two=0.3), focus, "access:big")
    checks_scale.huge(cx, "access", focus)


# --- whole Bvhs ---------------------------------------------------------------------------------

def copy_case(rng, case):
    """The history of a CopyMC case: a has skeleton 1, b skeleton 2 or nothing."""
    g = session.Gen(rng)
    h = case["h"]
    one, two = small(rng, 1, rng.choice([1, 2])), small(rng, 1, rng.choice([1, 2, 3]))
    g.load("a", one, int(h[0][1]))
    if h[0][2] == "0":
        g.new("b")
    else:
        g.load("b", two, 2)
    def cu(s, *script):
        g.ops.append({"op": "cursor", "slot": s, "script": [list(x) for x in script]})
    for op, s, _ in h[1:]:
        o = "b" if s == "a" else "a"
        if op == "push":
            cu(s, ["last"], ["ins", g.fresh(g.nch(s)), "vec"])
        elif op == "unshift":
            cu(s, ["ins", g.fresh(g.nch(s)), "vec"])
        elif op == "badinsert":
            cu(s, ["ins", g.fresh(9), "vec"])
        elif op == "shift":
            cu(s, ["rm"])
        elif op == "clear":
            cu(s, ["rmall"])
        elif op == "set":
            cu(s, ["setn", 0, session.value(rng)])
        elif op == "setft1":
            g.ops.append({"op": "setft", "slot": s, "s": "0", "n": 33333333})
        elif op == "setft3":
            g.ops.append({"op": "setft", "slot": s, "s": "3", "n": 1})
        elif op == "extract":
            g.extract(s)
        elif op == "write":
            g.write(s)
        elif op == "iterate":
            g.ops.append({"op": "iter", "slot": s, "mut": True, "script":
                          [{"c": "rest", "k": 0, "set": [[0, session.value(rng), "set"]]}]})
        elif op == "new":
            g.new(s)
        elif op == "clone":
            g.clone(o, s)
        elif op == "clone_from":
            g.clone_from(s, o)
        elif op == "reload":
            g.reload(o, s)
        elif op == "eq":
            g.eq(s, o)
    g.snap("a")
    g.snap("b")
    g.eq("a", "b")
    return g.ops


SAME = BROKEN + ["skeleton", "nchannels", "frametime", "frames-other", "frames-cursor", "frames-iter", "frames-access", "eq", "extract"]


def mixed(g, copies=True):
    rng = g.rng
    for _ in range(rng.randint(2, 9)):
        k, s = rng.randrange(13), g.pick()
        if k < 2:
            g.cursor(s, rng.randint(1, 8))
        elif k == 2:
            g.iter(s)
        elif k == 3:
            g.access(s, 4)
        elif k == 4:
            g.write(s)
        elif k in (5, 6):
            g.clone(s, rng.choice("abcd"))
        elif k == 7:
            g.clone_from(s, g.pick())
        elif k == 8:
            g.setft(s)
        elif k == 9:
            g.extract(s)
        elif k == 10:
            g.ops.append({"op": "debug", "slot": s})
        elif k == 11:
            g.snap(s)
        else:
            g.eq(s, g.pick())
    for s in g.live():
        for t in g.live():
            g.eq(s, t)


def near_name(rng, name):
    """A name that is almost the given one."""
    k = rng.randrange(6)
    i = rng.randrange(len(name))
    if k == 0 and name.swapcase() != name:
        return name.swapcase()
    if k == 1 and name[i:i + 1].swapcase() != name[i:i + 1]:
        return name[:i] + name[i:i + 1].swapcase() + name[i + 1:]
    if k == 2 and len(name) > 1:
        return name[:i] + name[i + 1:]
    if k == 3 and len(name) > 1 and name[::-1] != name:
        return name[::-1]
    if k == 4:
        return name[:i] + (b"y" if name[i:i + 1] != b"y" else b"z") + name[i + 1:]
    return rng.choice([name + b"x", b"x" + name, name + b"_", name + name[-1:]])


def twins(cx, n):
    """Files that differ in one thing, or in nothing but the way they are written; compared."""
    rng, out = cx.rng, []
    for _ in range(n):
        g = session.Gen(rng)
        r = gen.skeleton(rng, maxj=5, num=lambda g: rng.choice([b"0", b"1", b"2.5"]))
        nf = rng.choice([0, 1, 2])
        st = gen.hierarchy(r) + gen.motion(r, rng, nf, num=lambda g: rng.choice([b"0", b"1", b"3"]), ft=b"0.5")
        st2 = [list(x) for x in st]
        k = rng.randrange(6)
        if k == 1:
            # one token
            c = [(i, j) for i, x in enumerate(st2) for j, t in enumerate(x) if t in (b"0", b"1", b"2.5", b"3") and x[0] not in (b"CHANNELS", b"Frames:", b"Frames")]
            if c:
                i, j = rng.choice(c)
                st2[i][j] = rng.choice([b"7", b"-0"])
        elif k == 2:
            c = [x for x in st2 if x[0] in (b"ROOT", b"JOINT")]
            x = rng.choice(c)
            x[1] = near_name(rng, x[1])
        elif k == 3:
            c = [x for x in st2 if x[0] == b"CHANNELS" and len(x) > 2]
            if c:
                x = rng.choice(c)
                x[rng.randrange(2, len(x))] = rng.choice(gen.CH)
        elif k == 4:
            for x in st2:
                if x[-1] == b"0.5":
                    x[-1] = b"0.500000001"
        elif k == 5:
            # another tree
            kids = list(r.walk())
            if len(kids) > 2:
                p = rng.choice(kids[1:])
                if p.kids:
                    x = p.kids.pop()
                    r.kids.append(x)
                    st2 = gen.hierarchy(r) + st[len(gen.hierarchy(r)):]
        g.load("a", r, nf, data=gen.Layout().render(st))
        g.load("b", r, nf, data=gen.Layout(rng, plain=False).render(st2))
        for s in "ab":
            for t in "ab":
                g.eq(s, t)
        if rng.random() < 0.5:
            mixed(g)
        g.snap_all()
        out.append(g.ops)
    return out


def shapes(cx, n):
    """Every two trees of n joints which are otherwise the same, compared."""
    rng, out = cx.rng, []
    def trees(k):
        """Lists of the children's subtrees, for k joints below one."""
        if k == 0:
            yield []
            return
        for first in range(1, k + 1):
            for below in trees(first - 1):
                for rest in trees(k - first):
                    yield [below] + rest
    def joint(kids):
        j = gen.Joint(b"j", [b"0"] * 3, [], None)
        j.kids = [joint(x) for x in kids]
        return j
    all_ = list(trees(n - 1))
    for i, x in enumerate(all_):
        for y in all_[i:]:
            g = session.Gen(rng)
            for s, t in ("a", x), ("b", y):
                r = joint(t)
                g.load(s, r, 0, data=gen.Layout().render(gen.hierarchy(r) + gen.motion(r, rng, 0, ft=b"1")))
            g.eq("a", "b")
            g.eq("b", "a")
            out.append(g.ops)
    return out


def c17(cx):
    for n in cx.n([4, 5, 6], [4, 5, 6, 7]):
        cases = shapes(cx, n)
        session.run(cx, rng_cut(cx, cases, cx.n(400, 12000)), SAME, "shapes")
    cases = mc(cx, "CopyMC", {"MaxFrames": 2, "Memory": 1}, ["TypeOk"], ["OnlyNamed"])
    if cx.thorough:
        mc(cx, "CopyMC", {"MaxFrames": 3, "Memory": 2}, ["TypeOk"], ["OnlyNamed"], emit=False)
    session.run(cx, [copy_case(cx.rng, c) for c in pick(cx, cases, cx.n(3500, 60000))], SAME, "CopyMC")
    session.run(cx, sessions(cx, cx.n(700, 12000), mixed), SAME, "mixed")
    session.run(cx, twins(cx, cx.n(500, 8000)), SAME, "twins")


# --- tree ---------------------------------------------------------------------------------------

def find_case(rng, case):
    g = session.Gen(rng)
    js = [gen.Joint(nm.encode() * rng.choice([1, 1, 3]), [b"0"] * 3, [], None) for nm in case["names"]]
    name = {}
    for j, nm in zip(js, case["names"]):
        j.name = nm.encode()
    for i, p in enumerate(case["par"]):
        if p >= 0:
            js[p].kids.append(js[i])
    g.load("a", js[0], 0)
    op = {"op": "find", "slot": "a", "script": []}
    if case["of"] >= 0:
        op["of"] = case["of"]
    for c, x in case["h"]:
        op["script"].append(["find", x, rng.choice(["bytes", "slice", "str"])] if c == "find" else ["next"] if c == "next" else ["nth", int(x)])
    g.ops.append(op)
    return g.ops


TREE = BROKEN + ["tree", "children", "find", "reload"]


def c03(cx):
    rng = cx.rng
    cases = mc(cx, "FindMC", {"MaxJoints": cx.n(3, 4)}, ["Tree"])
    session.run(cx, [find_case(rng, c) for c in pick(cx, cases, cx.n(4300, 30000))], TREE, "FindMC")

    # parents and children as declared, against the text
    b = Batch()
    cases = models.loader_mc(cx, *cx.n((4, 1, 1), (6, 1, 1)), 9, True, True)
    cases = [c for c in cases if c[1] == "Loaded"]
    cx.replayed += len(cases)
    if len(cases) > 20000:
        cases = rng.sample(cases, 20000)
    for lines, k in cases:
        b.add(layout(rng, 0.8).render(lines), tag="LoaderMC:" + k)
    for _ in range(cx.n(700, 12000)):
        r = gen.skeleton(rng, maxj=rng.choice([8, 8, 30]), num=gen.simple_number)
        b.add(layout(rng, 0.8).render(file(rng, r, nf=0)), tag="tree")
    for n in cx.n([60, 130], [60, 130, 300, 600]):
        for how in ("chain", "star", "comb", "bushy", "random", "deepstar"):
            r = gen.skeleton(rng, n=n, how=how, num=gen.simple_number, chstyle="none")
            b.add(gen.Layout().render(file(rng, r, nf=0)), tag="big:" + how)
    strange(cx, b, cx.n(350, 12000))
    b.run(cx.ad, cx, BROKEN + ["rejected", "njoints", "index", "parent", "root", "children", "jointsmut"])

    # searches and trees of Bvhs with a history
    def do(g):
        for _ in range(rng.choice([1, 2])):
            s = g.pick()
            k = rng.randrange(5)
            if k == 0:
                g.clone(s, rng.choice("abcd"))
            elif k == 1:
                g.reload(s, rng.choice("cd"))
            elif k == 2:
                g.cursor(s, 4)
            elif k == 3:
                g.extract(s)
            for t in g.live():
                g.find(t)
    session.run(cx, sessions(cx, cx.n(700, 12000), do), TREE, "find")


# --- writing and reading back -------------------------------------------------------------------

def c09(cx):
    rng = cx.rng
    focus = BROKEN + ["reload"]
    cases = models.loader_mc(cx, *cx.n((3, 2, 2), (4, 4, 2)), 9, True, True)
    cases = [c for c in cases if c[1] == "Loaded"]
    if len(cases) > cx.n(2500, 12000):
        cases = rng.sample(cases, cx.n(2500, 12000))
    cx.replayed += len(cases)
    hist = []
    def reload(s, t):
        return {"op": "reload", "slot": s, "to": t, "opts": {k: v for k, v in session.write_opts(rng).items() if k in ("indent", "term", "default", "order", "fields")}, "entry": rng.choice(["bytes", "slice", "bytes"])}
    for lines, k in cases:
        hist.append([{"op": "load", "slot": "a", "data": layout(rng, 0.8).render(lines).decode("latin-1"), "entry": "bytes"},
                     reload("a", "b"), {"op": "snap", "slot": "a", "after": "other"}])
    session.run(cx, hist, focus, "LoaderMC")

    def load(g, s):
        r = gen.skeleton(rng, maxj=8, num=rng.choice([gen.number, gen.simple_number]))
        g.load(s, r, rng.choice([0, 1, 1, 2, 3]))
    def do(g):
        for _ in range(rng.choice([1, 1, 2, 3])):
            s = g.pick()
            k = rng.randrange(8)
            if k == 0:
                g.cursor(s, rng.randint(1, 6))
            elif k == 1:
                g.iter(s)
            elif k == 2:
                g.access(s, 4)
            elif k in (3, 4):
                g.setft(s, week=True)
            elif k == 5:
                g.extract(s)
            elif k == 6:
                g.clone(s, rng.choice("abc"))
            else:
                g.write(s)
            g.reload(s, rng.choice("cd"))
            if rng.random() < 0.3 and "d" in g.live():
                g.reload("d", "c")
    session.run(cx, sessions(cx, cx.n(900, 15000), do, load=load), focus, "history")
    # numbers: many values per file
    hist = []
    for _ in range(cx.n(80, 1500)):
        g = session.Gen(rng)
        g.load("a", small(rng, 6, 1), 0)
        g.ops.append({"op": "cursor", "slot": "a", "script": [["insm", [[session.value(rng) for _ in range(6)] for _ in range(20)], "exact"]]})
        g.nf["a"] = 20
        g.setft("a", week=True)
        g.reload("a", "b")
        for _ in range(6):
            g.setft("a", week=True)
            g.reload("a", "b")
        hist.append(g.ops)
    session.run(cx, hist, focus, "numbers")
    # big ones
    hist = []
    for n in cx.n([60, 130], [60, 130, 300, 600]):
        for how in ("chain", "star", "comb", "bushy", "random", "deepstar"):
            g = session.Gen(rng)
            g.load("a", gen.skeleton(rng, n=n, how=how, num=gen.simple_number, chstyle="mixed"), rng.choice([0, 1, 2]))
            g.reload("a", "b")
            hist.append(g.ops)
    for nf, nch in [(150, 3), (4, 150), (500, 1)]:
        g = session.Gen(rng)
        g.load("a", small(rng, nch), nf)
        g.reload("a", "b")
        hist.append(g.ops)
    for ln in (1000, 9000, 70000):
        g = session.Gen(rng)
        nm = bytes(rng.choice(b"abcdefgh:XYZ") for _ in range(ln))
        g.load("a", gen.skeleton(rng, n=2, names=lambda r, nm=nm: b"n" + nm, num=gen.simple_number), 1)
        g.reload("a", "b")
        hist.append(g.ops)
    session.run(cx, hist, focus, "big")


def c04(cx):
    """Columns of Bvhs that were copied, edited, written and loaded again."""
    rng = cx.rng
    def do(g):
        for _ in range(rng.randint(1, 4)):
            s = g.pick()
            k = rng.randrange(6)
            if k == 0:
                g.clone(s, rng.choice("bc"))
            elif k == 1:
                g.clone_from(s, g.pick())
            elif k == 2:
                g.reload(s, rng.choice("bc"))
            elif k == 3:
                g.extract(s)
            elif k == 4:
                g.cursor(s, 6)
            else:
                g.access(s, 8)
    def load(g, s):
        g.load(s, gen.skeleton(rng, maxj=6, num=gen.simple_number, chstyle=rng.choice(["mixed", "many", "one", "none"])), rng.choice([0, 1, 2]))
    session.run(cx, sessions(cx, cx.n(300, 5000), do, load), BROKEN + ["columns", "nchannels"], "histories")
