"""Histories over several Bvhs: generation, execution, conversion to traces, validation."""
import re

import gen
import oracle
from core import validate
from loader import snap_for_spec, unlat

SLOTS = ["a", "b", "c", "d"]
OUTCOMES = ("panic", "crash", "hang")

ZERO, MINUS0 = "00000000", "80000000"
SPECIAL = [ZERO, MINUS0, "3f800000", "bf800000", "00000001", "80000001", "007fffff", "00800000", "7f7fffff", "ff7fffff",
           "3dcccccd", "4b7fffff", "4b800000", "34000000", "33800000", "c2c80000", "5f000000", "1e3ce508"]


def value(rng, infinite=False):
    if infinite == "odd" and rng.random() < 0.15:
        return rng.choice(["7fc00000", "ffc00001", "7fc12345"])
    k = rng.random()
    if k < 0.5:
        return oracle.f32_bits(gen.simple_number(rng))
    if k < 0.75:
        return rng.choice(SPECIAL)
    if infinite and k < 0.8:
        return rng.choice(["7f800000", "ff800000"])
    while True:
        h = "%08x" % rng.getrandbits(32)
        if oracle.finite(h):
            return h


class Gen:
    """Generates one history, keeping a rough idea of the frames there are."""

    def __init__(self, rng, infinite=False):
        self.rng, self.infinite = rng, infinite
        self.ops = []
        self.sk = {}       # slot -> channels of each joint
        self.names = {}    # slot -> names
        self.nf = {}       # slot -> number of frames
        self.seq = 0
        # now and then there are few different frames
        self.poor = rng.random() < 0.15

    def nch(self, s):
        return sum(self.sk[s])

    def fresh(self, n):
        """A frame unlike any other, unless there are to be few different ones."""
        if self.poor:
            few = [ZERO, ZERO, "3f800000"] + (["7fc00000"] if self.infinite == "odd" else [])
            return [self.rng.choice(few)] * n if self.rng.random() < 0.5 else [self.rng.choice(few) for _ in range(n)]
        if self.infinite == "odd" and n and self.rng.random() < 0.1:
            return ["7fc00000"] + [value(self.rng, "odd") for _ in range(n - 1)]
        self.seq += 1
        return [value(self.rng, self.infinite) if self.rng.random() < 0.3 else oracle.f32_bits(b"%d.%d" % (self.seq, i % 1000)) for i in range(n)]

    def load(self, slot, root, nf, data=None, entry="bytes"):
        if data is None:
            st = gen.hierarchy(root, self.rng) + gen.motion(root, self.rng, nf, num=gen.number, ft=sane_time(self.rng))
            data = gen.Layout().render(st)
        self.ops.append({"op": "load", "slot": slot, "data": data.decode("latin-1"), "entry": entry})
        self.sk[slot] = [len(j.ch) for j in root.walk()]
        self.names[slot] = [j.name for j in root.walk()]
        self.nf[slot] = nf if root.channels() else 0

    def new(self, slot):
        self.ops.append({"op": "new", "slot": slot, "default": self.rng.random() < 0.5})
        self.sk[slot], self.names[slot], self.nf[slot] = [], [], 0

    def live(self):
        return sorted(self.sk)

    def pick(self):
        return self.rng.choice(self.live())

    def snap(self, slot, after="other"):
        self.ops.append({"op": "snap", "slot": slot, "after": after})

    def snap_all(self, after="other"):
        for s in self.live():
            self.snap(s, after)

    # --- operations

    def frame_for(self, slot):
        n = self.nch(slot)
        if self.rng.random() < 0.15:
            n = max(0, self.rng.choice([n - 1, n + 1, 0, 2 * n, n + 6, n + self.rng.randint(0, 5)]))
        return self.fresh(n)

    def cursor(self, slot, length=None, mix=None):
        rng = self.rng
        mix = mix or rng.choice(["edit", "edit", "move", "any", "grow", "shrink"])
        script = []
        length = length or rng.randint(1, 25)
        w = {"edit": dict(next=3, prev=2, first=1, last=1, ins=4, insm=2, rm=3, rmall=0.1, surr=0.5, setn=0.5, setp=0.5, shrink=0.2),
             "move": dict(next=6, prev=6, first=1, last=1, ins=0.5, rm=0.5, surr=1),
             "grow": dict(next=2, prev=2, first=1, ins=4, insm=4, shrink=0.3),
             "shrink": dict(next=2, prev=2, first=1, last=1, rm=6, rmall=0.2, ins=0.5, insm=0.3),
             "any": dict(next=1, prev=1, first=1, last=1, ins=1, insm=1, rm=1, rmall=0.5, surr=1, setn=1, setp=1, shrink=1)}[mix]
        names, weights = list(w), list(w.values())
        donors = [x for x in self.live() if x != slot]
        donor = rng.choice(donors) if donors and rng.random() < 0.5 else None
        for _ in range(length):
            c = rng.choices(names, weights)[0]
            if donor and rng.random() < 0.15:
                # frames borrowed from another Bvh
                k = rng.randint(0, self.nf[donor])
                script.append(["insd", k] if rng.random() < 0.6 else ["insmd"])
                self.nf[slot] += 1 if script[-1][0] == "insd" else self.nf[donor]
                continue
            if c == "ins":
                script.append(["ins", self.frame_for(slot), rng.choice(["vec", "slice", "box"])])
            elif c == "insm":
                n = rng.choice([0, 1, 1, 2, 2, 3, 4, 7])
                bad = rng.random() < 0.3
                fs = [self.fresh(self.nch(slot)) for _ in range(n)]
                if bad and n:
                    i = rng.randrange(n)
                    fs[i] = self.fresh(max(0, self.nch(slot) + rng.choice([-1, 1, 3])))
                script.append(["insm", fs, rng.choice(["exact", "slices", "zero", "zero0", "more", "less", "huge"])])
            elif c in ("setn", "setp"):
                n = self.nch(slot)
                script.append([c, rng.choice([rng.randint(0, max(0, n - 1)), rng.randint(0, n + 3)]), value(rng, self.infinite)])
            else:
                script.append([c])
            if c == "ins":
                self.nf[slot] += 1
            elif c == "insm":
                self.nf[slot] += len(script[-1][1])
            elif c == "rm":
                self.nf[slot] = max(0, self.nf[slot] - 1)
            elif c == "rmall":
                self.nf[slot] = 0
        if rng.random() < 0.5:
            script.append([rng.choice(["into", "from", "intom", "fromm"])])
        self.ops.append({"op": "cursor", "slot": slot, "script": script, "mutpeek": rng.random() < 0.4,
                         "nopeek": rng.random() < 0.15})
        if donor:
            self.ops[-1]["donor"] = donor
        self.snap(slot, "cursor")

    def iter(self, slot):
        rng = self.rng
        n, nf = self.nch(slot), self.nf[slot]
        mut = rng.random() < 0.5
        script = []
        def k():
            return rng.choice([0, 0, 1, 1, 2, 3, rng.randint(0, nf + 2), rng.choice([10**6, 2**31 - 2])])
        def sets():
            if not mut or n == 0 or rng.random() < 0.4:
                return None
            out = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                how = rng.choice(["set", "idx", "slice", "asmut", "borrow"])
                i = rng.randrange(n) if how != "set" or rng.random() < 0.8 else n + rng.randint(0, 3)
                out.append([i, value(rng, self.infinite), how])
            return out
        for _ in range(rng.randint(0, 9)):
            c = rng.choice(["n", "n", "n", "b", "b", "nth", "nthb", "byref_take", "find"])
            script.append({"c": c, "k": rng.randint(0, 4) if c == "byref_take" else k()})
        if rng.random() < 0.7:
            c = rng.choice(["count", "last", "rest", "rest", "rev", "rev", "fold", "rfold", "foreach", "skip", "step", "take", "zip"])
            script.append({"c": c, "k": max(1, k()) if c == "step" else k()})
        for cmd in script:
            s = sets()
            if s:
                cmd["set"] = s
        op = {"op": "iter", "slot": slot, "mut": mut, "script": script}
        if rng.random() < 0.2:
            op["from"] = rng.randint(0, nf + 1)
        self.ops.append(op)
        self.snap(slot, "iter")

    def access(self, slot, length=None):
        rng = self.rng
        n, nf = self.nch(slot), self.nf[slot]
        script = []
        for _ in range(length or rng.randint(1, 12)):
            via = rng.choice("sm")
            c = rng.choice(["get", "idx", "getr", "idxr", "slice", "asref", "borrow", "len"] +
                           (["copy"] if via == "s" else ["conv", "convref", "set", "set", "set", "setm", "setm", "setrm", "setidx", "setridx", "setslice", "setslice"]))
            cmd = {"f": rng.choice([0, rng.randint(0, max(0, nf - 1)), rng.randint(0, max(0, nf - 1)), rng.randint(0, nf)]), "via": via, "c": c}
            if c in ("get", "idx", "set", "setm", "setidx", "setslice"):
                chans = [(s, j, k) for s in self.live() for j, m in enumerate(self.sk[s]) for k in range(m)]
                if chans and c != "setslice" and rng.random() < 0.6:
                    own = [x for x in chans if x[0] == slot]
                    cmd["ch"] = list(rng.choice(own if own and rng.random() < 0.8 else chans))
                    cmd["byref"] = rng.random() < 0.5
                else:
                    cmd["i"] = rng.choice([rng.randint(0, max(0, n - 1)), rng.randint(0, max(0, n - 1)), n, n + 1, rng.randint(0, n + 6), 2**31 - 2])
                    if c == "setslice":
                        cmd["w"] = rng.choice(["slice", "asmut", "borrow"])
            if c in ("getr", "idxr", "setrm", "setridx"):
                a, b = rng.randint(0, n + 1), rng.randint(0, n + 1)
                if rng.random() < 0.7:
                    a, b = min(a, b), max(a, b)
                cmd.update(r=rng.choice(["r", "ri", "rf", "rt", "rti", "full"]), a=a, b=b)
            if c.startswith("set"):
                cmd["v"] = value(rng, self.infinite)
            script.append(cmd)
        self.ops.append({"op": "access", "slot": slot, "script": script})
        self.snap(slot, "access")

    def odd(self, slot):
        """Numbers that are none, zeros and infinities in the first or last frame or another."""
        rng, n, nf = self.rng, self.nch(slot), self.nf[slot]
        if n == 0 or nf == 0:
            return
        v = rng.choice(["7fc00000", "7fc00000", "ffc00001", ZERO, "7f800000"])
        if n > 40:
            row = lambda: [v if i == 0 or rng.random() < 0.9 else value(rng) for i in range(n)]
            at = rng.sample([["first"], ["last"]], rng.choice([1, 2]))
            self.ops.append({"op": "cursor", "slot": slot, "script": [c for a in at for c in (a, ["ins", row(), "vec"])]})
            self.nf[slot] += len(at)
            return
        script = []
        for f in {rng.choice([0, nf - 1, nf - 1, rng.randrange(nf)]) for _ in range(rng.choice([1, 1, 2]))}:
            for i in range(n):
                if i == 0 or rng.random() < 0.6:
                    script.append({"f": f, "via": "m", "c": "set", "i": i, "v": v})
        self.ops.append({"op": "access", "slot": slot, "script": script[:40]})

    def find(self, slot):
        rng = self.rng
        names = self.names[slot]
        op = {"op": "find", "slot": slot, "script": []}
        if names and rng.random() < 0.5:
            op["of"] = rng.randrange(len(names))
        for _ in range(rng.randint(0, 7)):
            c = rng.choice(["find", "find", "find", "next", "nth"])
            if c == "find":
                if names and rng.random() < 0.85:
                    x = rng.choice(names)
                    if rng.random() < 0.3:
                        x = rng.choice([x[:-1], x + b"x", x.lower(), x.upper(), b"", x[1:], gen.alike(rng, x or b"x")])
                else:
                    x = b"nobody"
                op["script"].append(["find", x.decode("latin-1"), rng.choice(["bytes", "slice", "str"])])
            elif c == "next":
                op["script"].append(["next"])
            else:
                op["script"].append(["nth", rng.randint(0, 4)])
        self.ops.append(op)

    def write(self, slot):
        self.ops.append({"op": "write", "slot": slot, "opts": write_opts(self.rng), "via": self.rng.choice(["string", "to_string", "write_to", "writer"])})

    def clone(self, slot, to):
        self.ops.append({"op": "clone", "slot": slot, "to": to})
        self._copy(slot, to)

    def clone_from(self, slot, frm):
        self.ops.append({"op": "clone_from", "slot": slot, "from": frm})
        self._copy(frm, slot)

    def _copy(self, a, b):
        self.sk[b], self.names[b], self.nf[b] = list(self.sk[a]), list(self.names[a]), self.nf[a]

    def reload(self, slot, to):
        if not self.sk[slot]:
            return
        o = {k: v for k, v in write_opts(self.rng).items() if k in ("indent", "term", "default", "order", "fields")}
        self.ops.append({"op": "reload", "slot": slot, "to": to, "opts": o, "entry": "bytes"})
        self._copy(slot, to)

    def setft(self, slot, week=False):
        rng = self.rng
        if week:
            s, n = rng.choice([0, 0, 0, 0, 1, 59, 3600, 604799, rng.randint(0, 604799)]), rng.choice([0, 1, 33333333, 999999999, 500000000, rng.randint(0, 999999999)])
        else:
            s = rng.choice([0, 0, 1, 604800, 2**32, 2**53, 2**64 - 1, rng.getrandbits(40)])
            n = rng.choice([0, 1, 33333333, 999999999, rng.randint(0, 999999999)])
        self.ops.append({"op": "setft", "slot": slot, "s": str(s), "n": n})
        if rng.random() < 0.5:
            # once more, to almost the same
            n = min(999999999, max(0, n + rng.choice([1, -1]) * rng.choice([1, 1, 7, 999, 1000, 250000, 1000000])))
            if rng.random() < 0.3 and len(self.live()) > 1:
                slot = self.pick()
            self.ops.append({"op": "setft", "slot": slot, "s": str(s), "n": n})

    def extract(self, slot):
        self.ops.append({"op": "extract", "slot": slot})
        self.nf[slot] = 0

    def eq(self, a, b):
        self.ops.append({"op": "eq", "slot": a, "to": b})


def sane_time(rng):
    """A frame time below a week."""
    while True:
        t = gen.frame_time(rng)
        ok, ns = oracle.frame_time(t)
        if ok and int(ns) < 604800 * 10**9:
            return t


def write_opts(rng):
    o = {}
    k = rng.randrange(6)
    if k == 1:
        o["indent"] = "none"
    elif k == 2:
        o["indent"] = rng.choice([0, 1, 2, 3, 4, 7, 8, 16, 40])
    elif k == 3:
        o["indent"] = "tabs"
    elif k == 4:
        o["indent"] = 4
    if rng.random() < 0.7:
        o["term"] = rng.choice(["unix", "windows", "windows", "native"])
    o["default"] = rng.random() < 0.5
    for p in ("off", "ft", "mo"):
        if rng.random() < 0.5:
            o[p] = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 17, 20, 30, 60])
    o["order"] = "".join(rng.sample("itofm", 5))
    o["fields"] = rng.random() < 0.2
    return o


# --- traces -----------------------------------------------------------------------------------------

def numbers(msg):
    return [int(x) for x in re.findall(r"\d+", msg) if int(x) < 2**31]


# What a message says that a number in it is, where it says so in one of these ways.
ROLES = {
    "actual": r"\bframe (?:with|of|containing|having|that has|has) (\d+)\b",
    "expected": r"\bbvh (?:with|of|containing|having|that has|has) (\d+)\b",
}


def roles(msg, table):
    """[[role, number as text]] for the phrases of the table that the message has."""
    return [[k, m.lstrip("0") or "0"] for k, rx in sorted(table.items()) for m in re.findall(rx, msg, re.I)]


def outcome(r):
    for k in OUTCOMES:
        if k in r:
            return k


def cursor_obs(r, nopeek, mutpeek):
    o = {"i": r.get("i", -1), "n": r.get("n", -1), "nc": r.get("c", -1), "pk": "pn" in r, "pn": r.get("pn", []), "pp": r.get("pp", []),
         "mk": "mn" in r, "mn": r.get("mn", []), "mp": r.get("mp", []), "e": [numbers(r["e"])] if "e" in r else [],
         "roles": roles(r.get("e", ""), ROLES),
         "f": r.get("frames", []), "r": [], "old": "none"}
    if isinstance(r.get("r"), list):
        o["r"] = r["r"]
    elif "r" in r:
        o["old"] = r["r"]
    if "e" in r:
        o["old"] = "refused"
    return o


def trace(ops, results, ident):
    """The trace of one history, or None if it has to be left out."""
    out = []
    for op, r in zip(ops, results):
        bad = outcome(r)
        if bad:
            out.append({"op": bad, "msg": r.get("panic", "")})
            break
        if "none" in r or "skipped" in r:
            return None
        k = op["op"]
        e = {"op": k, "slot": op.get("slot", "a"), "cmds": []}
        if k == "load":
            if not r["ok"]:
                return None
            e["snap"] = snap_for_spec(r["snap"])
        elif k == "snap":
            e["snap"] = snap_for_spec(r)
            e["after"] = op["after"]
        elif k == "reload":
            e.update(to=op["to"], ok=r["ok"], eq=r.get("eq", False))
            e["snap"] = snap_for_spec(r["snap"]) if r["ok"] else {}
        elif k == "clone":
            e["to"] = op["to"]
        elif k == "clone_from":
            e["from"] = op["from"]
        elif k == "setft":
            e["ft"] = str(int(op["s"]) * 10**9 + op["n"])
        elif k == "extract":
            e["vals"] = r["vals"]
        elif k == "eq":
            e.update(to=op["to"], eq=r["eq"], ne=r["ne"], qe=r["qe"])
        elif k == "cursor":
            e["donor"] = op.get("donor", "a")
            e["start"] = cursor_obs(r["start"], False, False)
            for cmd, o in zip(op["script"], r["steps"]):
                c = {"c": cmd[0], "x": [], "k": 0, "v": "", "o": cursor_obs(o, op.get("nopeek"), op.get("mutpeek"))}
                if cmd[0] == "ins":
                    c["x"] = [cmd[1]]
                elif cmd[0] == "insm":
                    c["x"] = cmd[1]
                elif cmd[0] == "insd":
                    c["k"] = cmd[1]
                elif cmd[0] in ("setn", "setp"):
                    c["k"], c["v"] = cmd[1], cmd[2]
                elif cmd[0] in ("into", "from", "intom", "fromm"):
                    c["c"] = "into"
                e["cmds"].append(c)
        elif k == "iter":
            e["from"] = op.get("from", 0)
            for cmd, o in zip(op["script"], r["steps"]):
                e["cmds"].append({"c": cmd["c"], "k": cmd["k"], "set": cmd.get("set", []),
                                  "o": {"f": o.get("f", []), "len": o.get("len", -1), "lo": o.get("lo", -1), "hi": o.get("hi", -1), "num": o.get("num", -1)}})
        elif k == "access":
            for cmd, o in zip(op["script"], r["steps"]):
                c = cmd["c"]
                rng = cmd.get("r", "one" if c in ("get", "idx", "set", "setm", "setidx", "setslice") else "full")
                e["cmds"].append({
                    "c": c, "f": cmd["f"], "ch": cmd.get("ch", []), "a": cmd.get("a", cmd.get("i", 0)), "b": cmd.get("b", 0), "r": rng,
                    "w": c.startswith("set"), "v": cmd.get("v", ""),
                    "o": {"r": o["r"], "v": o["v"], "n": o.get("n", -1), "e": o.get("e") is True, "k": o.get("k", ["", -1]),
                          "nums": numbers(o["e"]) if isinstance(o.get("e"), str) else []}})
        elif k == "find":
            e["owner"] = op.get("of", -1)
            e["rest"] = r["rest"]
            for cmd, o in zip(op["script"], r["steps"]):
                c = {"c": cmd[0], "x": "", "k": 0, "o": [o[0], oracle.esc(unlat(o[1]))] if o else []}
                if cmd[0] == "find":
                    c["x"] = oracle.esc(unlat(cmd[1]))
                elif cmd[0] == "nth":
                    c["k"] = cmd[1]
                e["cmds"].append(c)
        out.append(e)
    return {"id": ident, "ops": out}


def run(cx, histories, focus, tag):
    """Run histories (lists of operations) and validate their traces."""
    res = cx.ad.run(histories)
    traces = []
    for i, (ops, r) in enumerate(zip(histories, res)):
        tr = trace(ops, r, i)
        if tr is None:
            cx.count(tag + ":left out")
        else:
            traces.append(tr)
    verdicts, st = validate(cx.work, "SessionTrace", traces, focus, invariants=("Verdict", "ModelOk"))
    cx.add_tlc(st, len(traces))
    n = 0
    for tr in traces:
        v = verdicts[tr["id"]]
        n += v["ops"]
        if v["d"]:
            k = v["at"][1] - 1
            cx.violation({"history": histories[tr["id"]][:k + 1], "why": v["d"], "at": v["at"],
                          "result": res[tr["id"]][k] if k < len(res[tr["id"]]) else None, "tag": tag})
    cx.count(tag + ":operations", n)
    cx.count(tag + ":commands", sum(len(o["cmds"]) for tr in traces for o in tr["ops"] if "cmds" in o))
    import json
    cx.note_distinct({json.dumps(h, sort_keys=True) for h in histories})
    if histories:
        cx.sample({"tag": tag, "history": histories[0][:6]})
    return res, verdicts
