"""From inputs to validated loader traces."""
import oracle
from core import validate

OUTCOMES = ("panic", "crash", "hang", "skipped")


def unlat(x):
    return x.encode("latin-1")


def snap_for_spec(sn):
    """Names as the texts by which the specification knows them."""
    e = lambda x: oracle.esc(unlat(x))
    for j in sn["joints"]:
        j["name"] = e(j["name"])
        j["parn"] = e(j["parn"])
        j["kids"] = [[k[0], e(k[1])] for k in j["kids"]]
    if sn["root"]:
        sn["root"] = [sn["root"][0], e(sn["root"][1])]
    return sn


def observation(r):
    """An adapter result of `load` as the obs and mem fields of a trace."""
    for k in OUTCOMES:
        if k in r:
            return {"r": k}, 0
    if r["ok"]:
        return {"r": "ok", "snap": snap_for_spec(r["snap"])}, r["peak"]
    er = dict(r["err"])
    er["bad"] = oracle.esc(unlat(er["bad"]))
    for k in ("disp", "chain", "pcbad", "ctypes", "dbg"):
        er.pop(k, None)
    return {"r": "err", "err": er}, r["peak"]


def input_bytes(op):
    if "data" in op:
        return unlat(op["data"])
    return b"".join(unlat(p[0]) * p[1] for p in op["parts"])


class Batch:
    """Load operations with their inputs; turned into traces and validated."""

    def __init__(self):
        self.ops, self.tags = [], []

    def add(self, data, entry="bytes", tag="", **kw):
        op = {"op": "load", "data": data.decode("latin-1"), "entry": entry}
        op.update(kw)
        self.ops.append(op)
        self.tags.append(tag)

    def run(self, ad, cx, focus, weird_focus=("panic", "crash", "hang"), post=None):
        """Validate every load.  cx collects verdicts and reports violations."""
        res = ad.run([[op] for op in self.ops])
        traces = []
        for i, (op, r) in enumerate(zip(self.ops, res)):
            r = r[0]
            if "none" in r or "skipped" in r:
                continue
            data = input_bytes(op)
            num, weird = oracle.table(data)
            obs, mem = observation(r)
            if weird:
                # The meaning of the input is left open: only the outcome as such is judged.
                cx.count("weird", 1)
                if obs["r"] in weird_focus:
                    cx.violation({"input": op, "result": obs, "why": obs["r"]})
                elif mem > 1048576 + 512 * len(data) and "memory" in focus:
                    cx.violation({"input": op, "why": "memory", "peak": mem})
                continue
            f = op.get("fault")
            traces.append({
                "id": i, "bytes": list(data), "text": oracle.esc(data), "size": len(data), "num": num,
                "fault": f["at"] if f else -1,
                "io": {"kind": f["kind"], "msg": f["msg"]} if f else {"kind": "", "msg": ""},
                "obs": obs, "mem": mem})
        verdicts, st = validate(cx.work, "LoaderTrace", traces, focus,
                                invariants=("Verdict", "CoherentState"))
        cx.add_tlc(st, len(traces))
        kinds = {}
        for tr in traces:
            v = verdicts[tr["id"]]
            k = v["pc"] if v["pc"] == "Loaded" else v["kind"]
            kinds[k] = kinds.get(k, 0) + 1
            if v["d"]:
                cx.violation({"input": self.ops[tr["id"]], "text": input_bytes(self.ops[tr["id"]]).decode("latin-1"),
                              "expected": v["exp"], "outcome": v["pc"], "kind": v["kind"],
                              "observed": tr["obs"], "why": v["d"], "tag": self.tags[tr["id"]]})
        for k, n in kinds.items():
            cx.count("outcome:" + k, n)
        cx.note_distinct({(op["data"] if "data" in op else str(op["parts"])) + str(op.get("fault")) + op["entry"] for op in self.ops})
        return res, verdicts
