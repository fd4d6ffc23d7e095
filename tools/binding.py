"""How tightly the traces bind: python3-vt tools/binding.py <property> [traces per kind]

Runs the check of a property, and validates a sample of its traces again with one recorded observation
changed in each.  Prints, for each kind of trace and each place of the record, how many of the changed
traces the specification still accepts: such places are not judged (or not for this property's focus).
"""
import collections
import copy
import os
import random
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF + "/lib")
sys.dont_write_bytecode = True

import core  # noqa: E402

SAMPLE = int(sys.argv[2]) if len(sys.argv) > 2 else 60
rng = random.Random(5)
real = core.validate
INPUT = {"id", "bytes", "text", "size", "num", "fault", "io", "word", "via", "tables"}


def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from leaves(v, path + (i,))
        if x:
            yield path + ("drop",)
    else:
        yield path


def change(x, path):
    y = copy.deepcopy(x)
    at = y
    for k in path[:-1]:
        at = at[k]
    if path[-1] == "drop":
        del at[-1]
        return y
    v = at[path[-1]]
    at[path[-1]] = (not v) if isinstance(v, bool) else v + 1 if isinstance(v, int) else v + "1" if v else "00000001"
    return y


def validate(work, module, traces, focus=None, **kw):
    out = real(work, module, traces, focus, **kw)
    some = rng.sample(traces, min(SAMPLE, len(traces)))
    bad, where = [], {}
    for t in some:
        spots = [p for p in leaves(t) if p[0] not in INPUT]
        for p in rng.sample(spots, min(6, len(spots))):
            c = change(t, p)
            c["id"] = len(bad)
            where[c["id"]] = tuple(k for k in p if not isinstance(k, int))
            bad.append(c)
    tally = collections.Counter()
    broken = collections.Counter()
    todo = bad
    while todo:
        try:
            v, _ = real(work, module, todo, focus, **kw)
            break
        except core.ToolError as e:
            # A record that makes no sense stops TLC: try these one by one in smaller groups.
            if len(todo) == 1:
                broken[where[todo[0]["id"]]] += 1
                v = {}
                break
            v = {}
            for c in todo:
                try:
                    v.update(real(work, module, [c], focus, **kw)[0])
                except core.ToolError:
                    broken[where[c["id"]]] += 1
            break
    for i, r in v.items():
        tally[(where[i], bool(r["d"]))] += 1
    print("==", module, sum(n for (w, d), n in tally.items() if d) + sum(broken.values()), "of", len(bad), "rejected")
    for w in sorted({w for w, _ in tally}):
        if tally[(w, False)]:
            print("   accepted %3d rejected %3d  %s" % (tally[(w, False)], tally[(w, True)] + broken[w], ".".join(map(str, w))))
    return out


core.validate = validate
sys.argv = ["check.py", sys.argv[1]]
exec(open(VERIF + "/check.py").read())
