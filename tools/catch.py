"""Run checks against planted bugs: python3-vt tools/catch.py [--all] [id ...]

Applies each seeded/<id>/patch.diff to /repo, runs the check of its property (with --all every
check), undoes the patch, and prints what was caught.
"""
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    everything = "--all" in sys.argv
    names = args or sorted(os.listdir(VERIF + "/seeded"))
    props = [c["property"] for c in json.load(open(VERIF + "/MANIFEST.json"))["checks"]]
    missed = []
    for name in names:
        folder = "%s/seeded/%s" % (VERIF, name)
        meta = json.load(open(folder + "/meta.json"))
        subprocess.run(["git", "-C", REPO, "apply", folder + "/patch.diff"], check=True)
        try:
            results = []
            for prop in (props if everything else [meta["property"]]):
                t = time.time()
                p = subprocess.run(["python3-vt", VERIF + "/check.py", prop],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                out = p.stdout.decode(errors="replace")
                hit = p.returncode == 1 and "VIOLATION property=%s " % prop in out
                results.append("%s:%s(%ds)" % (prop, "caught" if hit else "rc%d" % p.returncode,
                                               time.time() - t))
                if prop == meta["property"] and not hit:
                    missed.append(name)
                    print(out[-800:])
        finally:
            subprocess.run(["git", "-C", REPO, "checkout", "-q", "--", "."], check=True)
        print(name, " ".join(results), flush=True)
    print("missed:", missed)
    return 1 if missed else 0


if __name__ == "__main__":
    sys.exit(main())
