"""Confirm planted bugs and store them under seeded/<id>/.

    python3-vt tools/plant.py BUGS.py [id ...]

BUGS.py defines BUGS: id -> dict(property, edits=[(file, old, new)], demo=<main.rs>, needs,
breaks).  Each one is applied to a scratch copy of /repo's HEAD, the stable tests and the demo are
run there, and it is stored only if the patch builds, the stable tests pass, and the demo passes
without the patch and fails with it.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME="/root", CARGO_HOME="/root/.cargo",
           RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only",
           CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
           RUSTFLAGS="-A float_literal_f32_fallback")
DEMO = r'''#!/bin/bash
# Builds demo.rs, which lies beside this file, against the crate in the current directory.
# Exits with 0 if the property holds in the case it shows, and nonzero otherwise.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root CARGO_HOME=/root/.cargo CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export RUSTFLAGS="-A warnings"
scratch=$(mktemp -d) || exit 3
trap 'rm -rf "$scratch"' EXIT
mkdir -p "$scratch/src"
cp "$here/demo.rs" "$scratch/src/main.rs" || exit 3
if [ -f "$repo/Cargo.lock" ]; then cp "$repo/Cargo.lock" "$scratch/Cargo.lock"; fi
cat > "$scratch/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[dependencies]
bvh_anim = { path = "$repo" }
DEPS
[workspace]
EOF
cd "$scratch" || exit 3
export CARGO_TARGET_DIR="$scratch/target"
cargo build --offline --quiet || exit 3
timeout 120 "$scratch/target/debug/demo"
'''


def run(cmd, cwd, env=ENV, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")


def stable(log):
    path = log + ".json"
    subprocess.run(["python3", "/opt/vp/results.py", path, "cargo:" + log], check=False,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try:
        return json.load(open(path))
    except (OSError, ValueError):
        return {}


def confirm(ident, bug, copy):
    run(["git", "checkout", "-q", "--", "."], copy)
    for name, old, new in bug["edits"]:
        path = os.path.join(copy, name)
        text = open(path).read()
        if text.count(old) != 1:
            return "edit of %s matches %d times: %r" % (name, text.count(old), old[:80])
        open(path, "w").write(text.replace(old, new))
    _, patch = run(["git", "diff"], copy)
    work = tempfile.mkdtemp(prefix="plant_demo_")
    try:
        open(work + "/demo.rs", "w").write(bug["demo"])
        open(work + "/demo.sh", "w").write(DEMO.replace("DEPS\n", bug.get("deps", "") and bug["deps"] + "\n"))
        rc, out = run(["bash", work + "/demo.sh"], copy)
        if rc in (0, 3):
            return "demo exits %d with the patch\n%s" % (rc, out[-1500:])
        env = dict(ENV, CARGO_TARGET_DIR=copy + "/target")
        rc, out = run(["cargo", "test", "--workspace", "--no-fail-fast", "--offline", "--",
                       "--test-threads", "2"], copy, env)
        log = work + "/log"
        open(log, "w").write(out)
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        got = stable(log)
        passed = set(got.get("passed", []))
        if base - passed:
            return "stable tests fail: %s\n%s" % (sorted(base - passed)[:4], out[-600:])
        run(["git", "checkout", "-q", "--", "."], copy)
        rc, out = run(["bash", work + "/demo.sh"], copy)
        if rc != 0:
            return "demo exits %d without the patch\n%s" % (rc, out[-1500:])
        dest = os.path.join(VERIF, "seeded", ident)
        os.makedirs(dest, exist_ok=True)
        open(dest + "/patch.diff", "w").write(patch)
        shutil.copy(work + "/demo.rs", dest + "/demo.rs")
        shutil.copy(work + "/demo.sh", dest + "/demo.sh")
        json.dump({"property": bug["property"], "needs": bug["needs"],
                   "what_it_breaks": bug["breaks"]}, open(dest + "/meta.json", "w"), indent=1)
        open(dest + "/meta.json", "a").write("\n")
        return None
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    chosen = sys.argv[2:] or [b for b in bugs
                              if not os.path.exists(os.path.join(VERIF, "seeded", b, "patch.diff"))]
    workers = min(4, len(chosen))
    copies = Queue()
    made = []
    for i in range(workers):
        path = "/tmp/plant_copy_%d" % i
        shutil.rmtree(path, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", path], check=True)
        copies.put(path)
        made.append(path)

    def one(ident):
        copy = copies.get()
        try:
            return ident, confirm(ident, bugs[ident], copy)
        except Exception as e:                              # report it and go on with the others
            return ident, "failed: %r" % e
        finally:
            copies.put(copy)

    bad = 0
    with ThreadPoolExecutor(workers) as pool:
        for ident, why in pool.map(one, chosen):
            print(ident, "kept" if why is None else "NOT KEPT: " + why, flush=True)
            bad += why is not None
    for path in made:
        shutil.rmtree(path, ignore_errors=True)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
