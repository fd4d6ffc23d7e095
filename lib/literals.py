"""Literals: compiling and evaluating bvh! literals, and relating them to loading their text."""
import fcntl
import json
import os
import re
import shutil
import subprocess

import core
from core import BUILD, VERIF, ToolError, WORKERS

CARGO = """[package]
name = "bvh-literals"
version = "0.1.0"
edition = "%s"

[workspace]

[dependencies]
bvh_anim = { path = "/repo" }
serde_json = "1"
bstr = "0.2"

[profile.dev]
opt-level = 1
debug = 0
incremental = false
overflow-checks = true
debug-assertions = true

[profile.dev.package.serde_json]
opt-level = 2
"""
# The literals are values of functions, so that one which does not compile or panics concerns nobody else.
MAIN = """use bvh_anim::{Bvh};
#[allow(dead_code)]
#[path = "%s"]
mod project;
#[path = "%s"]
mod lits;
fn main() {
    use std::io::Write;
    let mut out = std::fs::File::create(std::env::args().nth(1).unwrap()).unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    for (id, text, f) in lits::ALL.iter() {
        let f: &fn() -> Bvh = f;
        let mut r = match std::panic::catch_unwind(|| f()) {
            Err(_) => serde_json::json!({"panic": true}),
            Ok(mut b) => {
                let p = std::panic::catch_unwind(|| bvh_anim::from_bytes(text));
                let (eq, ne) = match p { Ok(Ok(ref p)) => (if b == *p { "yes" } else { "no" }, if *p != b { "yes" } else { "no" }), _ => ("", "") };
                serde_json::json!({"snap": project::snap(&mut b), "eq": eq, "ne": ne})
            }
        };
        r["id"] = serde_json::json!(id);
        writeln!(out, "{}", r).unwrap();
    }
}
"""


def rust_tokens(lines, rng):
    """The tokens of a literal, with blanks, line breaks and comments between them."""
    out = []
    style = rng.randrange(4)
    for st in lines:
        toks = [t.decode() for t in st]
        if toks and toks[0] == "Frames:" and rng.random() < 0.2:
            toks[:1] = ["Frames", ":"]
        out.append(" ".join(toks))
        k = rng.random()
        out.append(" " if style == 0 else "\n" if k < 0.8 or style == 1 else " /* { */ " if k < 0.85 else " // } \n" if k < 0.9 else "\n\n\t")
    return "".join(out)


class Literals:
    def __init__(self):
        self.lits = []      # id, rust tokens, text

    def add(self, rust, text):
        self.lits.append((rust, text))

    def run(self, work, edition="2021", groups=WORKERS):
        """One run at a time: they share a crate, so that what cargo keeps of earlier runs does not pile up."""
        os.makedirs(os.path.join(BUILD, "literals"), exist_ok=True)
        with open(os.path.join(BUILD, "literals", "lock"), "w") as lock:
            fcntl.flock(lock, fcntl.LOCK_EX)
            return self._run(work, edition, groups)

    def _run(self, work, edition, groups):
        """Evaluates all; returns a list of {"snap", "eq", "ne"} or {"panic"} or {"nocompile": message}."""
        results = [None] * len(self.lits)
        crate = os.path.join(BUILD, "literals", "crate")
        shutil.rmtree(crate, ignore_errors=True)
        os.makedirs(os.path.join(crate, "src", "bin"), exist_ok=True)
        shutil.copyfile(os.path.join(VERIF, "harness", "Cargo.lock"), os.path.join(crate, "Cargo.lock"))
        with open(os.path.join(crate, "Cargo.toml"), "w") as f:
            f.write(CARGO % edition)
        groups = max(1, min(groups, len(self.lits)))
        alive = list(range(len(self.lits)))
        project = os.path.join(VERIF, "harness", "src", "project.rs")
        env = core.env_cargo()
        env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "literals", "target")
        for attempt in range(8):
            where = {}
            for g in range(groups):
                name = os.path.join(crate, "src", "lits%d.rs" % g)
                lines = ["use bvh_anim::{bvh, Bvh};"]
                ids = alive[g::groups]
                for i in ids:
                    rust, _ = self.lits[i]
                    body = ("fn l%d() -> Bvh {\nbvh! {\n%s\n}\n}" % (i, rust)).split("\n")
                    if i % 7 == 3:
                        body = ("fn l%d() -> Bvh {\n#[allow(unused)] let builder = 1; let offset = 2; let x = { bvh_anim::bvh!(\n%s\n) }; let _ = builder + offset; x\n}" % (i, rust)).split("\n")
                    where["src/lits%d.rs" % g] = where.get("src/lits%d.rs" % g, []) + [(len(lines) + 1, len(lines) + len(body), i)]
                    lines += body
                lines.append("pub const ALL: &[(usize, &[u8], fn() -> Bvh)] = &[")
                lines += ["(%d, &%s, l%d)," % (i, list(self.lits[i][1]), i) for i in ids]
                lines.append("];")
                with open(name, "w") as f:
                    f.write("\n".join(lines) + "\n")
                with open(os.path.join(crate, "src", "bin", "g%d.rs" % g), "w") as f:
                    f.write(MAIN % (project, name))
            core.fresh(crate, env["CARGO_TARGET_DIR"])
            p = subprocess.run(["cargo", "build", "--offline", "--quiet", "--keep-going"], cwd=crate, env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=800)
            if p.returncode == 0:
                break
            # the literals which the compiler complains about
            bad = {}
            for block in re.split(r"\n(?=error)", p.stdout):
                for m in re.finditer(r"(src/lits\d+\.rs):(\d+):\d+", block):
                    for a, b, i in where[m.group(1)]:
                        if a <= int(m.group(2)) <= b:
                            bad.setdefault(i, block[:600])
            if not bad:
                raise ToolError("the literals do not build:\n" + p.stdout[-4000:])
            for i, msg in bad.items():
                results[i] = {"nocompile": msg}
            alive = [i for i in alive if i not in bad]
            if not alive:
                return results
        else:
            raise ToolError("the literals do not build")
        for g in range(groups):
            out = os.path.join(work, "lit_out%d" % g)
            if os.path.exists(out):
                os.unlink(out)
            try:
                subprocess.run([os.path.join(BUILD, "literals", "target", "debug", "g%d" % g), out], timeout=120, stdin=subprocess.DEVNULL,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            except subprocess.TimeoutExpired:
                pass
            for line in open(out) if os.path.exists(out) else ():
                try:
                    r = json.loads(line)
                except ValueError:
                    continue
                results[r["id"]] = r
        for i in alive:
            if results[i] is None:
                # not reached because something before it ended the process
                results[i] = {"panic": True}
        return results
