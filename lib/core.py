"""Building the adapter, running it, running TLC, reporting."""
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
WORKERS = min(8, os.cpu_count() or 1)
HANG_S = 30


class ToolError(Exception):
    pass


class Violation(Exception):
    """Raised where the code under test cannot even be built for the adapter."""


def env_cargo():
    e = dict(os.environ)
    e.update(
        HOME="/root", CARGO_HOME="/root/.cargo", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
        CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never",
        RUSTFLAGS="-A warnings",
    )
    e.pop("RUSTC_WRAPPER", None)
    return e


def fresh(crate, target):
    """Forget what was built from other contents of /repo, whatever the times of its files are."""
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
        for f in sorted(files):
            path = os.path.join(root, f)
            if os.path.isfile(path):
                h.update(path.encode() + b"\0" + open(path, "rb").read() + b"\0")
    stamp = os.path.join(target, "built-from")
    if os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return
    if os.path.isdir(target):
        p = subprocess.run(["cargo", "clean", "--offline", "--quiet", "-p", "bvh_anim", "--target-dir", target], cwd=crate, env=env_cargo(),
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
        if p.returncode != 0:
            shutil.rmtree(target)
    os.makedirs(target, exist_ok=True)
    with open(stamp, "w") as f:
        f.write(h.hexdigest())


def build():
    """Build the adapter against /repo's working tree."""
    crate = os.path.join(BUILD, "adapter")
    os.makedirs(crate, exist_ok=True)
    # cargo may touch Cargo.lock: build a copy, so that committed files stay as they are
    src = os.path.join(VERIF, "harness")
    for f in ("Cargo.toml", "Cargo.lock"):
        shutil.copyfile(os.path.join(src, f), os.path.join(crate, f))
    os.makedirs(os.path.join(crate, "src"), exist_ok=True)
    for f in os.listdir(os.path.join(src, "src")):
        a, b = os.path.join(src, "src", f), os.path.join(crate, "src", f)
        if not os.path.exists(b) or open(a).read() != open(b).read():
            shutil.copyfile(a, b)
    fresh(crate, os.path.join(crate, "target"))
    p = subprocess.run(
        ["cargo", "build", "--offline", "--quiet"], cwd=crate, env=env_cargo(),
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if p.returncode != 0:
        raise ToolError("the adapter does not build:\n" + p.stdout[-4000:])
    return os.path.join(crate, "target", "debug", "bvh-adapter")


class Adapter:
    """Runs scripts in worker processes.  A worker that dies or gets stuck is an observation of the
    script it was executing."""

    def __init__(self, work):
        self.exe = build()
        self.work = work
        self.runs = 0
        self.executed = 0

    def run(self, cases, workers=WORKERS, hang_s=HANG_S):
        """cases: list of lists of operations.  Returns the list of lists of results."""
        self.runs += 1
        self.executed += len(cases)
        workers = max(1, min(workers, len(cases)))
        shards = []
        for w in range(workers):
            idx = list(range(w, len(cases), workers))
            inp = os.path.join(self.work, "in%d_%d" % (self.runs, w))
            with open(inp, "w") as f:
                for i in idx:
                    f.write(json.dumps({"id": i, "ops": cases[i]}) + "\n")
            shards.append({"idx": idx, "in": inp, "out": inp + ".out", "done": 0, "proc": None,
                           "results": {}, "size": 0, "t": time.time(), "read": 0})
        results = [None] * len(cases)

        def start(sh):
            sh["proc"] = subprocess.Popen(
                [self.exe, sh["in"], sh["out"], str(sh["done"])], stdin=subprocess.DEVNULL,
                stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            sh["t"] = time.time()

        def collect(sh):
            if not os.path.exists(sh["out"]):
                return
            with open(sh["out"], "rb") as f:
                f.seek(sh["read"])
                buf = f.read()
            end = buf.rfind(b"\n") + 1
            for line in buf[:end].splitlines():
                r = json.loads(line)
                results[r["id"]] = r["out"]
                sh["done"] += 1
            sh["read"] += end

        def gave_up(sh, how):
            # the partial line, if any, is dropped
            collect(sh)
            results[sh["idx"][sh["done"]]] = [{how: True}]
            sh["done"] += 1
            if os.path.exists(sh["out"]):
                os.truncate(sh["out"], sh["read"])

        for sh in shards:
            start(sh)
        live = list(shards)
        deaths = 0
        while live:
            time.sleep(0.02)
            for sh in list(live):
                rc = sh["proc"].poll()
                if rc is not None:
                    collect(sh)
                    if sh["done"] >= len(sh["idx"]):
                        live.remove(sh)
                        continue
                    deaths += 1
                    gave_up(sh, "crash")
                    if deaths > 200:
                        for k in range(sh["done"], len(sh["idx"])):
                            results[sh["idx"][k]] = [{"skipped": True}]
                        live.remove(sh)
                    elif sh["done"] < len(sh["idx"]):
                        start(sh)
                    else:
                        live.remove(sh)
                else:
                    size = os.path.getsize(sh["out"]) if os.path.exists(sh["out"]) else 0
                    if size != sh["size"]:
                        sh["size"], sh["t"] = size, time.time()
                    elif time.time() - sh["t"] > hang_s:
                        sh["proc"].kill()
                        sh["proc"].wait()
                        collect(sh)
                        if sh["done"] >= len(sh["idx"]):
                            live.remove(sh)
                            continue
                        deaths += 100
                        gave_up(sh, "hang")
                        if deaths > 200 or sh["done"] >= len(sh["idx"]):
                            for k in range(sh["done"], len(sh["idx"])):
                                results[sh["idx"][k]] = [{"skipped": True}]
                            live.remove(sh)
                        else:
                            start(sh)
        for sh in shards:
            os.unlink(sh["in"])
            if os.path.exists(sh["out"]):
                os.unlink(sh["out"])
        return results


# --- TLC -----------------------------------------------------------------------------------------

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PRINTED = re.compile(r'^"((?:[A-Z]+) .*)"$')


class TlcResult:
    def __init__(self):
        self.states = self.distinct = 0
        self.depth = 0
        self.printed = []
        self.actions = {}
        self.violated = None
        self.out = ""


def tla(v):
    """A Python value as a TLA+ expression."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        for a, b in (("\\", "\\\\"), ('"', '\\"'), ("\n", "\\n"), ("\t", "\\t"), ("\r", "\\r"), ("\f", "\\f")):
            v = v.replace(a, b)
        return '"' + v + '"'
    if isinstance(v, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) + "]"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    raise TypeError(v)


def tlc(work, module, constants=None, invariants=(), properties=(), spec="Spec", view=None,
        constraint=None, env=None, timeout=800, workers=WORKERS, coverage=False, simulate=None,
        heap="6g", serial=False, deadlock=False, postcondition=None, seed=None, depth=None, extra_cfg=""):
    """Run TLC on spec/<module>.tla with a configuration made here."""
    d = tempfile.mkdtemp(prefix="tlc_" + module + "_", dir=work)
    cfg = ["SPECIFICATION " + spec]
    consts = dict(constants or {})
    mc = os.path.join(d, "Run.tla")
    lines = []
    for k, v in consts.items():
        if isinstance(v, str) and v.startswith("="):  # a TLA+ expression
            lines.append("c_%s == %s" % (k, v[1:]))
        else:
            lines.append("c_%s == %s" % (k, tla(v)))
        cfg.append("CONSTANT %s <- c_%s" % (k, k))
    with open(mc, "w") as f:
        f.write("---- MODULE Run ----\nEXTENDS %s\n%s\n====\n" % (module, "\n".join(lines)))
    cfg += ["INVARIANT " + i for i in invariants]
    cfg += ["PROPERTY " + p for p in properties]
    if view:
        cfg.append("VIEW " + view)
    if constraint:
        cfg.append("CONSTRAINT " + constraint)
    if postcondition:
        cfg.append("POSTCONDITION " + postcondition)
    if not deadlock:
        cfg.append("CHECK_DEADLOCK FALSE")
    cfg.append(extra_cfg)
    with open(os.path.join(d, "Run.cfg"), "w") as f:
        f.write("\n".join(cfg) + "\n")
    cmd = ["java", "-XX:+UseSerialGC" if serial else "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=%d" % (1 if serial else 4), "-Xmx" + heap, "-Xss64m", "-DTLA-Library=" + SPEC,
           "-Djava.io.tmpdir=" + d, "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-cp", JAR, "tlc2.TLC", "-workers", str(workers),
           "-metadir", os.path.join(d, "meta"), "-config", os.path.join(d, "Run.cfg"), "-noGenerateSpecTE"]
    if coverage:
        cmd += ["-coverage", "1"]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate]
    if depth:
        cmd += ["-depth", str(depth)]
    if seed is not None:
        cmd += ["-seed", str(seed)]
    cmd += [mc]
    e = dict(os.environ)
    e.update(env or {})
    out_path = os.path.join(d, "out")
    with open(out_path, "w") as out:
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=out,
                               stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC did not finish %s within %d s" % (module, timeout))
    r = TlcResult()
    rest = []
    with open(out_path, encoding="utf-8", errors="replace", newline="\n") as f:
        for line in f:
            m = PRINTED.match(line.rstrip("\n"))
            if m:
                r.printed.append(json.loads('"' + m.group(1) + '"'))
            else:
                rest.append(line)
    text = "".join(rest)
    r.out = text
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", text)
    if m:
        r.states, r.distinct = (int(x.replace(",", "")) for x in m[-1])
    m = re.search(r"depth of the complete state graph search is (\d+)", text)
    if m:
        r.depth = int(m.group(1))
    # the last report is complete
    for m in re.finditer(r"^<(\w+) line \d+, col \d+ to line \d+, col \d+ of module (\w+)[^>]*>: (\d+):(\d+)",
                         text[text.rfind("The coverage statistics at"):] if coverage else "", re.M):
        r.actions[m.group(1)] = r.actions.get(m.group(1), 0) + int(m.group(4))
    m = re.search(r"Invariant (\w+) is violated|(Temporal properties were violated)|"
                  r"Action property (\w+)|Assumption .* is false|Postcondition (\w+)", text)
    if m:
        r.violated = m.group(0)
    elif p.returncode != 0:
        raise ToolError("TLC failed on %s (exit %d):\n%s" % (module, p.returncode, text[-6000:]))
    shutil.rmtree(d, ignore_errors=True)
    return r


def validate(work, module, traces, focus=None, timeout=800, constants=None,
             invariants=("Verdict",), view="View", key="id", shards=WORKERS):
    """Trace validation: TLC processes take the traces through the specification, each process a share
    of them; every trace must get a verdict.  Returns (verdicts by id, totals)."""
    total = TlcResult()
    verdicts = {}
    if not traces:
        return verdicts, total
    consts = dict(constants or {})
    if focus is not None:
        consts["Focus"] = set(focus)
    # shares of about equal weight
    lines = sorted(((json.dumps(t), i) for i, t in enumerate(traces)), key=lambda x: -len(x[0]))
    shards = max(1, min(shards, (len(traces) + 9) // 10))
    parts = [[0, []] for _ in range(shards)]
    for text, _ in lines:
        p = min(parts, key=lambda p: p[0])
        p[0] += len(text) + 200
        p[1].append(text)

    def one(k):
        part = parts[k]
        fd, path = tempfile.mkstemp(prefix="traces_", suffix=".ndjson", dir=work)
        with os.fdopen(fd, "w") as f:
            f.write("\n".join(part[1]) + "\n")
        r = tlc(work, module, consts, invariants=invariants, view=view, workers=1,
                env={"TRACE": path}, timeout=timeout, heap="3g", serial=True, coverage=k == 0)
        os.unlink(path)
        return r

    with ThreadPoolExecutor(shards) as ex:
        runs = list(ex.map(one, range(shards)))
    for r in runs:
        if r.violated:
            raise ToolError("%s: the specification violates its own invariant: %s\n%s"
                            % (module, r.violated, r.out[-5000:]))
        for line in r.printed:
            if line.startswith("VERDICT "):
                v = json.loads(line[8:])
                verdicts[v[key]] = v
        total.states += r.states
        total.distinct += r.distinct
        for k, n in r.actions.items():
            total.actions[k] = total.actions.get(k, 0) + n
    missing = [t[key] for t in traces if t[key] not in verdicts]
    if missing:
        raise ToolError("%s: no verdict for traces %s" % (module, missing[:5]))
    return verdicts, total


# --- known findings ------------------------------------------------------------------------------

def known_findings(prop):
    """Lines `property=<id> key=<key> <text>` of known-findings.txt (not the fixed ones)."""
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\w+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out
