"""Building dinero, running TLC, judging recorded runs."""
import concurrent.futures as cf
import datetime
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DINERO_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
OUT = os.path.join(VERIF, "out")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla"
JARS = "%s/tla2tools.jar:%s/CommunityModules-deps.jar" % (TLA, TLA)
WORKERS = 8


class ToolError(Exception):
    pass


def sh(cmd, timeout=900, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          timeout=timeout, text=True, errors="replace", **kw)


def build():
    """Build the binary from /repo's working tree; returns its path."""
    target = os.path.join(BUILD, "target")
    os.makedirs(target, exist_ok=True)
    # cargo trusts time stamps; the digest of the sources decides what is stale
    stamp = os.path.join(BUILD, "sources.sha")
    digest = sh("cd %s && find Cargo.toml Cargo.lock src build.rs -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum | sha256sum" % REPO).stdout.strip()
    binary = os.path.join(target, "debug", "dinero")
    if os.path.exists(stamp) and os.path.exists(binary) and open(stamp).read() == digest:
        return binary
    env = dict(os.environ)
    r = sh(". /opt/vp/env.sh >/dev/null 2>&1; export CARGO_TARGET_DIR=%s CARGO_INCREMENTAL=0 RUSTFLAGS=-Cdebuginfo=0; "
           "cargo clean --offline -p dinero-rs --manifest-path %s/Cargo.toml >/dev/null 2>&1; "
           "cargo build --offline --manifest-path %s/Cargo.toml --bin dinero" % (target, REPO, REPO),
           env=env, executable="/bin/bash", cwd=BUILD)
    if r.returncode != 0 or not os.path.exists(binary):
        raise ToolError("build failed:\n" + r.stdout[-3000:])
    with open(stamp, "w") as f:
        f.write(digest)
    return binary


def classes():
    """Compile the Java overrides of the specification."""
    out = os.path.join(BUILD, "cls")
    for name in ("Rat", "Text"):
        src = os.path.join(SPEC, "java", name + ".java")
        cls = os.path.join(out, name + ".class")
        if not os.path.exists(cls) or os.path.getmtime(cls) < os.path.getmtime(src):
            os.makedirs(out, exist_ok=True)
            r = sh(["javac", "-encoding", "UTF-8", "-cp", JARS, "-d", out, src])
            if r.returncode:
                raise ToolError("javac: " + r.stdout)
    return out


def tlc(module, cfg=None, env=None, timeout=800, workers=WORKERS, extra=(), heap="6g"):
    """Run TLC; returns (output, states, distinct)."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=BUILD)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8",
           "-cp", classes() + ":" + JARS, "tlc2.TLC", "-metadir", meta, "-config", (cfg or module) + ".cfg",
           "-workers", str(workers), "-noGenerateSpecTE"] + list(extra) + [module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout.decode("utf-8", "replace")
    m = re.findall(r"(\d+) states generated.*?(\d+) distinct states found", out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return r.returncode, out, gen, dist


def says(out):
    """The JSON records printed by the specification."""
    res = []
    for line in out.split("\n"):
        m = re.match(r'^"@@(.*)"$', line.strip())
        if m:
            res.append(json.loads(json.loads('"' + m.group(1) + '"')))
    return res


def observe_all(binary, cases):
    from . import observe
    scratch = tempfile.mkdtemp(prefix="obs-", dir=BUILD)
    try:
        with cf.ThreadPoolExecutor(WORKERS) as ex:
            return list(ex.map(lambda c: observe.observe(binary, c, scratch), cases))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def judge(cases, invariants=True, timeout=800):
    """Validate observed cases with TLC.  Returns (bad records, stats)."""
    from .journal import strip
    t = datetime.datetime.utcnow().date()
    doc = {"today": [t.year, t.month, t.day],
           "cases": [{"id": c["id"], "in": strip(c["in"]), "runs": [strip(r) for r in c["runs"]]} for c in cases]}
    fd, path = tempfile.mkstemp(prefix="cases-", suffix=".json", dir=BUILD)
    with os.fdopen(fd, "w", encoding="utf-8") as f:
        json.dump(doc, f, ensure_ascii=False)
    try:
        code, out, gen, dist = tlc("Trace", env={"CASES": path}, timeout=timeout)
    finally:
        if not os.environ.get("KEEP"):
            os.unlink(path)
    recs = says(out)
    done = [r for r in recs if "done" in r]
    bad = [r for r in recs if "bad" in r]
    inv = re.findall(r"Invariant (\w+) is violated", out)
    m = re.search(r"Finished computing initial states: (\d+)", out)
    want = int(m.group(1)) if m else -1
    if "Model checking completed. No error has been found" not in out and not inv:
        raise ToolError("TLC failed on recorded runs:\n" + tail(out))
    if inv:
        raise ToolError("specification invariant %s fails on a recorded journal:\n%s" % (inv, tail(out)))
    if len(done) != want or {r["done"] for r in done} != {c["id"] for c in cases}:
        raise ToolError("only %d of %d cases were consumed\n%s" % (len(done), want, tail(out)))
    stats = {"states": dist, "transitions": gen, "traces": sum(len(c["runs"]) for c in cases),
             "accepted": sum(1 for r in done if r["pc"] == "ready"),
             "rejected": sum(1 for r in done if r["pc"] == "rejected"),
             "opaque": sum(1 for r in done if r["pc"] == "opaque"),
             "why": sorted({r["why"] for r in done if r["why"]})}
    return bad, stats


def tail(out, n=60):
    lines = [l for l in out.split("\n") if not l.startswith('"@@') and "linting" not in l.lower()]
    return "\n".join(lines[-n:])
