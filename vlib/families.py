"""Exhaustive models, and the behaviours they emit for replay."""
import os
import re
import tempfile
import time

from . import core
from .journal import query_args
from .observe import run, opts

# models of parts, checked along with the journals of a property
PARTS = {"C19": ["MC_Rat"], "C20": ["MC_Rat"], "C11": ["MC_Text"], "C13": ["MC_Text"]}
# which commands to replay a model journal with
CMDS = {"C17": ["prices", "bal"], "C26": ["accounts", "commodities", "payees"], "C24": ["check", "bal", "reg", "accounts", "prices"],
        "C13": ["bal", "reg", "accounts", "commodities"], "C14": ["reg", "payees", "accounts"], "C18": ["bal", "tree"],
        "C27": ["check", "reg"], "C15": ["check", "reg"], "C11": ["reg", "bal"], "C12": ["reg"], "C23": ["reg", "bal"], "C20": ["reg", "bal"],
        "C08": ["tree"], "C07": ["bal", "tree"], "C21": ["reg", "bal"], "C28": ["reg", "check"]}


def explore(pid, deep):
    """-> [model descriptions], [emitted cases]"""
    models, emitted = [], []
    if pid == "C25":
        m, out = templated("MC_Config", pid, "start-up with init files", deep)
        emitted = core.says(out)
        m["runs"] = len(emitted)
        models.append(m)
    elif pid == "C22":
        m, out = templated("Lines", pid, "lines and entries", deep)
        emitted = core.says(out)
        m["files"] = len(emitted)
        models.append(m)
    else:
        m, out = templated("MC", pid, "journals of family " + pid, deep)
        emitted = core.says(out)
        m["journals"] = len(emitted)
        m["accepted"] = sum(1 for e in emitted if e["pc"] == "ready")
        if not emitted or (m["accepted"] == 0):
            raise core.ToolError("the model of %s is vacuous" % pid)
        models.append(m)
    for part in PARTS.get(pid, []):
        models.append(model(part, part, part, deep)[0])
    emitted.sort(key=repr)
    return models, emitted


def templated(module, pid, what, deep):
    text = open(os.path.join(core.SPEC, module + ".cfg")).read().replace("@PROP@", pid).replace("@DEEP@", "TRUE" if deep else "FALSE")
    fd, path = tempfile.mkstemp(prefix=module + "-", suffix=".cfg", dir=core.BUILD)
    with os.fdopen(fd, "w") as f:
        f.write(text)
    try:
        return model(module, path[:-4], what, deep)
    finally:
        os.unlink(path)


def model(module, cfg, what, deep):
    t = time.time()
    code, out, gen, dist = core.tlc(module, cfg, timeout=7200 if deep else 600, heap="12g" if deep else "5g")
    if code != 0 or "No error has been found" not in out:
        raise core.ToolError("model %s of the specification fails:\n%s" % (what, core.tail(out)))
    return {"model": what, "states": dist, "transitions": gen, "seconds": round(time.time() - t, 1)}, out


def case_of(pid, e, rng):
    """A behaviour of the model as a case for the real program."""
    if pid == "C25":
        from . import gens
        from .base import G
        return gens.cfg_case_of(e, G(rng.random()))
    j = e["in"]
    if pid == "C22":
        return lines_case(e, rng)
    for items in j["files"].values():
        for it in items:
            if it["k"] == "inc":
                it["_pat"] = it["fs"][0] if len(it["fs"]) == 1 else "[" + "".join(it["fs"]) + "]"
            elif it["k"] == "bad":
                it["_text"] = "This is not an entry"
    o = e["o"]
    runs = []
    for c in CMDS.get(pid, ["check", "bal", "reg"]):
        kw = {k: o[k] for k in ("b", "e", "real", "q")}
        if c in ("bal", "tree"):
            kw.update(depth=o["depth"], x=o["x"], total=o["total"], flat=c == "bal")
            c = "bal"
        runs.append(run(c, nc=e["nc"], **kw))
    return {"in": j, "runs": runs}


def lines_case(e, rng):
    """A file given by the kinds of its lines, in some layout."""
    ind = rng.choice(["  ", "    ", "\t", " ", "\t  "])
    sep = rng.choice(["  ", "\t", "      "])
    end = lambda: rng.choice(["", "", "", " ", "  ", "\t"])
    out = []
    for l in e["lines"]:
        k, n = l["k"], l["n"]
        out.append({
            "b": "", "w": rng.choice(["  ", "\t", " \t "]), "c": rng.choice(";#*%!") + rng.choice([" c", "", " 2020/01/01 no", " x  1 A", ":t:"]),
            "h": rng.choice(["2020-01-%02d d", "2020/01/%02d  d", "2020.1.%d d"]) % n, "d": "P 2020-01-%02d A 2 B" % n,
            "a": "account Ac%d" % n + end(), "g": rng.choice(["x  1 A", "alias q", "Zed", "@x", "~"]),
            "p": ind + "(v)" + sep + "1 A" + end(), "r": ind + "x" + sep + "2 A" + end(), "e": ind + "z" + end(),
            "i": ind + rng.choice([";", "; ", ";  "]) + ":t:", "s": ind + "alias Al%d" % n + end(), "n": ind + "12 A"}[k])
    nl = rng.choice(["\n", "\n", "\r\n"])
    text = nl.join(out) + rng.choice([nl, nl, ""])
    q = [{"k": "tag", "s": "t"}]
    j = e["in"]
    for it in j["files"]["main"]:
        if it["k"] == "bad":
            it["_text"] = ""
    return {"in": j, "_texts": [{"main": text}], "runs": [run("check"), run("reg"), run("reg", q=q), run("accounts"), run("prices")]}
