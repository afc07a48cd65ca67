"""One check: explore the model, replay its behaviours and random journals on
the real program, validate every recorded run against the specification."""
import concurrent.futures as cf
import datetime
import json
import os
import random
import shutil
import sys
import time

from . import core, families, gens, mixed, observe
from .base import G
from .journal import strip

# random journals: quick, thorough
SIZES = {"C18": (80, 600), "C21": (45, 300), "C27": (60, 400), "C24": (70, 500), "C22": (60, 500)}
DEFAULT = (200, 1000)
# journals with a bit of everything: quick, thorough
MIXED = {"C18": (150, 400), "C25": (0, 0), "C21": (120, 500)}
ALL = (300, 1500)
# behaviours of the model replayed: quick, thorough
REPLAYS = (400, 4000)
CHUNK = 400


def known():
    """Recorded findings: lines 'finding: property=<id> case=<key> ...'."""
    out = {}
    path = os.path.join(core.VERIF, "known_findings.txt")
    for line in open(path, encoding="utf-8"):
        w = line.split()
        if w and w[0] == "finding:":
            d = dict(x.split("=", 1) for x in w[1:3])
            out.setdefault(d["property"], []).append((d["case"], line.strip()))
    return out


def build_dir():
    os.makedirs(core.BUILD, exist_ok=True)
    os.makedirs(core.OUT, exist_ok=True)


def judged(binary, cases):
    """Observe and judge; redo if the day changed in between."""
    import copy
    for _ in range(3):
        t0 = datetime.datetime.utcnow().date()
        got = core.observe_all(binary, copy.deepcopy(cases))
        bad, st = core.judge(got)
        if datetime.datetime.utcnow().date() == t0:
            break
    return got, bad, st


def check(pid, tier, seed):
    t0 = time.time()
    deep = tier == "thorough"
    build_dir()
    core.classes()
    with cf.ThreadPoolExecutor(2) as ex:
        fb = ex.submit(core.build)
        fm = ex.submit(families.explore, pid, deep)
        binary = fb.result()
        models, emitted = fm.result()
    rng = random.Random("%s:%d" % (pid, seed))
    k = REPLAYS[deep]
    total = len(emitted)
    if len(emitted) > k:
        emitted = rng.sample(emitted, k)
    cases = [families.case_of(pid, e, rng) for e in emitted]
    n = SIZES.get(pid, DEFAULT)[deep]
    for j in range(1 if not deep else 3):
        cases += list(gens.GENS[pid](G("%s:%d" % (pid, seed + 1000 * j)), n))
        cases += list(mixed.mixed(pid, G("m%s:%d" % (pid, seed + 1000 * j)), MIXED.get(pid, ALL)[deep]))
    for i, c in enumerate(cases):
        c["id"] = i
    bads, stats, samples = [], [], []
    for a in range(0, len(cases), CHUNK):
        part, bad, st = judged(binary, cases[a:a + CHUNK])
        stats.append(st)
        byid = {c["id"]: c for c in part}
        bads += [(byid[b["bad"]], b) for b in bad]
        if not samples:
            samples = [sample(c) for c in rng.sample(part, min(2, len(part)))]
            samples += [sample(c) for c in part[-1:]]
        if len(bads) > 50:
            break
    news, olds = [], []
    finds = known().get(pid, [])
    for c, b in bads:
        hit = [f for f in finds if f[0] == signature(c, b)]
        (olds if hit else news).append((c, b, hit))
    for line in sorted({h[0][1] for _, _, h in olds}):
        print("KNOWN-FINDING: property=%s %s" % (pid, line.split(None, 3)[3]))
    evidence(pid, tier, seed, models, total, stats, samples, len(news), t0)
    if news:
        for i, (c, b, _) in enumerate(news[:5]):
            path = save(pid, i, c, b)
            if i == 0:
                print("VIOLATION property=%s replay=%s" % (pid, path))
            r = c["runs"][b["run"] - 1]
            print("  %s: dinero %s: %s (specification: %s %s)" % (path, " ".join(r["_argv"]), b["what"], b["pc"], b["why"]))
        print("%d disagreements in %d journals" % (len(news), len({c["id"] for c, _, _ in news})))
        return 1
    print("%s %s: held. model %d states; %d recorded runs validated (%d journals: %d accepted, %d rejected, %d opaque); %.0f s" % (
        pid, tier, sum(m["states"] for m in models), sum(s["traces"] for s in stats), len(cases),
        sum(s["accepted"] for s in stats), sum(s["rejected"] for s in stats), sum(s["opaque"] for s in stats), time.time() - t0))
    return 0


def signature(c, b):
    import hashlib
    r = c["runs"][b["run"] - 1]
    return hashlib.sha256(json.dumps([c["_written"][r["_lay"]], r["_argv"]], sort_keys=True).encode()).hexdigest()[:12]


def sample(c):
    r = c["runs"][0] if c["runs"] else None
    return {"files": {f: t[:1500] for f, t in list(c["_written"][0].items())[:4]},
            "runs": [{"argv": x["_argv"], "verdict": x["rc"], "rows": len(x["rows"])} for x in c["runs"][:6]]}


def evidence(pid, tier, seed, models, total, stats, samples, nviol, t0):
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    add = lambda k: sum(s[k] for s in stats)
    doc = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(m["states"] for m in models) + add("states"),
            "transitions": sum(m["transitions"] for m in models) + add("transitions"),
            "traces_validated_against_impl": add("traces"),
            "samples": samples,
            "models": models,
            "model_journals": total,
            "journals_accepted_by_specification": add("accepted"),
            "journals_rejected_by_specification": add("rejected"),
            "journals_judged_by_agreement_only": add("opaque"),
            "reasons_for_rejection": sorted({w for s in stats for w in s["why"]}),
            "exhaustive": False,
        },
        "assumptions": ["small constants in the exhaustive models; random journals beyond them (seeded)",
                        "the driver renders journals and parses reports faithfully"],
        "wall_s": round(time.time() - t0, 1), "violations": nviol,
    }
    with open(os.path.join(core.VERIF, "evidence", pid + ".json"), "w", encoding="utf-8") as f:
        json.dump(doc, f, indent=1, ensure_ascii=False)


def save(pid, i, c, b):
    """Keep a disagreement for replay."""
    d = os.path.join(core.OUT, "replay", "%s-%d" % (pid, i))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    r = c["runs"][b["run"] - 1]
    observe.write_files(c["_written"][r["_lay"]], os.path.join(d, "files"))
    keep = {k: v for k, v in c.items() if k in ("id", "in", "_extra", "_home", "_links", "_opaque", "_main", "_timeout")}
    keep["_texts"] = [c["_written"][r["_lay"]]]
    keep["_names"] = [sorted(x) for x in (c.get("_names") or observe.spellings(c["in"]))]
    if c.get("_opaque") or r.get("_across"):
        runs = [x for x in c["runs"] if x["_lay"] == r["_lay"]]
        if r.get("_across"):
            keep["_texts"] = c["_written"]
    else:
        runs = [r]
    keep["runs"] = [{k: v for k, v in x.items() if k not in ("rc", "rows", "tot", "hs", "_argv", "_out", "_lay", "_second")} for x in runs]
    with open(os.path.join(d, "case.json"), "w", encoding="utf-8") as f:
        json.dump(keep, f, indent=1, ensure_ascii=False)
    with open(os.path.join(d, "what.txt"), "w", encoding="utf-8") as f:
        f.write("property %s: %s\n(specification: %s %s, row %s)\ncommand: dinero %s\nexit: %s\n--- output\n%s\n" % (
            pid, b["what"], b["pc"], b["why"], b["row"], " ".join(r["_argv"]), r["rc"], r["_out"][:20000]))
        if "_second" in r:
            f.write("--- output of another run (%s)\n%s\n" % (r["_second"][0], r["_second"][1][:20000]))
    return d


def replay(d):
    build_dir()
    binary = core.build()
    c = json.load(open(os.path.join(d, "case.json"), encoding="utf-8"))
    if "_names" in c:
        c["_names"] = [set(x) for x in c["_names"]]
    _, bad, _ = judged(binary, [c])
    for b in bad:
        print(b)
    print("disagreement" if bad else "agrees")
    return 1 if bad else 0
