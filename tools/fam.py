"""Development aid: replay every behaviour of a property's model.  usage: fam.py ID... (env DEEP)"""
import os
import random
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import checks, core, families
checks.build_dir()
b = core.build()
for pid in sys.argv[1:]:
    ms, em = families.explore(pid, bool(os.environ.get("DEEP")))
    cases = [families.case_of(pid, e, random.Random(1)) for e in em]
    for i, c in enumerate(cases):
        c["id"] = i
    n = 0
    for a in range(0, len(cases), 700):
        got, bad, st = checks.judged(b, cases[a:a + 700])
        n += len(bad)
        for x in bad[:int(os.environ.get("SHOW", "2"))]:
            c = [c for c in got if c["id"] == x["bad"]][0]
            r = c["runs"][x["run"] - 1]
            print("-----", x, " ".join(r["_argv"]))
            for f, txt in c["_written"][0].items():
                print("==", f)
                print(txt[:800])
            print(">>", r["rc"])
            print(r["_out"][:600])
    print(pid, len(cases), "cases", n, "bad", ms)
