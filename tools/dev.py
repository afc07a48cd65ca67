"""Development aid: run one property's generator and show disagreements.
usage: dev.py ID [N [SEED]]"""
import os
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, gens
from vlib.base import G

pid, n, seed = sys.argv[1], int((sys.argv + ["40"])[2] if len(sys.argv) > 2 else 40), int(sys.argv[3]) if len(sys.argv) > 3 else 1
show = int(os.environ.get("SHOW", "2"))
os.makedirs(core.BUILD, exist_ok=True)
b = os.environ.get("BIN") or core.build()
t = time.time()
from vlib import mixed
cases = list(mixed.mixed(pid, G("m%s:%d" % (pid, seed)), n) if os.environ.get("MIXED") else gens.GENS[pid](G("%s:%d" % (pid, seed)), n))
for i, c in enumerate(cases):
    c["id"] = i
cases = core.observe_all(b, cases)
t2 = time.time()
bad, st = core.judge(cases)
print(pid, "cases", len(cases), "observe %.1f judge %.1f" % (t2 - t, time.time() - t2), "bad", len(bad), st)
for x in bad[:show]:
    c = cases[x["bad"]]
    r = c["runs"][x["run"] - 1]
    print("-----", x, " ".join(r["_argv"]))
    for f, txt in c["_written"][r["_lay"]].items():
        print("==", f)
        print(txt[:1500])
    print(">>", r["rc"])
    print(r["_out"][:1200])
    if os.environ.get("ROWS"):
        print(r["rows"])
