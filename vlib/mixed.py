"""Journals that mix every feature, for the commands of any property."""
import os

from .base import *
from . import gens
from .gens import FLAT, TREE, REG, CHECK, TREEPOOLS, decls, term, query, bool_expr, variant, shift, arg_date, today_shift, mon_expr

EXPRS = ("C12", "C16")


def header(g, t):
    """Parts of a header that say nothing about amounts."""
    if g.p(0.15):
        t["_status"] = g.pick("*!")
    if t["desc"] and g.p(0.08):
        t["_code"] = g.pick(['"12"', '"a b"', "'x'"])
    if g.p(0.08):
        t["_time"] = g.pick(["00:00:00", "12:30:59", "23:59:59"])
    if g.p(0.3):
        d = g.pick([g.date(), shift(t["date"], g.pick([1, -1, 40, -400]))])
        t["_eff"] = "%d/%02d/%02d" % tuple(d) + (" 10:00:00" if g.p(0.1) else "")


def costs(g, items):
    """Costs where the other generators do not put them."""
    for t in items:
        if t["k"] != "txn":
            continue
        for p in t["ps"]:
            if p["k"] == "V" and p["amt"] and not p["cost"] and p["amt"][0]["q"].strip("-0.") and g.p(0.2):
                c = g.pick(["EUR", "GBP", "USD"])
                p["cost"] = [{"t": g.pick("UT"), "q": dec(abs(g.amount("two"))), "c": c}]
        if g.p(0.06):
            q, m = g.amount("two"), abs(g.amount("two"))
            w = -m if q < 0 else m
            c = g.pick(["ACME", "EUR"])
            d = g.pick(["EUR", "USD", c])
            tt = g.pick("UT")
            if tt == "U":
                w = q * m
            w += g.pick([F(0)] * 6 + [F(1, 100)])
            t["ps"] += [post("V:cost", dec(q), c, k="B", cost=(tt, dec(m), d)), post("V:paid", dec(-w), d, k="B")]
        if g.p(0.04):       # a cost in its own commodity
            q, m = g.amount("int"), abs(g.amount("two"))
            c = g.pick(["EUR", "ACME"])
            tt = g.pick("UT")
            w = q * m if tt == "U" else (m if q > 0 else -m)
            t["ps"] += [post("Own:cost", dec(q), c, cost=(tt, dec(m), c)), post("Own:paid", dec(-w), c)]


def split(g, j):
    """Some of the items in other files."""
    files = {"main.dat": j["files"]["main.dat"]}
    for k in range(g.r.randint(1, 2)):
        f = g.pick(sorted(files))
        its = files[f]
        lo = g.r.randint(0, len(its))
        hi = g.r.randint(lo, len(its))
        name = g.pick(["", "sub/"]) + "part%d.dat" % k
        path = os.path.join(os.path.dirname(f), name)
        files[path] = its[lo:hi]
        files[f] = its[:lo] + [{"k": "inc", "fs": [path], "_pat": name}] + its[hi:]
    for f, its in files.items():        # paths are relative to the including file
        for k, it in enumerate(its):
            if it["k"] == "inc":
                its[k] = inc(os.path.relpath(it["fs"][0], os.path.dirname(f) or "."), it["fs"])
    return {"main": "main.dat", "files": files}


ALIASES = {"Assets:Cash": ["Wallet", "Cash In Hand"], "Assets:Bank": ["BANK1", "Banco"], "Expenses:Food": ["Comida"], "A:B": ["ab"], "A": ["short"], "X:1:9": ["nine"]}


def everything(g, pid, mutant=False):
    big = g.p({"C09": 0.2, "C21": 0.2, "C03": 0.15}.get(pid, 0.08))
    k = dict(n=(2, 7), posts=(2, 5), accs=7, coms=(1, 4), elide=0.4, cost=g.pick([0, 0, 0.2]), exch=g.pick([0, 0.4]), asr=g.pick([0, 0, 0.2]),
             wrong=0 if mutant else g.pick([0] * 6 + [0.2]), assign=g.pick([0, 0, 0.08]), virt=0.15, bvirt=0.08, tags=g.pick([0, 0.3]), payee=0.25, comless=0,
             unbal=0 if mutant else g.pick([0] * 9 + [0.15]), accpool=g.pick([None, None] + TREEPOOLS), style=g.pick([None, "two", "int"]))
    if pid == "C12":
        k.update(zero=0, compool=["EUR", "USD", "€"], coms=(1, 2))
    if mutant and pid in ("C03", "C04", "C24"):
        k.update(asr=0.4, cost=g.pick([0, 0.3]), assign=0.15 if pid == "C04" else k["assign"])
    if mutant and pid == "C05":
        k.update(cost=0.5)
    if mutant and pid == "C06":
        k.update(virt=0.4, bvirt=0.4)
    if big:
        k.update(n=(22, 40), posts=(2, 3), style="int", tags=0, virt=0.03, bvirt=0, cost=0, dates=None)
    m = Maker(g, **k)
    declared = [a for a in m.accs if g.p(0.25)]
    al = {a: g.some(ALIASES[a]) for a in declared if a in ALIASES and g.p(0.7)}

    def spell(a):
        if a in declared and g.p(0.3):
            return variant(g, g.pick([a] + al.get(a, [])))
        return a
    m.spell = spell
    if big:
        pool = [g.date() for _ in range(g.pick([1, 2, 3, 6]))]
        m.k["dates"] = [g.pick(pool) for _ in range(g.r.randint(*k["n"]))]
    items = m.txns()
    costs(g, items)
    for t in items:
        header(g, t)
    put = lambda it: items.insert(g.r.randint(0, len(items)), it)
    for a in declared:
        put(acc(a, al.get(a, []), g.some(["Shop", "ACME", "^Me$", "Gro"], 0, 1) if g.p(0.2) else []))
    if g.p(0.25):
        t = g.pick([x for x in items if x["k"] == "txn"])
        t["ps"].append(post("Expenses:Unknown", "1", "EUR", k="V"))
    if "EUR" in m.coms and g.p(0.3):
        put(com("EUR", ["Euro"]))
        for t in items:
            if t["k"] == "txn":
                for p in t["ps"]:
                    for x in p["amt"] + p["asr"]:
                        if x["c"] == "EUR" and g.p(0.2):
                            x["c"] = g.pick(["Euro", "eur", "EURO"])
    if g.p(0.25):
        put(payee("Supermarket", g.some(["Mercadona.*", "Shop$", "Rent"])))
    for _ in range(g.pick([0, 0, 1, 2])):
        q = [g.pick([A("exp"), A("assets"), A("a"), A("auto"), TAG("food"), PAY("shop"), RE("^A")])]
        x = g.r.random()
        f = g.pick(["1", "-0.5", "2", "0.21"])
        if x < 0.5:
            ps = [autopost(g.pick(["V:auto", "Assets:Auto", "Auto:Expenses"]), "mul", f, k="V")]
        elif x < 0.7:
            ps = [autopost("Auto:Up", "mul", f), autopost("Auto:Down", "mul", dec(-F(f)))]
        elif x < 0.85:
            ps = [autopost("Auto:Fix", "fix", f, "EUR", k="V")]
        else:
            ps = [autopost("Auto:E", "expr", e={"o": "*", "l": {"o": "amount"}, "r": {"o": "num", "q": f.strip("-")}}, k="V")]
        put(auto(q, ps, g.some([":auto:", "kind: auto"], 0, 1)))
    for _ in range(g.pick([0, 0, 1, 2, 4])):
        a, b = g.some(["EUR", "USD", "ACME", "GBP"], 2, 2)
        d = g.pick([g.date(), g.date(), today_shift(0), today_shift(-1), today_shift(1)])
        put(price(d, a, dec(abs(g.amount("two"))), b))
    j = single(items)
    if g.p(0.2) and not big:
        j = split(g, j)
    return j, big


MUTANTS = {"C01": ("amt", "amt", "cost", "kind", "com", "drop"), "C02": ("amt", "elide", "kind", "drop", "com"), "C03": ("asr", "asr", "asr", "asr", "date", "amt", "account"),
           "C04": ("assign", "assign", "date", "asr"), "C05": ("cost", "cost", "amt"), "C06": ("kind", "kind", "amtB", "drop"),
           "C16": ("amt", "kind"), "C24": ("asr", "amt", "cost", "kind", "elide", "date", "com", "drop")}


def mutate(g, j, kinds):
    """One small change somewhere in a journal that is otherwise in order."""
    ts = [t for its in j["files"].values() for t in its if t["k"] == "txn" and t["ps"]]
    kind = g.pick(kinds)
    place = [(t, p) for t in ts for p in t["ps"]]

    def among(f):
        """Every class of postings has the same chance, rare ones too."""
        by = {}
        for t, p in place:
            if f(p):
                key = (bool(p["cost"]), bool(p["asr"]), p["k"], bool(p["cs"]), t is ts[0], t["ps"][0] is p, t["ps"][-1] is p, len(ts) > 9)
                by.setdefault(key, []).append((t, p))
        return g.pick(by[g.pick(sorted(by))]) if by else (None, None)

    def near(q):
        x = F(q)
        return dec(x + g.pick([F(1), F(-1), F(1, 100), F(-1, 100), F(1, 10 ** 9), -2 * x if x else F(1), F(5), F(1, 1000)]))
    if kind in ("amt", "amtB"):
        t, p = among(lambda p: p["amt"] and (kind == "amt" or p["k"] == "B"))
        if p:
            p["amt"][0]["q"] = near(p["amt"][0]["q"])
            if p["cost"] and F(p["amt"][0]["q"]) == 0:
                p["amt"][0]["q"] = "7"
    elif kind == "asr":
        t, p = among(lambda p: p["asr"] and p["amt"])
        if p:
            p["asr"][0]["q"] = near(p["asr"][0]["q"])
    elif kind == "assign":
        t, p = among(lambda p: p["asr"] and not p["amt"])
        if p and p["asr"][0]["c"]:
            p["asr"][0]["q"] = near(p["asr"][0]["q"])
    elif kind == "cost":
        t, p = among(lambda p: p["cost"])
        if p:
            c = p["cost"][0]
            if g.p(0.5):
                c["t"] = "U" if c["t"] == "T" else "T"
            else:
                c["q"] = near(c["q"])
                if F(c["q"]) == 0:
                    c["q"] = "3"
    elif kind == "kind":
        t, p = among(lambda p: p["amt"] and not p["asr"])
        if p:
            p["k"] = g.pick([x for x in "RVB" if x != p["k"]])
    elif kind == "elide":
        t, p = among(lambda p: p["amt"] and p["k"] == "R" and not p["asr"])
        if p:
            p["amt"], p["cost"] = [], []
    elif kind == "drop":
        t, p = among(lambda p: True)
        if len(t["ps"]) > 1:
            t["ps"].remove(p)
    elif kind == "com":
        t, p = among(lambda p: p["amt"] and not p["cost"])
        if p:
            p["amt"][0]["c"] = g.pick(["EUR", "USD"])
    elif kind == "account":
        t, p = among(lambda p: p["amt"])
        p["a"] = g.pick([q["a"] for _, q in place])
    elif kind == "date":
        t, p = among(lambda p: True)
        t["date"] = shift(g.pick(ts)["date"], g.pick([0, 1, -1]))


def dated(g, j, f, **kw):
    ds = [t["date"] for its in j["files"].values() for t in its if t["k"] == "txn"] or [[2020, 1, 1]]
    for o in "be":
        if g.p(0.6):
            d = shift(g.pick(ds), g.pick([0, 0, 1, -1]))
            kw.update({o: [d], "_" + o: arg_date(g, d)})
    return f(**kw)


def runs_for(pid, g, j):
    q = lambda: query(g, g.pick([1, 1, 2, 3]))
    if pid in ("C01", "C02", "C03", "C04"):
        return [REG(), FLAT(), CHECK(), REG(nc=True)]
    if pid in ("C05", "C06"):
        return [REG(), FLAT(real=True), REG(real=True), CHECK(), run("prices")]
    if pid == "C07":
        return [FLAT(), FLAT(depth=g.r.randint(1, 4)), FLAT(q=q()), FLAT(real=True, total=False)]
    if pid == "C08":
        return [TREE(), TREE(depth=g.r.randint(1, 4)), TREE(q=q()), TREE(real=True, total=False)]
    if pid == "C09":
        return [REG(), REG(q=q()), REG(real=True), dated(g, j, REG)]
    if pid == "C10":
        return [dated(g, j, f) for f in (REG, REG, FLAT, TREE)]
    if pid == "C11":
        return [f(q=q()) for f in (REG, REG, FLAT, TREE)]
    if pid == "C12":
        return [REG(q=[EX(bool_expr(g, g.r.randint(0, 2), g.pick(["EUR", "USD"])))]) for _ in range(3)]
    if pid in ("C13", "C26"):
        return [run("accounts"), run("commodities"), run("payees"), REG()]
    if pid == "C14":
        return [run("payees"), REG(), REG(q=[PAY(g.pick(["super", "shop", "me", "rent"]))])]
    if pid in ("C15", "C16", "C23"):
        return [REG(), FLAT(), REG(q=[g.pick([TAG("food"), TAG("auto"), TAG("kind"), A("auto")])]), CHECK()]
    if pid == "C17":
        return [run("prices"), run("commodities")]
    if pid == "C18":
        return [FLAT(x=g.pick(["EUR", "USD"])), TREE(x=g.pick(["EUR", "GBP"])), FLAT(x="ACME", depth=1)]
    if pid == "C19":
        return [REG(), FLAT(), TREE(), run("prices")]
    if pid == "C21":
        return [TREE(times=3), REG(times=2), FLAT(x="EUR", times=3), run("prices", times=2), run("payees", times=2)]
    if pid == "C24":
        return gens.every_command()[:8]
    if pid == "C27":
        return [CHECK(), REG()]
    if pid == "C28":
        return [REG(), run("payees"), dated(g, j, REG)]
    return [REG(), FLAT(), CHECK()]


def mixed(pid, g, n):
    for _ in range(n):
        mutant = pid in MUTANTS and g.p(0.6)
        j, big = everything(g, pid, mutant)
        if mutant and g.p(0.8):
            mutate(g, j, MUTANTS[pid])
        lay = [Layout(g.r, True)] if g.p(0.3) else None
        runs = runs_for(pid, g, j)
        for r in runs:
            if g.p(0.4):
                r["_vary"] = g.r.randint(1, 10 ** 9)
        yield case(j, runs, lay)


SKIP = {"C25"}
