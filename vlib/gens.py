"""Per property, the journals and command lines that exercise it."""
import datetime
import os
from fractions import Fraction as F

from .base import *

FLAT = lambda **kw: run("bal", flat=True, **kw)
TREE = lambda **kw: run("bal", **kw)
REG = lambda **kw: run("reg", **kw)
CHECK = lambda: run("check")


def basics():
    return [FLAT(), REG()]


# ------------------------------------------------------------------ balancing

def c01(g, n):
    for i in range(n):
        many = g.p(0.2)
        j = journal(g, n=(1, 4), posts=(2, 9) if many else (1, 5), coms=(1, 5), elide=0.15, cost=g.pick([0, 0, 0.3]), exch=0.5,
                    unbal=g.pick([0, 0.5, 0.5]), virt=0.1, zero=0.08)
        t = g.pick(j["files"]["main.dat"])
        x = g.r.random()
        if x < 0.1:                      # a second posting without amount
            t["ps"].append(post("Equity:Rest"))
        elif x < 0.15:                   # several remainders of one sign
            t["ps"] = [post("A:x", "1", "EUR"), post("B:y", dec(abs(g.amount())), "USD")] + \
                      ([post("C:z", dec(g.amount()), "GBP")] if g.p(0.5) else [])
        elif x < 0.2:                    # one posting only
            t["ps"] = [post("A:x", g.pick(["0", "0.00", "1", "0.0000001"]), "EUR")]
        elif x < 0.28:                   # cancels only at cost
            q, m = abs(g.amount("two")), abs(g.amount("three"))
            w = q * m + g.pick([0, 0, F(1, 100), F(1, 10 ** 7)])
            t["ps"] = [post("A:x", dec(q), "ACME", cost=("U", dec(m), "EUR")), post("B:y", dec(-w), "EUR")]
        elif x < 0.32:                   # tiny remainders in several commodities
            cs = g.some(["EUR", "USD", "GBP"], 2, 3)
            d = g.pick([F(1, 10 ** 3), F(1, 10 ** 4), F(1, 10 ** 5), F(1, 10 ** 9), F(9, 1000), F(1, 200)])
            t["ps"] = []
            for c in cs:
                m = g.amount()
                t["ps"] += [post("A:x", dec(m + g.pick([d, d, d, 0, d / 10, -d])), c), post("B:y", dec(-m), c)]
        elif x < 0.35:                   # a tiny remainder after large amounts
            b = F(g.r.randint(10 ** 12, 10 ** 16))
            t["ps"] = [post("A:x", dec(b), "EUR"), post("B:y", dec(-b + g.pick([0, F(1, 10 ** 6), F(-1, 1000), 1])), "EUR")]
        elif x < 0.4:                    # three commodities, mixed signs
            s = [1, g.pick([1, -1]), g.pick([1, -1])]
            t["ps"] = [post("A:x", dec(s[m] * abs(g.amount())), c) for m, c in enumerate(["EUR", "USD", "GBP"])]
        yield case(j, basics() + [CHECK(), REG(nc=True)])


def c02(g, n):
    for i in range(n):
        j = journal(g, n=(1, 4), posts=(1, 8) if g.p(0.3) else (2, 4), coms=(1, 5), elide=0.9, cost=g.pick([0, 0.4]),
                    asr=g.pick([0, 0.4]), zero=0.1, virt=0.15, bvirt=0.05)
        if g.p(0.2):
            j["files"]["main.dat"].append(auto([A(g.pick(["assets", "exp", "a"]))], [autopost("Virtual:Half", "mul", g.pick(["0.5", "-1", "3"]), k="V")]))
        yield case(j, [FLAT(), REG(), TREE(), CHECK()])


def c03(g, n):
    for i in range(n):
        j = journal(g, n=(2, 7), posts=(2, 5), accs=4, coms=(1, 3), elide=0.35, asr=0.45, wrong=g.pick([0, 0, 0.12, 0.5]),
                    cost=g.pick([0, 0, 0.3]), virt=0.15, bvirt=0.1, assign=g.pick([0, 0.1]))
        if g.p(0.15):
            j["files"]["main.dat"].append(auto([A(g.pick(["assets", "exp", "cash"]))], [
                autopost(g.pick(["Assets:Cash", "V:x"]), "mul", g.pick(["0.5", "-1"]), k=g.pick("VR")),
                autopost(g.pick(["Assets:Bank", "V:x"]), "mul", g.pick(["-0.5", "1"]), k=g.pick("VR"))]))
        yield case(j, [REG(), CHECK(), FLAT(), FLAT(nc=True), REG(nc=True)])
    # exact and nearly exact, one and several commodities
    for i in range(n // 4):
        m = g.amount()
        d = g.pick([F(0), F(0), F(1, 100), F(-1, 1000), F(1, 10 ** 8), -2 * m, -m])
        ps = [post("A:x", dec(m), "EUR"), post("B")]
        asr = g.pick([(dec(m + d), "EUR"), (dec(m + d), "USD"), ("0", "USD"), ("0", ""), (dec(m + d), "")])
        j = single([txn([2020, 1, 1], "a", ps),
                    txn(g.pick([[2020, 1, 1], [2020, 1, 2], [2019, 12, 31]]), "b",
                        [post(g.pick(["A:x", "A", "A:x:y", "a:X", "B"]), "0", g.pick(["EUR", "USD"]), asr=asr), post("C")])])
        if g.p(0.5):
            j["files"]["main.dat"].reverse()
        if g.p(0.3):
            j["files"]["main.dat"].insert(0, txn([2019, 1, 1], "v", [post("A:x", "7", "EUR", k=g.pick("VB"))] +
                                                 ([post("A:y", "-7", "EUR", k="B")] if g.p(0.5) else [])))
        yield case(j, [REG(), CHECK(), FLAT(nc=True)])


def c04(g, n):
    for i in range(n):
        j = journal(g, n=(2, 7), posts=(2, 5), accs=4, coms=(1, 4), elide=0.5, assign=0.35, asr=0.15, wrong=0.05,
                    cost=g.pick([0, 0, 0.2]), virt=0.1)
        if g.p(0.15):
            j["files"]["main.dat"].append(auto([A(g.pick(["assets", "exp"]))], [
                autopost("V:x", "mul", g.pick(["0.5", "-1"]), k="V")]))
        yield case(j, [REG(), FLAT(), CHECK(), REG(nc=True), run("prices")])


def c05(g, n):
    for i in range(n):
        j = journal(g, n=(1, 5), posts=(2, 6), coms=(1, 3), elide=0.5, cost=0.65, asr=0.2, unbal=g.pick([0, 0, 0.2]), exch=0.2)
        yield case(j, [REG(), FLAT(), CHECK(), run("prices")])
    for i in range(n // 3):          # @ and @@ with every sign, exact products
        q, m = g.amount(), abs(g.amount())
        t = g.pick("UT")
        if g.p(0.15):
            m = -m
        w = q * m if t == "U" else (m if q > 0 else -m)
        w += g.pick([F(0), F(0), F(1, 10 ** 6), F(1, 100), -2 * w])
        c = g.pick(["EUR", "EUR", "EUR", "eur", "ACME", "acme", "S&P 500"])      # sometimes in its own commodity
        ps = [post("A:x", dec(q), "ACME", cost=(t, dec(m), c), asr=g.pick([None, (dec(q), "ACME"), ("0", "EUR")]))]
        ps.append(post("B:y", dec(-w), c) if g.p(0.7) else post("B:y"))
        if g.p(0.3):
            ps.reverse()
        yield case(single([txn([2020, 1, 1], "cost", ps)]), [REG(), FLAT(), CHECK(), run("prices")])


def c06(g, n):
    for i in range(n):
        j = journal(g, n=(1, 5), posts=(2, 4), accs=4, coms=(1, 3), elide=0.5, virt=0.5, bvirt=0.4, asr=g.pick([0, 0.3]),
                    assign=g.pick([0, 0, 0.2]), cost=g.pick([0, 0.2]))
        t = g.pick(j["files"]["main.dat"])
        x = g.r.random()
        if x < 0.1:
            t["ps"].append(post("V:u", dec(g.amount()), "EUR", k="B"))                 # unbalanced [ ]
        elif x < 0.15:
            q = g.amount()
            t["ps"] += [post("V:u", dec(q), "EUR", k="B"), post("V:w", dec(-q), "USD", k="B")]   # exchange in [ ]
        elif x < 0.22:
            q, m = abs(g.amount("int")), abs(g.amount("two"))
            s = g.pick([1, -1])
            tot = g.p(0.5)
            w = (s * m if tot else s * q * m) + g.pick([0, 0, 0, F(1, 100), -2 * s * m])
            t["ps"] += [post("V:u", dec(s * q), "ACME", k="B", cost=("T" if tot else "U", dec(m), "EUR")), post("V:w", dec(-w), "EUR", k="B")]
        elif x < 0.25:
            t["ps"].append(post("V:u", k=g.pick("VB")))                                  # no amount
        elif x < 0.3:                                                                    # [ ] cannot balance a real posting
            q = g.amount()
            t["ps"] += [post("R:u", dec(q), "EUR"), post("V:w", dec(-q), "EUR", k=g.pick("VB"))]
        elif x < 0.35:
            j["files"]["main.dat"].append(txn([2020, 5, 5], "only virtual", [post("V:a", "3", "EUR", k="V")] +
                                              ([post("V:b", dec(g.pick([5, 4])), "USD", k="B"), post("V:c", "-4", "USD", k="B")] if g.p(0.5) else [])))
        runs = [REG(), REG(real=True), FLAT(), FLAT(real=True), TREE(), TREE(real=True), CHECK()]
        yield case(j, runs)


# ------------------------------------------------------------------ reports

def report_journal(g, **kw):
    k = dict(n=(2, 8), posts=(2, 5), accs=8, coms=(1, 4), elide=0.4, virt=0.1, zero=0.05)
    k.update(kw)
    return journal(g, **k)


TREEPOOLS = [
    ["A", "A:B", "A:B:C", "A:B:D", "A:BC", "A:BC:D", "AB", "AB:C", "B", "B:A"],
    ["Assets", "Assets:Bank", "Assets:Bank:Savings", "Assets:Banking", "Assets:Bank:Checking:Joint", "Expenses:Food",
     "Expenses:Food:Out", "Expenses", "Income:Salary:Net:Bonus"],
    ["A:B:C:D:E:F:G", "A:B:C:D:E:F:H", "A:B:C:D:E", "A:B:C:D:X:Y", "A:B", "L:2:3:4:5:6:7:8:9:10:11:12", "L:2:3:4:5:6:7:8:9:10:11:13", "L:2:3:4:5:6:7", "M"],
    ["X:1:2:3:4", "X:1:2:3:5", "X:1:9", "Y:1", "Y:1:2:3", "Z", "Ñ:a b:c", "Ñ:a b"],
]


def c07(g, n):
    for i in range(n):
        j = report_journal(g, accpool=g.pick(TREEPOOLS + [None]), accs=9)
        t = []
        if g.p(0.4):        # accounts or commodities that cancel out
            q = g.amount()
            for s in (1, -1):
                t.append(txn(g.date(), "cancel", [post("Gone:Away", dec(s * q), "EUR"), post(g.pick(["Gone:Not", "Z:q"]), dec(-s * q), "EUR")]))
        if g.p(0.2):        # sums to a fraction of a cent
            t.append(txn(g.date(), "small", [post("Small:A", "0.001", "EUR"), post("Small:B", "-0.001", "EUR")]))
        j["files"]["main.dat"] += t
        q = g.pick([[], [], [A(g.pick(["a", "b", "assets", "exp", "x"]))]])
        runs = [FLAT(), FLAT(total=False), FLAT(depth=1), FLAT(depth=2, total=g.p(0.5)), FLAT(depth=3, q=q), FLAT(q=q), FLAT(real=True)]
        yield case(j, runs)


def c08(g, n):
    for i in range(n):
        j = report_journal(g, accpool=g.pick(TREEPOOLS), accs=g.pick([3, 5, 9]), style=g.pick([None, "int"]), n=(1, 6))
        if g.p(0.4):
            q = g.amount()
            j["files"]["main.dat"] += [txn(g.date(), "cancel", [post("A:B:G", dec(q), "EUR"), post(g.pick(["A:B:H", "A", "Q:q:q"]), dec(-q), "EUR")])]
        q = g.pick([[], [A(g.pick(["a", "b", "assets", "exp", "x", ":"]))]])
        runs = [TREE(), TREE(total=False), TREE(depth=1), TREE(depth=2), TREE(depth=3, total=g.p(0.5)), TREE(depth=2, q=q), TREE(q=q), FLAT(q=q)]
        yield case(j, runs)


def c09(g, n):
    for i in range(n):
        j = report_journal(g, n=(3, 9), desc=0.85, payee=0.2, virt=0.2)
        if g.p(0.3):        # long descriptions and account names
            t = g.pick(j["files"]["main.dat"])
            t["desc"] = g.pick(["A very long description that certainly does not fit the column", "Ñ" * 60, "Words " * 5 + "end"]).strip()
        if g.p(0.3):
            ts = [t for t in j["files"]["main.dat"]]
            for t in ts[1:]:
                if g.p(0.6):
                    t["date"] = ts[0]["date"]
        q = g.pick([[], [A(g.pick(["a", "assets", "exp", "b"]))]])
        runs = [REG(), REG(q=q), REG(real=True), REG(b=[g.date()]), REG(e=[g.date()], q=q), FLAT(q=q)]
        yield case(j, runs)


def arg_date(g, d):
    """A way of writing date d on the command line."""
    ways = ["%04d-%02d-%02d" % tuple(d), "%04d/%02d/%02d" % tuple(d), "%04d-%d-%d" % tuple(d), "%04d/%d/%d" % tuple(d)]
    if d[2] == 1:
        ways += ["%04d-%02d" % (d[0], d[1]), "%04d/%02d" % (d[0], d[1]), "%04d-%d" % (d[0], d[1])] * 2
        if d[1] == 1:
            ways += ["%04d" % d[0]] * 3
    return g.pick(ways)


MONTHS = "January February March April May June July August September October November December".split()


def rc_date(g, d):
    """The same, or in words."""
    if g.p(0.7):
        return arg_date(g, d)
    m = MONTHS[d[1] - 1]
    return g.pick(["%s %d, %d" % (m, d[2], d[0]), "%d %s %d" % (d[2], m, d[0])] + (["%s %d" % (m, d[0])] if d[2] == 1 else []))


def shift(d, k):
    x = datetime.date(*d) + datetime.timedelta(k)
    return [x.year, x.month, x.day]


def c10(g, n):
    for i in range(n):
        j = report_journal(g, n=(3, 8), asr=0.15, assign=0.1)
        ds = [t["date"] for t in j["files"]["main.dat"]]
        runs = []
        for _ in range(7):
            b = shift(g.pick(ds), g.pick([0, 0, 0, 1, -1, 30])) if g.p(0.75) else None
            e = shift(g.pick(ds), g.pick([0, 0, 0, 1, -1, 30])) if g.p(0.75) else None
            if g.p(0.3):
                b = g.pick([[2020, 1, 1], [2020, 3, 1], [2021, 1, 1], [2020, 2, 1], [2019, 12, 1]])
            if g.p(0.2):
                e = g.pick([[2020, 1, 1], [2020, 3, 1], [2021, 1, 1], [2020, 2, 1], [2019, 12, 1]])
            if g.p(0.1) and b:
                e = b
            kw = {}
            if b:
                kw.update(b=[b], _b=arg_date(g, b))
            if e:
                kw.update(e=[e], _e=arg_date(g, e))
            if g.p(0.3):
                kw.update(q=[A(g.pick(["a", "assets", "exp"]))])
            runs.append(g.pick([FLAT, REG, TREE])(**kw))
        yield case(j, runs)


# ------------------------------------------------------------------ queries

def tagged_journal(g, **kw):
    k = dict(n=(3, 6), posts=(2, 4), accs=7, coms=(1, 2), tags=0.45, payee=0.4, elide=0.4, style=g.pick(["int", "two", None]), comless=0)
    k.update(kw)
    return journal(g, **k)


WORDS = ["assets", "Bank", "bank:", "CASH", "food", "exp", "a", "ing", "^assets", "out$", "caf", "ñu", "b.nk", "zzz", "rent|food", ":food$"]
REWORDS = ["food", "expenses", "Assets", "assets", "Bank", "bank$", "^Exp", "Food", "Caf.", "a.*t", "zzz", "Bank|Food", "Bank:"]
PAYWORDS = ["shop", "acme", "Mercadona", "^me$", "gro", "coffee", "o", "café", "zzz", "rent"]
TAGWORDS = ["food", "a", "kind", "project", "trip", "x", "zzz", "^b$"]


def term(g, ex=0.0):
    x = g.r.random()
    if x < ex:
        return EX(bool_expr(g, g.r.randint(0, 2)))
    x = g.r.random()
    if x < 0.4:
        return A(g.pick(WORDS))
    if x < 0.55:
        return RE(g.pick(REWORDS))
    if x < 0.8:
        return PAY(g.pick(PAYWORDS))
    return TAG(g.pick(TAGWORDS))


def query(g, n, ex=0.0):
    q = [term(g, ex)]
    for _ in range(n - 1):
        x = g.r.random()
        if x < 0.4:
            q.append(AND)
        elif x < 0.6:
            q.append(OR)
        q.append(term(g, ex))
    if g.p(0.2):        # two terms that look alike
        t = g.pick([x for x in q if x["k"] in ("re", "acc", "pay", "tag")] or [RE("Food")])
        s = t["s"].strip("^$")
        if "|" not in s and "\\" not in s:
            u = dict(t, s=g.pick(["^" + s, s + "$", "^" + s + "$", s, s[:-1] if len(s) > 2 and s[-2] != "." and s[-1] not in ".*" else s + "$", s + "."]))
            if g.p(0.4):
                u["k"] = g.pick(["re", "acc", "pay", "tag"])
            v = g.pick([[u], [OR, u], [AND, u]])
            q = q + v if g.p(0.5) else [u] + v[:-1] + q
    if g.p(0.12):       # two terms that differ in case only
        t = g.pick([x for x in q if x["k"] in ("re", "acc", "pay", "tag")] or [RE("Food")])
        u = dict(t, s=t["s"].swapcase() if "\\" not in t["s"] else t["s"])
        if g.p(0.6):
            u["k"] = t["k"] if t["k"] != "acc" else "re"
        q += g.pick([[u], [u], [AND, u], [OR, u]])
        if g.p(0.3):
            q.reverse()
            while q[0]["k"] in ("and", "or"):
                q.pop(0)
    return q


def c11(g, n):
    for i in range(n):
        j = tagged_journal(g, virt=0.1, n=(4, 8))
        if g.p(0.3):
            j["files"]["main.dat"] = decls(g, j) + j["files"]["main.dat"]
        runs = []
        for _ in range(6):
            q = query(g, g.pick([1, 1, 2, 3, 4, 5]), ex=0.1)
            kw = dict(q=q, real=g.p(0.1))
            runs.append(FLAT(**kw))
            runs.append(REG(**kw))
        runs.append(REG())
        yield case(j, runs)


NUMS = ["0", "1", "2", "3", "10", "0.5", "2.50", "100", "0.001", "7"]


def num_expr(g, d):
    if d <= 0 or g.p(0.3):
        return {"o": "num", "q": g.pick(NUMS)}
    if g.p(0.3):
        return {"o": g.pick(["neg", "abs"]), "x": num_expr(g, d - 1)}
    return {"o": g.pick(["+", "-", "*", "/", "+", "-"]), "l": num_expr(g, d - 1), "r": num_expr(g, d - 1)}


def mon_expr(g, d, c):
    if d <= 0 or g.p(0.25):
        return {"o": "amount"} if g.p(0.7) else {"o": "money", "q": g.pick(NUMS[1:]), "c": c}
    x = g.r.random()
    if x < 0.2:
        return {"o": g.pick(["neg", "abs", "abs"]), "x": mon_expr(g, d - 1, c)}
    if x < 0.5:
        return {"o": g.pick(["*", "/"]), "l": mon_expr(g, d - 1, c), "r": num_expr(g, d - 2)}
    if x < 0.65:
        return {"o": "*", "l": num_expr(g, d - 2), "r": mon_expr(g, d - 1, c)}
    return {"o": g.pick("+-"), "l": mon_expr(g, d - 1, c), "r": mon_expr(g, d - 1, c)}


CMP = ["<", ">", "<=", ">=", "==", "!="]


def bool_expr(g, d, c=None, notany=False):
    c = c or g.pick(["EUR", "USD", "€"])
    x = g.r.random()
    if d > 0 and x < 0.5:
        o = g.pick(["and", "or", "and", "or", "not"])
        if o == "not":
            return {"o": "not", "x": bool_expr(g, d - 1, c, notany)}
        return {"o": o, "l": bool_expr(g, d - 1, c, notany), "r": bool_expr(g, d - 1, c, notany)}
    x = g.r.random()
    rx = lambda ws: {"o": "re", "s": g.pick(ws), "ci": g.p(0.3)}
    if x < 0.4:
        k = max(0, d)
        if g.p(0.7):
            l = mon_expr(g, k, c)
            r = g.pick([lambda: num_expr(g, 0), lambda: num_expr(g, k), lambda: mon_expr(g, k, c), lambda: {"o": "money", "q": g.pick(NUMS), "c": c}])()
        else:
            l, r = num_expr(g, k + 1), num_expr(g, k)
        if g.p(0.2):
            l, r = r, l
        return {"o": g.pick(CMP), "l": l, "r": r}
    if x < 0.52:
        return {"o": g.pick(["=~", "==", "!=", "=~"]), "l": {"o": "account"}, "r": rx(REWORDS)}
    if x < 0.62:
        return {"o": g.pick(["=~", "!="]), "l": {"o": "payee"}, "r": rx(["Shop", "Me", "Gro", "ACME", "o", "12$"])}
    if x < 0.72:
        return {"o": g.pick(CMP), "l": {"o": "date"}, "r": {"o": "dt", "d": g.date()}}
    if x < 0.8:
        return {"o": "has_tag", "x": rx(["food", "a", "kind", "Project", "^b", "zzz"])}
    if x < 0.88:
        if g.p(0.5):
            return {"o": g.pick(["=~", "!="]), "l": {"o": "tag", "x": g.pick([rx(["kind", "Proj"]), {"o": "str", "s": g.pick(["kind", "Project", "none"])}])},
                    "r": rx(["home", "off", "Alpha", "beta$", "x"])}
        return {"o": g.pick(["==", "!="]), "l": {"o": "tag", "x": {"o": "str", "s": "kind"}}, "r": {"o": "str", "s": g.pick(["home", "office", "hom"])}}
    if x < 0.93:
        return {"o": "=~", "l": {"o": "note"}, "r": rx(["home", "words", "trip", "zz"])}
    if notany:
        return {"o": ">", "l": {"o": "amount"}, "r": {"o": "num", "q": g.pick(NUMS)}}
    return {"o": "any", "x": bool_expr(g, max(0, d - 1), c, True)}


def c12(g, n):
    for i in range(n):
        j = tagged_journal(g, coms=(1, 2), compool=["EUR", "USD", "€", "S&P 500"], zero=0, style=g.pick(["int", "two", "int"]))
        cs = sorted({m["c"] for t in j["files"]["main.dat"] for p in t["ps"] for m in p["amt"]}) or ["EUR"]
        runs = []
        for _ in range(8):
            c = g.pick(cs)
            e = bool_expr(g, g.pick([0, 1, 2, 2, 3, 4]), c)
            text = expr_text(e, g.r, full=g.p(0.15))
            if g.p(0.2):
                text = " ".join(text.split(" "))
            runs.append(REG(q=[EX(e, text=text)]))
        if g.p(0.7):        # the values themselves, through automated transactions
            for k in range(g.pick([1, 2, 4, 6])):
                e = mon_expr(g, g.pick([1, 2, 3]), g.pick([c for c in cs if c != "S&P 500"] or ["EUR"])) if g.p(0.5) else num_expr(g, g.pick([1, 2, 2, 3, 4]))
                j["files"]["main.dat"].append(auto([A(g.pick(["a", "assets", "exp"]))], [autopost("Value:Of%d" % k, "expr", e=e, k="V")]))
            runs.append(REG(q=[A("value")]))
        yield case(j, runs)


# ------------------------------------------------------------------ names

def variant(g, s):
    """Another spelling of s, equal ignoring case."""
    k = g.r.random()
    if k < 0.3:
        return s.lower()
    if k < 0.5:
        return s.upper()
    if k < 0.7:
        return "".join(ch.upper() if g.p(0.5) else ch.lower() for ch in s)
    return s


def decls(g, j, p=0.6):
    """Declarations for what journal j uses."""
    accs = sorted({q["a"] for its in j["files"].values() for t in its if t["k"] == "txn" for q in t["ps"]})
    out = []
    seen = set()
    for a in accs:
        if a.lower() in seen:
            continue
        seen.add(a.lower())
        if g.p(p):
            out.append(acc(a))
    return out


ACCN = ["Assets:Cash", "Assets:Cash:Wallet", "Expenses:Food", "Expenses:Fóod", "Café:Ñandú", "Assets:Bank", "Bank", "Equity", "Assets:B"]
ACCAL = {"Assets:Cash": ["Cash", "Wallet", "Monedero Ñ"], "Expenses:Food": ["Food", "Comida"], "Assets:Bank": ["b1", "La Banca"], "Equity": ["EQ", "Opening"]}
COMN = ["EUR", "USD", "ACME", "Bitcoin", "S&P 500", "Žlt"]
COMAL = {"EUR": ["€", "euro", "Euros"], "USD": ["$", "dollar"], "Bitcoin": ["BTC", "XBT"], "ACME": ["acm"], "S&P 500": ["SPX"]}


def c13(g, n):
    for i in range(n):
        da = [a for a in ACCAL if g.p(0.6)]
        dc = [c for c in COMAL if g.p(0.6)]
        al = {a: g.some(ACCAL[a], 0) for a in da}
        cl = {c: g.some(COMAL[c], 0) for c in dc}
        mixed = g.p(0.7)

        def acct():
            a = g.pick(ACCN)
            if g.p(0.4):
                a = g.pick([x for v in al.values() for x in v] or [a])
            elif g.p(0.1):
                a = g.pick(["Food", "Cash:Wallet", "Assets:Bank2", "b1:x", "Euros", "Assets"])
            return variant(g, a) if mixed and g.p(0.4) else a

        def comm():
            c = g.pick(COMN)
            if g.p(0.45):
                c = g.pick([x for v in cl.values() for x in v] or [c])
            return variant(g, c) if mixed and g.p(0.4) and c.isascii() else c
        items = []
        for d in g.dates(g.r.randint(2, 5)):
            ps = []
            for _ in range(g.r.randint(1, 4)):
                cost = ("U", dec(abs(g.amount("two"))), comm()) if g.p(0.1) else None
                p = post(acct(), dec(g.amount("two")), comm(), cost=cost)
                if cost and cost[2].lower() == p["amt"][0]["c"].lower():
                    p["cost"] = []
                ps.append(p)
            ps.append(post(acct()))
            if g.p(0.15):
                p = g.pick(ps)
                if p["amt"]:
                    p["asr"] = [money(p["amt"][0]["q"], g.pick([p["amt"][0]["c"], variant(g, p["amt"][0]["c"])]))]
            items.append(txn(d, g.pick(DESCS), ps))
        if g.p(0.3):
            a, b = comm(), comm()
            items.append(price(g.date(), a, "2", b))
        ds = [acc(a, [variant(g, x) if mixed and g.p(0.3) else x for x in al[a]]) for a in da] + [com(c, cl[c]) for c in dc]
        used = {x.lower() for x in list(al) + list(cl)}
        if g.p(0.25):       # something declared under a name that is an alias, too
            x = g.pick([x for v in al.values() for x in v] or ["Cash"])
            if x.lower() not in used:
                ds.append(acc(x, g.some(["Other name"], 0)))
        if g.p(0.25):
            x = g.pick([x for v in cl.values() for x in v] or ["BTC"])
            if x.lower() not in used:
                ds.append(com(x, []))
        if g.p(0.15):       # an alias of two accounts
            x = g.pick([x for v in al.values() for x in v] or ["Cash"])
            ds.append(acc("Twice:Named", [x]))
        g.r.shuffle(ds)
        for d in ds:
            items.insert(g.r.randint(0, len(items)), d)
        j = single(items)
        w = g.pick(["cash", "food", "bank", "eq"])
        # costs between equal commodities are of no interest here
        yield case(j, [FLAT(), REG(), run("accounts"), run("commodities"), FLAT(q=[A(w)]), REG(q=[A(w)]), run("prices")])


PAYEES = ["Mercadona", "Mercadona 12", "Amazon EU", "amazon", "ACME Inc", "The Shop", "Shop", "Bar Pepe", "Barcelona", "Iberia"]
PAYDECL = {"Supermarket": ["Mercadona.*", "Carrefour"], "Amazon": ["amazon", "Amazon .*"], "Bars": ["^Bar P", "Pub"], "Shop": ["The Shop"],
           "Airline": ["Iberia|Vueling"]}
UNKACC = {"Expenses:Groceries": ["Mercadona.*", "Super.*"], "Expenses:Online": ["Amazon"], "Expenses:Bars": ["^Bar", "Pub"], "Expenses:Travel": ["Iberia$", "Airline"]}


def c14(g, n):
    for i in range(n):
        items = []
        for d in g.dates(g.r.randint(3, 6)):
            ps = [post(g.pick(["Expenses:Unknown", "Expenses:unknown", "Unknown", "Expenses:Food", "Income:Unknown:x"]), dec(g.amount("two")), "EUR"), post("Assets:Cash")]
            if g.p(0.3):
                ps[1]["a"] = "Assets:UNKNOWN"
            if g.p(0.2):
                ps.append(post("Budget:Unknown", "1", "EUR", k="V"))
            x = g.r.random()
            pay = g.pick(PAYEES) if x < 0.5 else None
            desc = "" if x < 0.08 else g.pick(PAYEES + ["Something else"])
            if x > 0.97:
                desc = ""
            items.append(txn(d, desc, ps, pay=pay))
        ds = []
        for p, al in PAYDECL.items():
            if g.p(0.5):
                ds.append(payee(p, g.some(al, 0 if g.p(0.3) else 1)))
        for a, pp in UNKACC.items():
            if g.p(0.55):
                ds.append(acc(a, [], g.some(pp)))
        g.r.shuffle(ds)
        for d in ds:
            items.insert(g.r.randint(0, len(items)), d)
        w = g.pick(["super", "amazon", "shop", "bar", "merca", "unknown", "inc"])
        j = single(items)
        yield case(j, [REG(), FLAT(), run("payees"), run("accounts"), FLAT(q=[PAY(w)]), REG(q=[PAY(w)]), REG(q=[EX({"o": "=~", "l": {"o": "payee"}, "r": {"o": "re", "s": g.pick(["Super", "^Amazon$", "Bar", "Shop"]), "ci": False}})])])


# ------------------------------------------------------------------ files

def c15(g, n):
    for i in range(n):
        m = Maker(g, n=(3, 7), posts=(2, 4), accs=5, coms=(1, 2), asr=g.pick([0, 0.2]), elide=0.4)
        items = m.txns()
        if g.p(0.4):
            items.insert(g.r.randint(0, len(items)), acc(m.accs[0], ["Shortcut"]))
            items.append(txn(g.date(), "alias", [post("Shortcut", "1", "EUR"), post(m.accs[1], "-1", "EUR")]))
        if g.p(0.25):       # a name that is an alias, too
            items.insert(g.r.randint(0, len(items)), acc(g.pick(["Shortcut", "shortcut"]), g.some(["More"], 0)))
        if g.p(0.2):
            items.insert(g.r.randint(0, len(items)), com("EUR", ["Euro", "XX"]))
            items.insert(g.r.randint(0, len(items)), g.pick([com("XX", []), com("Euro", ["YY"]), com("USD", ["XX"])]))
            items.append(txn(g.date(), "names", [post("N:x", "1", g.pick(["XX", "Euro", "xx"])), post("N:y")]))
        if g.p(0.2):
            items.insert(g.r.randint(0, len(items)), payee("Supermarket", ["Shop.*"]))
            items.append(txn(g.date(), g.pick(["Shopping", "x"]), [post("N:x", "1", "EUR"), post("N:unknown")]))
            items.append(acc("N:Shops", [], ["Super"]))
        if g.p(0.3):
            items.append(price(g.date(), "ACME", "3", "EUR"))
        if g.p(0.2):
            items.append(auto([A("exp")], [autopost("V:e", "mul", "1", k="V")]))
        dirs = ["", "sub/", "sub/deep/", "other dir/" if g.p(0.3) else "b/"]
        files = {"main.dat": items}
        names = ["a.dat", "b.ledger", "c10.dat", "c9.dat", "c2.dat", "Z.dat", "d.x.dat"]
        g.r.shuffle(names)
        # cut slices out of existing files into new ones
        for _ in range(g.r.randint(1, 4)):
            f = g.pick(sorted(x for x in files if not isinstance(files[x], str)))
            its = files[f]
            d = g.pick(dirs)
            fdir = f.rsplit("/", 1)[0] + "/" if "/" in f else ""
            if g.p(0.35):      # glob
                gd = "g%d" % len(files)
                k = g.r.randint(1, 3)
                ns = sorted(g.r.sample(["a.dat", "b.dat", "b10.dat", "b2.dat", "A.dat"], k))
                lo = g.r.randint(0, len(its))
                hi = g.r.randint(lo, len(its))
                cut = its[lo:hi]
                fs = []
                for x, nm in enumerate(ns):
                    part = cut[x * len(cut) // k:(x + 1) * len(cut) // k]
                    path = fdir + gd + "/" + nm
                    files[path] = part
                    fs.append(path)
                files[fdir + gd + "/zz.other"] = "this is not read 12.\n"
                files[f] = its[:lo] + [inc(gd + "/*.dat", fs)] + its[hi:]
            else:
                nm = "f%d%s" % (len(files), g.pick(names))
                path = fdir + d + nm
                lo = g.r.randint(0, len(its))
                hi = g.r.randint(lo, len(its))
                files[path] = its[lo:hi]
                ups = ""
                files[f] = its[:lo] + [inc(g.pick(["", "./"]) + d + nm, [path])] + its[hi:]
                if g.p(0.15):   # a second time
                    files[f].append(inc(d + nm, [path]))
        real = [f for f in sorted(files) if not isinstance(files[f], str)]
        x = g.r.random()
        if x < 0.12:            # a cycle
            f = g.pick(real)
            target = g.pick(real)
            up = "../" * f.count("/")
            files[f] = files[f] + [inc(up + target, [target])]
        elif x < 0.2:           # upwards
            f = g.pick(real)
            files["up.dat"] = [txn([2020, 6, 6], "up", [post("Up:a", "1", "EUR"), post("Up:b")])]
            files[f].insert(0, inc("../" * f.count("/") + "up.dat", ["up.dat"]))
        elif x < 0.25:
            f = g.pick(real)
            files["broken.dat"] = [txn([2020, 6, 6], "broken", [post("Up:a", "1", "EUR"), post("Up:b", "-2", "EUR")])]
            files[f].append(inc("../" * f.count("/") + "broken.dat", ["broken.dat"]))
        spec = {f: v for f, v in files.items() if not isinstance(v, str)}
        for f, its in spec.items():         # slices may have moved: paths are relative to the including file
            for k, it in enumerate(its):
                if it["k"] == "inc":
                    pat = os.path.relpath(it["fs"][0], os.path.dirname(f) or ".")
                    fs = it["fs"]
                    if "*" in it["_pat"]:
                        pat = os.path.dirname(pat) + "/*.dat"
                        fs = sorted(x for x in spec if os.path.dirname(x) == os.path.dirname(fs[0]) and x.endswith(".dat"))
                    its[k] = inc(g.pick(["", "", "./"]) + pat, fs)
        yield case({"main": "main.dat", "files": spec}, [REG(), FLAT(), run("accounts"), run("commodities"), run("payees"), run("prices"), CHECK()],
                   extra={f: v for f, v in files.items() if isinstance(v, str)})


def c16(g, n):
    for i in range(n):
        j = tagged_journal(g, n=(2, 5), asr=g.pick([0, 0, 0.2]), exch=0.2, compool=["EUR", "USD", "ACME"], zero=0)
        items = j["files"]["main.dat"]
        for _ in range(g.r.randint(1, 3)):
            x = g.r.random()
            if x < 0.5:
                q = [term(g)]
            elif x < 0.7:
                q = query(g, g.pick([2, 3]))
            else:
                q = [EX(bool_expr(g, g.pick([0, 1, 2]), "EUR"))]
            ps = []
            style = g.r.random()
            if style < 0.35:
                f = abs(g.amount("one"))
                ps = [autopost("Auto:Up", "mul", dec(f)), autopost("Auto:Down", "mul", dec(-f))]
            elif style < 0.5:
                ps = [autopost("Auto:V", "mul", dec(g.amount("two")), k="V")]
            elif style < 0.65:
                v = g.amount("two")
                ps = [autopost("Auto:F1", "fix", dec(v), "EUR"), autopost("Assets:Cash", "fix", dec(-v), "EUR")]
            elif style < 0.75:
                ps = [autopost("Auto:V2", "fix", dec(g.amount("two")), g.pick(["EUR", "USD", "PTS"]), k="V")]
            elif style < 0.85:
                e = {"o": "*", "l": {"o": "amount"}, "r": {"o": "num", "q": g.pick(["0.5", "2", "0.21"])}}
                ps = [autopost("Auto:E1", "expr", e=e), autopost("Auto:E2", "expr", e={"o": "neg", "x": e} if g.p(0.5) else
                      {"o": "-", "l": e, "r": {"o": "*", "l": {"o": "num", "q": "2"}, "r": e}})]
            elif style < 0.93:
                ps = [autopost("Auto:E3", "expr", e=mon_expr(g, 2, "EUR"), k="V")]
            else:       # leaves the transaction unbalanced, unless nothing matches
                ps = [autopost("Auto:Bad", g.pick(["mul", "fix"]), "1", "EUR")]
                if ps[0]["m"] == "mul":
                    ps[0]["c"] = ""
            if g.p(0.15):
                v = g.amount("int")
                ps += [autopost("Auto:B1", "fix", dec(v), "EUR", k="B"), autopost("Auto:B2", "fix", dec(-v), "EUR", k="B")]
            cs = g.some([":auto:", "kind: auto", ":food:"], 0, 1) if g.p(0.4) else []
            items.insert(g.r.randint(0, len(items)), auto(q, ps, cs))
        yield case(j, [REG(), FLAT(), REG(q=[g.pick([TAG("auto"), A("auto"), TAG("kind"), TAG("food")])]), CHECK(), run("accounts"), REG(real=True)])


# ------------------------------------------------------------------ prices

def c17(g, n):
    for i in range(n):
        j = journal(g, n=(1, 5), posts=(2, 5), coms=(2, 4), elide=0.35, cost=0.45, exch=0.8, compool=["EUR", "USD", "ACME", "$", "S&P 500"], bvirt=0.1, comless=0)
        items = j["files"]["main.dat"]
        if g.p(0.5):
            a, b = g.some(["EUR", "USD", "ACME"], 2, 2)
            items.append(txn(g.date(), "exchange", [post("A:x", dec(abs(g.amount())), a), post("B:y", dec(-abs(g.amount())), b)] +
                             ([post("C:z", "0", "GBP")] if g.p(0.3) else [])))
        if g.p(0.2):
            items.append(txn(g.date(), "virtual cost", [post("V:x", dec(g.amount()), "ACME", cost=(g.pick("UT"), dec(abs(g.amount())), "EUR"), k="V")]))
        for _ in range(g.r.randint(0, 4)):
            a, b = g.some(["EUR", "USD", "ACME", "S&P 500", "BTC", "$"], 2, 2)
            tm = g.pick([None, None, "00:00:00", "12:34:56", "23:59:59", "20:00:00"])
            items.insert(g.r.randint(0, len(items)), price(g.date(), a, dec(abs(g.amount())), b, time=tm))
        if g.p(0.3) and items:
            p = [x for x in items if x["k"] == "price"]
            if p:
                items.append(dict(g.pick(p)))
        if g.p(0.3):
            items.append(auto([A(g.pick(["a", "assets"]))], [autopost("V:e", "mul", "2", k="V")]))
        if g.p(0.2):
            items.append(com("EUR", ["€"]))
            items.append(price(g.date(), "ACME", "5.5", "€"))
        yield case(j, [run("prices"), run("commodities")])


def today_shift(k):
    x = datetime.datetime.utcnow().date() + datetime.timedelta(k)
    return [x.year, x.month, x.day]


def c18(g, n):
    for i in range(n):
        cs = ["EUR", "USD", "ACME", "GBP", "BTC"][:g.r.randint(2, 5)]
        j = journal(g, n=(1, 5), posts=(2, 5), coms=(len(cs), len(cs)), compool=cs, elide=0.6, cost=g.pick([0, 0, 0.2]), exch=g.pick([0, 0.5]), accs=6, comless=0,
                    style=g.pick(["int", "two", None]))
        items = j["files"]["main.dat"]
        # a forest of pairs, so that chains are unique; several dates per pair
        pairs = []
        for x in range(1, len(cs)):
            if g.p(0.8):
                pairs.append((cs[g.r.randint(0, x - 1)], cs[x]))
        if g.p(0.15) and len(cs) > 2:
            pairs.append((cs[0], cs[2]))
        for a, b in pairs:
            ds = g.r.sample([[2020, 1, 1], [2019, 6, 1], [2020, 6, 1], [2021, 1, 1], today_shift(0), today_shift(-1), today_shift(1), today_shift(400), [2015, 1, 1]],
                            g.r.randint(1, 4))
            for d in ds:
                x, y = (a, b) if g.p(0.5) else (b, a)
                items.insert(g.r.randint(0, len(items)), price(d, x, dec(abs(g.amount(g.pick(["int", "two", "three"])))), y))
        q = g.pick([[], [], [A(g.pick(["assets", "exp"]))]])
        runs = [FLAT(x=c, q=q) for c in g.some(cs, 1, 2)] + [TREE(x=g.pick(cs)), FLAT(x=g.pick(cs), depth=1), TREE(x=g.pick(cs), q=q, depth=g.pick([0, 2]))]
        if g.p(0.2):
            runs.append(FLAT(x="NOPE"))
        yield case(j, runs)


# ------------------------------------------------------------------ amounts

HALF = ["0.005", "-0.005", "0.004999", "1.005", "-1.005", "2.675", "-2.675", "0.995", "-0.995", "99.995", "-99.995", "0.015", "0.001", "-0.001",
        "-0.5", "0.5", "-0.05", "-0.049", "1000000.005", "123456789.125", "-0.994999", "999999999999.999", "0.0049999999999", "10", "-10", "100.10", "-7.0"]


def c19(g, n):
    for i in range(n):
        items = []
        for d in g.dates(g.r.randint(1, 5)):
            ps = []
            for _ in range(g.r.randint(1, 4)):
                q = g.pick(HALF) if g.p(0.7) else dec(g.amount())
                ps.append(post(g.pick(["A:x", "A:y", "B", "C:z"]), q, g.pick(["EUR", "$", "S&P 500", "EUR"])))
            ps.append(post(g.pick(["Rest", "A:r"])))
            items.append(txn(d, "amounts", ps))
        if g.p(0.3):        # many small amounts
            k = g.r.randint(3, 15)
            u = g.pick(["0.001", "0.004", "0.0049", "-0.001", "0.333333"])
            items.append(txn(g.date(), "small", [post("Small", u, "EUR") for _ in range(k)] + [post("Rest")]))
        if g.p(0.4):
            items.append(price([2020, 1, 1], "$", g.pick(["3", "0.7", "0.3333333", "1.5"]), "EUR"))
        if g.p(0.2):
            items.append(txn(g.date(), "thirds", [post("Th:a", "1", "ACME"), post("Th:b", dec(-abs(g.amount("int"))), "EUR")]))
        yield case(single(items), [FLAT(), REG(), TREE(), FLAT(x="EUR"), TREE(x="$"), run("prices")])


def c20(g, n):
    good = ["10 EUR", "EUR 10", "10EUR", "EUR10", "$10", "$ 10", "10$", "10 $", "-10 EUR", "EUR -10", "EUR-10", "-10EUR", "$-10", "10.00 EUR",
            '10 "S&P 500"', '"S&P 500" 10', '-10 "S&P 500"', '"S&P 500" -10', '"A1" 7', '7 "A1"', "007 EUR", "0.1 EUR", "00.10 EUR",
            "123456789012345678901234567890 EUR", "0.123456789012345678901234567890 EUR", "-0.0000000001 EUR", "10", "-10.5", "10 €", "€10", "10 EUR @ 2 USD",
            "10 EUR @@ 20 USD", "10 EUR@2 USD", "EUR 10 @ $2", "10 ACME @ EUR 2.5", "10 EUR = 10 EUR", "10 EUR=10 EUR", "= 10 EUR", "10 EUR @ 2 USD = 10 EUR",
            "10 EUR  ; comment", "10 EUR ; 20 EUR", "10 eur", '10 "ab"@ 2 EUR', '10 "a b" = 10 "a b"', "10 ACME @@ 0.1 EUR", "-3 ACME @ 1.1 EUR", "-3 ACME @@ 1.1 EUR",
            "10 @ 2 USD", "10 @@ 20 USD", "10 = 10"]
    junk = ["1,000 EUR", "1.2.3 EUR", "--10 EUR", "1-0 EUR", "10- EUR", "-", "- EUR", ". EUR", "-.EUR", "10 EUR USD", "10 EUR 20", "10 EUR 20 USD", "EUR", "EUR USD", "$",
            "EUR 10 USD", "10 EUR @", "10 EUR @ ", "10 EUR @@", "10 EUR =", "10 EUR @ USD", "10 EUR = USD", "10 EUR @ 1,5 USD", "10 EUR @ 2 USD 3", "10 EUR = 10 EUR 5",
            "10 EUR = 1.2.3 EUR", '10 "EUR', '"EUR 10', '10 "EUR" x', "10 EUR @@@ 2 USD", "10.5.0", "1 000 EUR", "10 EUR x y", "(10 EUR)", "(2 * 5 EUR)", "(amount)", "1e3 EUR",
            "10,5 EUR", "1.000,50 EUR", "+10 EUR", "10 EUR @ 2 USD @ 3 GBP", "0x10 EUR", "10 EUR @ -- USD", "1..5 EUR", "5-5", "- 10 EUR", "10 EUR 10 EUR", "EUR 1.2.3", "$1-2",
            "EUR 10 20", "10. EUR", ".5 EUR", "-.5 EUR", "EUR .5", "5.", "$ - 5", "10 EUR ! x", "10 EUR * 2"]
    toks = ["10", "-", ".", "5", "EUR", "$", '"a b"', " ", " ", "@", "@@", "=", ";", "USD", ",", "2.50", "-3", "  "]
    i = 0
    pool = good * 2 + junk
    g.r.shuffle(pool)
    while i < n:
        raws = []
        for _ in range(3):
            if i < len(pool):
                raws.append(pool[i])
            elif g.p(0.4):
                raws.append(number_text(g) + g.pick([" EUR", "EUR", " $", ' "a b"', "", " EUR = 1 EUR", ' "x; y"', ' "a-b.c"', ' "@"', ' "="', ' "7"', ' "(x)"']))
            else:
                raws.append("".join(g.pick(toks) for _ in range(g.r.randint(1, 6))))
            i += 1
        for raw in raws:
            if "\t" in raw:
                continue
            ps = [rawpost("A:x", raw), post("B:y")]
            if g.p(0.3):
                ps.reverse()
            yield case(single([txn([2020, 1, 1], "amount", ps)]), [FLAT(), REG(), CHECK()])
    for name in g.some([" x", "x ", " x ", "  x", "a  b", "x;", ";", "-", ".", "=x", "@ 2", "1 2", "'", "ñ €", "a:b", "*"], 6, 9):
        q = g.pick(["1", "-2.5"])
        raw = g.pick(['%s "%s"' % (q, name), '"%s" %s' % (name, q), '%s "%s" @ 2 EUR' % (q, name), '3 EUR @ 2 "%s"' % name, '%s "%s" = %s "%s"' % (q, name, q, name)])
        yield case(single([txn([2020, 1, 1], "quoted", [rawpost("A:x", raw), post("B:y")])]), [CHECK()] if name.strip() != name or "  " in name else [CHECK(), REG(), FLAT()])
    # every digit counts: multiply it into sight
    for _ in range(n // 4):
        k = g.r.randint(1, 30)
        q = g.pick(["", "-"]) + g.pick(["0", "1", "12345678901234567890"]) + "." + "".join(g.pick("0123456789") for _ in range(k))
        big = "1" + "0" * k
        x = g.r.random()
        if x < 0.4:
            yield case(single([txn([2020, 1, 1], "digits", [rawpost("A:x", big + " ACME @ " + q.strip("-") + " EUR"), post("B:y")])]), [REG(), FLAT()])
        elif x < 0.7:
            yield case(single([txn([2020, 1, 1], "digits", [rawpost("A:x", q + " ACME @ " + big + " EUR"), post("B:y")])]), [REG(), FLAT()])
        elif x < 0.85:
            yield case(single([price([2020, 1, 1], "ACME", q.strip("-"), "EUR"), txn([2020, 1, 1], "a", [post("A", big, "ACME"), post("B")])]), [FLAT(x="EUR")])
        else:
            d = dec(F(q) * F(big))
            yield case(single([auto([A("A")], [autopost("V:v", "mul", q, k="V")]), txn([2020, 1, 1], "a", [post("A", big, "ACME"), post("B")])]), [FLAT()])
    # text that is no value expression, or more than one
    bad = ["(amount * 2) EUR", "(amount) 2", "(amount * 2) (3)", "(2 * amount", "(amount * )", "(amount amount)", "(1,000 EUR)", "()", "(2 ** amount)", "(nothing)",
           "(amount > 1 EUR)", "(1.2.3 EUR)", "(amount + 1 EUR))", "(1e3 EUR)", "(2) EUR", "(EUR)", "(- EUR)", "(amount) = 3 EUR", "(amount) @ 3 EUR"]
    for q in bad if n > 300 else g.r.sample(bad, 9):
        yield case(single([auto([A("A")], [autopost("V:v", "expr", e={"o": "junk", "s": q}, k="V")]),
                           txn([2020, 1, 1], "a", [post(g.pick(["A", "A:B", "C"]), "3", "EUR"), post("B")])]), [FLAT(), CHECK()])
    # the same in prices
    for q in ["1", "0.5", "00.50", "12345678901234567890.123456789", "1000"]:
        yield case(single([price([2020, 1, 1], "ACME", q, "EUR"), txn([2020, 1, 1], "a", [post("A", "3", "ACME"), post("B")])]), [run("prices"), FLAT(x="EUR")])


def number_text(g):
    s = g.pick(["", "", "-"])
    k = g.r.random()
    digits = lambda a, b: "".join(g.pick("0123456789") for _ in range(g.r.randint(a, b)))
    if k < 0.6:
        return s + digits(1, 6) + (("." + digits(1, 8)) if g.p(0.6) else "")
    if k < 0.8:
        return s + digits(1, 40) + "." + digits(1, 40)
    return "".join(g.pick("0123456789.-") for _ in range(g.r.randint(1, 8)))


# ------------------------------------------------------------------ whole journals

def kitchen(g, **kw):
    k = dict(n=(4, 9), posts=(2, 5), accs=7, coms=(2, 4), elide=0.4, cost=0.15, exch=0.3, asr=0.1, assign=0.05, virt=0.2, bvirt=0.1, tags=0.25, payee=0.3, comless=0)
    k.update(kw)
    j = journal(g, **k)
    items = j["files"]["main.dat"]
    if g.p(0.5):
        items.insert(g.r.randint(0, len(items)), auto([g.pick([A("exp"), A("assets"), TAG("food"), PAY("shop")])],
                                                      [autopost("V:auto", "mul", g.pick(["1", "-0.5"]), k="V")], g.some([":auto:"], 0)))
    for _ in range(g.r.randint(0, 3)):
        a, b = g.some(["EUR", "USD", "ACME", "GBP"], 2, 2)
        items.insert(g.r.randint(0, len(items)), price(g.date(), a, dec(abs(g.amount("two"))), b))
    for d in decls(g, j, 0.3):
        items.insert(g.r.randint(0, len(items)), d)
    if g.p(0.4):
        items.insert(0, com("EUR", ["€"]))
    if g.p(0.4):
        items.append(payee("Supermarket", ["Mercadona.*"]))
    return j


def c21(g, n):
    for i in range(n):
        j = kitchen(g, coms=(3, 6), accs=10, n=(5, 10))
        items = j["files"]["main.dat"]
        if g.p(0.35):       # several ways to convert, equally recent
            d = g.date()
            mids = g.some(["MA", "MB", "MC", "MD"], 2, 4)
            for m in mids:
                a, b = ("SRC", m) if g.p(0.6) else (m, "SRC")
                items.append(price(d, a, g.pick(["2", "3", "0.5", "7"]), b))
                a, b = ("EUR", m) if g.p(0.4) else (m, "EUR")
                items.append(price(d, a, g.pick(["2", "3", "0.25", "11", "5"]), b))
            items.append(txn(g.date(), "tie", [post("T:src", g.pick(["1", "100", "7"]), "SRC"), post("T:other")]))
        if g.p(0.35) and not any(it["k"] == "payee" for it in items):       # spellings of one payee
            for it in items:
                if it["k"] == "txn" and not it["pay"] and g.p(0.4):
                    it["desc"] = g.pick(["Corner shop", "CORNER SHOP", "corner shop", "Corner Shop", "corner Shop"])
        # prices of one pair and date in another order may mean another rate
        uniq = len({(tuple(it["date"]), frozenset((it["c"], it["to"]))) for it in items if it["k"] == "price"}) == \
            len([it for it in items if it["k"] == "price"]) and not any(p["cost"] for t in items if t["k"] == "txn" for p in t["ps"])
        all_runs = [TREE(times=3, _across=True), FLAT(times=2, _across=True), REG(times=3, _across=True), run("accounts", _across=True),
                    run("payees", _across=True), run("commodities", times=2, _across=True), run("prices", times=3),
                    TREE(x="EUR", times=5, _across=uniq), FLAT(x="USD", times=3, _across=uniq), CHECK()]
        # another order: transactions of one date keep their order
        seq = list(items)
        perm = list(range(len(seq)))
        g.r.shuffle(perm)
        out = [seq[k] for k in perm]
        slots = {}
        for k, it in enumerate(out):
            if it["k"] == "txn":
                slots.setdefault(tuple(it["date"]), []).append(k)
        for d, ks in slots.items():
            orig = [it for it in seq if it["k"] == "txn" and tuple(it["date"]) == d]
            for k, it in zip(ks, orig):
                out[k] = it
        autos = [it for it in seq if it["k"] == "auto"]
        ks = [k for k, it in enumerate(out) if it["k"] == "auto"]
        for k, it in zip(ks, autos):
            out[k] = it
        lay = Layout()
        yield case(j, all_runs, texts=[render(j, lay), render(single(out), lay)])


def c22(g, n):
    for i in range(n):
        j = kitchen(g, n=(2, 6), style=g.pick(["int", "two"]))
        yield case(j, [REG(), FLAT(), run("accounts"), run("payees"), run("prices"), CHECK(), REG(q=[g.pick([TAG("food"), TAG("kind"), A("a")])])],
                   [Layout(g.r, True) for _ in range(2)])


def c23(g, n):
    TAGC = [":food:", ":a:b:", ":a:b:c:", "kind: home", "kind:office", "Project: Alpha beta", "just words", "see :x:", "a: b: c", "::", ":", ": x", "name:", "x :tag:",
            ":Food:", "value:  spaced  ", "url http://x", ":one two:", "kind: home, work", "no tags here", " :late: ", ":tr:  ", "12:30", ":a: trailing", "Ñu: é"]
    for i in range(n):
        j = tagged_journal(g, n=(2, 4), virt=0.2, bvirt=g.pick([0, 0.2]), assign=g.pick([0, 0, 0.3]), asr=g.pick([0, 0.3]), cost=g.pick([0, 0.3]), elide=g.pick([0.2, 0.7]))
        items = j["files"]["main.dat"]
        for t in items:
            t["cs"] = [g.pick(TAGC) for _ in range(g.pick([0, 0, 1, 1, 2]))]
            for p in t["ps"]:
                p["cs"] = [g.pick(TAGC) for _ in range(g.pick([0, 0, 0, 1, 1, 2]))]
        if g.p(0.4):
            items.append(auto([A(g.pick(["assets", "exp", "a"]))], [autopost("V:t", "mul", "1", k="V")], [g.pick([":food:", "kind: auto", ":auto:"])]))
        runs = []
        for _ in range(4):
            w = g.pick(["food", "a", "kind", "project", "x", "b", "c", "tag", "late", "value", "auto", "one two", "ñu", "tr", "name", "12"])
            runs.append(REG(q=[TAG(w)]))
        for _ in range(4):
            x = g.pick([{"o": "re", "s": g.pick(["kind", "Proj", "ood", "val", "a"]), "ci": False}, {"o": "str", "s": g.pick(["kind", "value", "Project", "name", "food"])}])
            e = g.pick([
                {"o": "has_tag", "x": {"o": "re", "s": g.pick(["food", "^a$", "kind", "F"]), "ci": g.p(0.3)}},
                {"o": "=~", "l": {"o": "tag", "x": x}, "r": {"o": "re", "s": g.pick(["home", "off", "beta$", "^spaced$", "^home$", "auto"]), "ci": False}},
                {"o": "==", "l": {"o": "tag", "x": x}, "r": {"o": "str", "s": g.pick(["home", "office", "spaced", "Alpha beta"])}}])
            runs.append(FLAT(q=[EX(e)]) if g.p(0.3) else REG(q=[EX(e)]))
        yield case(j, runs + [REG()])


BADTEXT = ["this is no entry", "2020/13/01 Bad month\n    A  1 EUR\n    B", "2020/02/30 Bad day\n    A  1 EUR\n    B", "2020/1-2 Mixed\n    A  1 EUR\n    B",
           "2020/01/01 x\n    A  1,000 EUR\n    B", "2020/01/01 x\n    A  1 EUR 2\n    B", "P 2020/01/01 ACME x EUR", "P 2020/01/01 ACME", "P 2020/13/01 A 1 B", "commodity", "account",
           "2020/01/01 x\n    A  (1 EUR)\n    B", "= expr\n    A  1", "20200101 x\n    A  1 EUR\n    B", "    Orphan  1 EUR", "2020/01/01x\n    A  1 EUR\n    B", "foo bar\n    baz",
           "2020/01/01 x\n    [A]\n    B  0 EUR", "2020/01/01 x\n    A  1 EUR\n    B  1 EUR", "2020/01/01 x\n    A  1 EUR = 77 EUR\n    B", "2020/01/01 x\n    A\n    B"]


def every_command(nc=False):
    return [TREE(nc=nc), FLAT(nc=nc), REG(nc=nc), run("accounts", nc=nc), run("payees", nc=nc), run("commodities", nc=nc), run("prices", nc=nc), CHECK()] + \
           [FLAT(nc=nc, q=[A("zzz")]), REG(nc=nc, b=[[2050, 1, 1]]), TREE(nc=nc, x="EUR", depth=1)]


def c24(g, n):
    for i in range(n):
        j = kitchen(g, unbal=g.pick([0, 0, 0.15]), wrong=g.pick([0, 0.3]), n=(2, 5))
        items = j["files"]["main.dat"]
        x = g.r.random()
        if x < 0.35:
            b = bad(g.pick(BADTEXT[:17]))
            items.insert(g.pick([0, len(items), g.r.randint(0, len(items))]), b)
        elif x < 0.6:
            ps, d = g.pick([
                ([post("A", "1", "EUR"), post("B", "1", "EUR")], [2020, 1, 1]),
                ([post("A", "1", "EUR"), post("B"), post("C")], [2020, 1, 1]),
                ([post("V:x", k="B"), post("A", "0", "EUR")], [2020, 1, 1]),
                ([post("V:x", "1", "EUR", k="B"), post("A", "0", "EUR")], [2020, 1, 1]),
                ([post("Z:z", "1", "EUR", asr=("2", "EUR")), post("B")], [2020, 1, 1]),
                ([post("Z:z", "0", "ACME", cost=("T", "1", "EUR")), post("B")], [2020, 1, 1]),
                ([post("A", "1", "EUR"), post("B")], [2021, 2, 29]),
                ([rawpost("A", "1 EUR x"), post("B")], [2020, 1, 1])])
            items.insert(g.pick([0, len(items), g.r.randint(0, len(items))]), txn(d, "bad", ps))
        elif x < 0.65:
            items.append(auto([A("")] if False else [A("a")], [autopost("Auto:Bad", "fix", "1", "EUR")]))
        yield case(j, every_command() + every_command(True)[:4])
    for i in range(n // 3):       # mangled text: all commands must agree
        j = kitchen(g, n=(2, 4))
        t = mangle(g, render_file(j["files"]["main.dat"], Layout(g.r, g.p(0.5))))
        yield opaque({"main.dat": t}, [r for r in every_command() if r["cmd"] != "prices" or True])


def mangle(g, t):
    for _ in range(g.r.randint(1, 3)):
        if not t:
            break
        x = g.r.random()
        i = g.r.randint(0, len(t) - 1)
        k = g.r.randint(1, 8)
        if x < 0.25:
            t = t[:i] + t[i + k:]
        elif x < 0.5:
            t = t[:i] + g.pick(list("()[]{}\"'@=;:*!/.-%&|<>P\n\t \r~€ñ\\0")) + t[i:]
        elif x < 0.65:
            t = t[:i]
        elif x < 0.8:
            t = t[:i] + t[i:i + k] * 2 + t[i + k:]
        elif x < 0.9:
            ls = t.split("\n")
            a = g.r.randint(0, len(ls) - 1)
            ls.insert(g.r.randint(0, len(ls)), ls[a])
            t = "\n".join(ls)
        else:
            t = t[:i] + g.pick(["include main.dat\n", "(", "\"", "\n= expr (", "\n= ", "\ncomment\n", "\ntag x\n    ;", "account ", "\npayee ", "alias", "\nP ", "\n\n\n", "((((((((", "; :", "@@", "@ @"]) + t[i:]
    return t


def c26(g, n):
    for i in range(n):
        j = kitchen(g, n=(1, 4), payee=0.5, desc=0.8)
        items = j["files"]["main.dat"]
        for _ in range(g.r.randint(0, 3)):
            items.insert(g.r.randint(0, len(items)), g.pick([
                lambda: acc(g.pick(["Declared:Only", "Zeta", "declared:lower", "Ñu:z", "Assets:0"])),
                lambda: com(g.pick(["XAU", "S&P 600", "zloty"]), []),
                lambda: payee(g.pick(["Declared payee", "zed", "Águila"]))])())
        seen = set()
        out = []
        for it in items:
            key = (it["k"], it.get("n", "").lower())
            if it["k"] in ("acc", "com", "pay"):
                if key in seen:
                    continue
                seen.add(key)
            out.append(it)
        items[:] = out
        if g.p(0.4):
            t = g.pick([x for x in items if x["k"] == "txn"])
            t["ps"].append(post(variant(g, t["ps"][0]["a"]), "1", "eur", k="V"))
        if g.p(0.3):
            items.append(auto([A(g.pick(["zzz", "a"]))], [autopost("Auto:Only", "fix", "2", g.pick(["PTS", "EUR"]), k="V")]))
        if g.p(0.3):
            items.append(price(g.date(), "Onlyprice", "2", "EUR"))
        if g.p(0.2):
            items.append(txn(g.date(), "nothing", []))
        yield case(j, [run("accounts"), run("payees"), run("commodities"), run("commodities", _cmd="currencies"), run("accounts", nc=True)])


SHORT = ["= expr (((", "2020/01/01", "2020/01/01 x", "2020/01/01 x\n", "2020/01/01 x\n  A", "2020/01/01 x\n  A  ", "2020/01/01 x\n  A  1", "2020/01/01 x\n  A  \"", "2020/01/01 x\n  (A",
         "2020/01/01 x\n  [A", "2020/01/01 x ;", "2020/01/01 x\n ;", "tag", "tag x", "tag x\n  ;", "tag x\n  check", "account", "account x\n alias", "account x\n  alias ", "account x\n  payee (",
         "payee", "payee x\n  alias (", "payee x\n  alias", "commodity", "commodity \"", "commodity x\n  alias", "P", "P ", "P 2020/01/01", "include", "include ", "include x", "include *", "include [",
         "include main.dat", "include ./main.dat", "include *.dat", "comment", "comment\n", "comment\nend comment", "test\n", ";", "#", "%", "*", "!", "=", "= ", "= a\n", "= a\n  B", "= a\n  B  (", "= a\n  B  ()", "= a\n  B  1",
         "= expr \"", "= expr \"amount\"\n  B  1", "= expr \"(\"\n B  1", "\n", "\r\n", "\r", "\t", " ", "  x", "\ufeff", "\0", "2020/01/01 x\n\t", "2020/01/01 x\n  A  1 EUR @", "2020/01/01 x\n  A  1 EUR @@", "2020/01/01 x\n  A  =",
         "2020/01/01 x\n  A  1 EUR =", "2020/01/01 \"", "2020/01/01 (", "2020/01/01 (a", "2020/01/01 * ", "2020/01/01=", "2020/01/01=2020/01/02", "~ monthly", "~ monthly\n  A  1", "alias x=y", "apply account", "Y2020",
         "bucket A", "D 1 EUR", "N EUR", "define x=1", "2020/01/01 x\n  A  1 EUR ; :", "2020/01/01 x\n  A  1 EUR\n  B\n  ; :a", "year 2020", "end", "99999999999999/01/01 x\n  A  1", "-1/01/01 x\n  A  1 E\n B"]


def c27(g, n):
    few = lambda: g.some([TREE(), REG(), run("accounts"), run("payees"), CHECK(), run("prices"), run("commodities")], 3, 3)
    pool = list(SHORT)
    g.r.shuffle(pool)
    for s in pool:
        yield opaque({"main.dat": s}, few(), timeout=10)
    for i in range(n):
        j = kitchen(g, n=(1, 4))
        t = render_file(j["files"]["main.dat"], Layout(g.r, g.p(0.5)))
        if g.p(0.5):
            t = t[:g.r.randint(0, len(t))]
        else:
            t = mangle(g, t)
        if g.p(0.15):
            t = t + "\n" + g.pick(SHORT)
        yield opaque({"main.dat": t}, few(), timeout=10)
    for i in range(n // 6):       # include graphs, some cyclic
        k = g.r.randint(1, 4)
        fs = ["main.dat"] + ["f%d.dat" % x for x in range(1, k)]
        files = {}
        for f in fs:
            its = [txn([2020, 1, 1], f, [post("A:x", "1", "EUR"), post("B")])]
            for t in fs:
                if g.p(0.35):
                    its.insert(g.r.randint(0, len(its)), inc(g.pick(["", "./"]) + t, [t]))
            files[f] = its
        yield case({"main": "main.dat", "files": files}, [CHECK(), REG(), FLAT()], timeout=10)
    for i in range(n // 20 + 1):    # deep nesting and long inputs
        d = g.pick([20, 50, 100])
        yield opaque({"main.dat": "= expr \"" + "(" * d + "1 < 2" + ")" * g.pick([d, d - 1]) + "\"\n  A  1\n\n2020/01/01 x\n  A  1 EUR\n  B\n"}, few(), timeout=10)
        d = g.pick([10, 150, 300, 700, 1000, 1500, 3000, 12000])
        e = g.pick(["(" * d + "1 < 2" + ")" * d, "1+" * d + "1 > 2", "!" * d + "(1 < 2)", "not " * d + "1 < 2", "-" * d + "1 < 2", "abs(" * d + "1" + ")" * d + " > 0",
                    "-(" * d + "1" + ")" * d + " < 2", "1 < 2 and " * d + "1 < 2", "1 < 2 | " * d + "2 < 1", "2 * " * d + "1 EUR > amount", "any(" * (d // 10) + g.pick(["1 < 2", "2 < 1", "amount > 0"]) + ")" * (d // 10)])
        yield opaque({"main.dat": "= expr \"" + e + "\"\n  (A)  1\n\n2020/01/01 x\n  A  1 EUR\n  B\n"}, few(), timeout=20)
        yield opaque({"main.dat": "= A\n  (A)  (" + g.pick(["1+" * d + "1", "-" * d + "1", "(" * d + "2" + ")" * d]) + ")\n\n2020/01/01 x\n  A  1 EUR\n  B\n"}, few(), timeout=20)
        yield opaque({"main.dat": "= " + "A " * d + "\n  (A)  1\n\n2020/01/01 x\n  A  1 EUR\n  B\n"}, few(), timeout=20)
        k = g.pick([30, 150, 300])
        fs = {"f%d.dat" % x: "include f%d.dat\n" % (x + 1) for x in range(1, k)}
        yield opaque(dict(fs, **{"main.dat": "include f1.dat\n", "f%d.dat" % k: "2020/01/01 x\n  A  1 EUR\n  B\n"}), few(), timeout=20)
        yield opaque({"main.dat": "2020/01/01 " + "x" * 5000 + "\n  " + "A:" * 500 + "x  1 EUR\n  B\n"}, few(), timeout=10)
        k = g.pick([200, 600])
        yield opaque({"main.dat": "".join("2020/01/%02d t%d\n  A:x%d  %d EUR\n  B\n\n" % (x % 28 + 1, x, x % 7, x + 1) for x in range(k)) + g.pick(["", "2020/01/01 z\n  A  1 EUR\n  B  2 EUR\n"])}, few(), timeout=10)


def c28(g, n):
    for i in range(n):
        items = []
        for _ in range(g.r.randint(1, 5)):
            y = g.pick([2020, 2020, 2019, 2021, 1999, 2000, 1900, 2100, 2400, 1970, 1583, 9999, 1, 12, 300])
            d = [y, g.r.randint(1, 12), g.r.randint(1, 28)]
            if g.p(0.25):
                d = g.pick([[2020, 2, 29], [2019, 2, 28], [2000, 2, 29], [2400, 2, 29], [2020, 12, 31], [2020, 4, 30], [2020, 1, 31], [2020, 10, 10], [2020, 11, 12], [2020, 12, 1]])
            if g.p(0.06):
                d = g.pick([[2019, 2, 29], [1900, 2, 29], [2100, 2, 29], [2020, 4, 31], [2020, 6, 31], [2020, 2, 30], [2021, 9, 31]])
            s = g.pick("/-.")
            txt = g.pick(["%d%s%02d%s%02d", "%04d%s%02d%s%02d", "%d%s%d%s%d"]) % (d[0], s, d[1], s, d[2])
            kw = {}
            if g.p(0.2):
                kw["time"] = g.pick(["00:00:00", "12:30:59", "19:59:59", "20:00:00", "23:59:59", "09:08:07", "10:11:12.5"])
            if g.p(0.25):
                e = g.date()
                kw["eff"] = "%d/%02d/%02d" % tuple(e)
                if g.p(0.1):
                    kw["eff"] += " 10:00:00"
            if g.p(0.3):
                kw["status"] = g.pick("*!")
            if g.p(0.15):
                kw["code"] = g.pick(['"abc"', '"1 2"', "'x'"])
            desc = g.pick(["Shop", "A * B", "Wow!", "x=y", "2020/01/01 again", "(paren) text", "12:30:00 meeting", "1/2 price", "Café", "a - b", "10 EUR", "=eq", "=2020/01/05", "Mr. X: y", "Two  spaces", "a   b  c", "don't", ""])
            if desc == "" and (kw.get("code") or False):
                desc = "d"
            if desc.startswith("(") and not kw.get("code"):
                desc = "Shop " + desc
            if desc.startswith("12:30") and not (" " in kw["eff"] if "eff" in kw else kw.get("time")):
                desc = "at " + desc
            if desc.startswith("=") and not kw.get("eff") and not kw.get("status"):
                kw["status"] = "*"
            pay = g.pick([None, None, "Payee", "Pay * ee", "Two words"])
            cs = g.some(["hello", ":tag:", "kind: home", "| not payee", "a | b; c"], 0, 1)
            if cs:
                kw["inl"] = True
            items.append(txn(d, desc, [post(g.pick(["A:x", "A:y"]), dec(g.amount("int")), "EUR"), post("B")], cs=cs, pay=pay, **kw))
            items[-1]["_date"] = txt
        x = g.r.random()
        if x < 0.2:
            items.append(bad(g.pick(["2020/13/01 x", "2020/00/01 x", "2020/01/32 x", "2020/01/00 x", "2020/1-2 x", "2020-1/2 x", "2020.1-2 x", "2020/01 x", "20200101 x", "2020/01/01/ x",
                                     "2020/1/1x", "2020//1/1 x", "2020/001/01 x", "2020/01/01=2020/13/01 x", "2020/01/01=2020/1-1 x"]) + "\n    A:x  1 EUR\n    B"))
        dd = g.pick(items)
        runs = [REG(), run("payees"), REG(b=[[2020, 1, 1]]), REG(e=[[2020, 6, 1]]), REG(q=[PAY(g.pick(["shop", "payee", "two", "wow", "caf"]))]), REG(q=[TAG("tag")]), CHECK()]
        yield case(single(items), runs)



# ---------------------------------------------------------------- C25 init files

def copt(n, i=0, d=None, s=""):
    return {"k": "opt", "n": n, "i": i, "d": d or [1, 1, 1], "s": s}


SHORTOPT = {"file": "-f", "depth": "-d", "begin": "-b", "end": "-e", "period": "-p"}


def opt_value(o, g):
    n = o["n"]
    if n == "depth":
        return str(o["i"]) if o["i"] >= 0 else "x"
    if n in ("begin", "end", "now"):
        return rc_date(g, o["d"])
    if n in ("file", "period", "date-format", "unrealized-gains", "unrealized-losses"):
        return o["s"]
    return None


def opt_words(o, g, cli=True):
    """An option as command line words."""
    v = opt_value(o, g)
    if v is None:
        return ["--" + o["n"]]
    forms = [["--" + o["n"], v]]
    if cli or " " not in v:
        forms.append(["--" + o["n"] + "=" + v])
    if cli and o["n"] in SHORTOPT:
        forms += [[SHORTOPT[o["n"]], v], [SHORTOPT[o["n"]] + v], [SHORTOPT[o["n"]], v]]
    return g.pick(forms)


def rc_text(lines, g):
    out = []
    for l in lines:
        if l["k"] == "nop":
            out.append(g.pick(["", "; comment", "# --depth 1", "! x", "% y", "   ", ";--flat", "  # indented"]))
        elif l["k"] == "bad":
            out.append(g.pick(["depth 2", "-d 2", "* note", "flat", "2020/01/01 x", "- --flat", "=x"]))
        else:
            out.append(g.pick([" ", " ", "  ", "\t"]).join(opt_words(l, g, False)) + g.pick(["", "", " ", "\t"]))
    nl = g.pick(["\n", "\n", "\n", "\r\n"])
    return nl.join(out) + g.pick([nl, nl, ""])


def cfg_case(g, j, files, runs):
    """files: init files by place; runs: (cmd, uses the named file, options, words of a query, its terms)."""
    extra, home = {}, {}
    if files.get("flag") is not None:
        extra["my.rc"] = rc_text(files["flag"], g)
    if files.get("cwd") is not None:
        extra[".ledgerrc"] = rc_text(files["cwd"], g)
    if files.get("home") is not None:
        home[".ledgerrc"] = rc_text(files["home"], g)
    out = []
    for cmd, named, cli, q in runs:
        words = [opt_words(o, g) for o in cli]
        if named:
            words.append(g.pick([["--init-file", "my.rc"], ["--init-file=my.rc"]]))
        g.r.shuffle(words)
        if q:
            words.insert(g.r.randint(0, len(words)), query_args(q))
        args = [cmd] + [w for ws in words for w in ws]
        r = run(cmd, args=args, q=q)
        wrap = lambda k: [files[k]] if files.get(k) is not None else []
        r["cfg"] = {"flag": wrap("flag") if named else [], "home": wrap("home"), "cwd": wrap("cwd")}
        r["cli"] = list(cli)
        flat = effective_flat(r)
        r["_flat"] = flat
        out.append(r)
    c = case(j, out)
    c["_extra"], c["_home"] = extra, home
    return c


def effective_flat(r):
    """How to read the report: indentation only means something in tree reports."""
    ls = list(r["cli"])
    for k in ("flag", "home", "cwd"):
        if r["cfg"][k]:
            ls += r["cfg"][k][0]
            break
    return any(l["k"] == "opt" and l["n"] == "flat" for l in ls)


def cfg_journal(g, wrong, main="main"):
    items = [txn([2020, 1, 1], "First", [post("A:B:C", "1", "EUR"), post("A:B", "2", "EUR"), post("D:E", None)]),
             txn([2020, 1, 2], "Second", [post("A:B:C", "4", "EUR"), post("V:W", "1", "USD", k="V"), post("D", None)]),
             txn([2020, 2, 1], "Third", [post("F", "8", "USD", asr=("9" if wrong else "8", "USD")), post("D:E", None)])]
    return {"main": main, "files": {main: items}}


def cfg_case_of(e, g):
    """A start-up explored by MC_Config."""
    r = e["run"]
    files = {k: (v[0] if v else None) for k, v in r["cfg"].items()}
    runs = [(r["cmd"], bool(r["cfg"]["flag"]), r["cli"], [])]
    return cfg_case(g, cfg_journal(g, g.p(0.3)), files, runs)


def c25(g, n):
    def value(n):
        if n == "depth":
            return copt(n, i=g.pick([1, 1, 2, 2, 3, -1] if g.p(0.2) else [1, 2, 3]))
        if n in ("begin", "end"):
            return copt(n, d=g.pick([[2020, 1, 1], [2020, 1, 2], [2020, 1, 3], [2020, 2, 1], [2020, 2, 2]]))
        if n == "file":
            return copt(n, s=main if g.p(0.8) else "missing")
        if n == "now":
            return copt(n, d=[2020, 1, 2])
        if n == "period":
            return copt(n, s=g.pick(["monthly", "last month"]))
        if n == "date-format":
            return copt(n, s=g.pick(["%d-%m-%y", "%d %b %Y"]))
        if n in ("unrealized-gains", "unrealized-losses"):
            return copt(n, s=g.pick(["A:B", "Income:Not yet"]))
        return copt(n)
    names = ["depth", "begin", "end", "flat", "real", "no-total", "no-balance-check", "file", "period", "effective", "strict", "now", "date-format",
             "unrealized-gains", "unrealized-losses", "force-color", "force-pager"]
    names += names[:8]
    for _ in range(n):
        main = g.pick(["main", "main", "my journal.dat", "year/all my books.dat", "diario ñ.dat", "x"])
        def lines(p_bad):
            out = []
            for x in dict.fromkeys(g.some(names, 0, 5)):
                out.append(value(x))
            for _ in range(g.r.randint(0, 3)):
                out.insert(g.r.randint(0, len(out)), {"k": "nop"})
            if g.p(p_bad):
                out.insert(g.r.randint(0, len(out)), {"k": "bad"})
            if out and g.p(0.15) and out[-1]["k"] == "opt":
                out.append(value(out[-1]["n"]))      # twice: the first counts
            return out
        files = {k: lines(0.08) for k in ("flag", "home", "cwd") if g.p(0.55)}
        runs = []
        for _ in range(4):
            cmd = g.pick(["bal", "bal", "bal", "reg", "reg", "accounts", "check", "prices", "commodities"])
            pool = [x for x in names if cmd == "bal" or x not in ("flat", "no-total")]
            cli = [value(x) for x in dict.fromkeys(g.some(pool, 0, 4)) if x != "file"]
            if g.p(0.85):
                cli.append(copt("file", s=main))
            q = g.pick([[], [], [A("A")], [A("D"), A("F")], [PAY("First")]]) if cmd in ("bal", "reg") else []
            runs.append((cmd, files.get("flag") is not None and g.p(0.8), cli, q))
        yield cfg_case(g, cfg_journal(g, g.p(0.25), main), files, runs)


GENS = {k.upper(): v for k, v in list(globals().items()) if len(k) == 3 and k[0] == "c" and k[1:].isdigit()}
