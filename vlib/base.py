"""Random journals.  The generator keeps its own rough idea of balances only to
choose interesting values; what is right is decided by the specification."""
import random
from fractions import Fraction as F

from .journal import *
from .observe import run, opts

ACCS = ["Assets:Cash", "Assets:Bank", "Assets:Bank:Checking", "Assets:Banking", "Assets:Bank:Savings",
        "Expenses:Food", "Expenses:Food:Out", "Expenses:Rent", "Income:Salary", "Equity:Opening Balances",
        "Liabilities:Card", "Assets", "A:B:C:D", "A:B", "Expenses:Café", "Activo:Ñu"]
COMS = ["EUR", "USD", "ACME", "$", "€", "GBP", "S&P 500", "BTC"]
DESCS = ["Groceries", "Rent", "Coffee shop", "Salary", "Transfer", "Buy shares", "Cash machine", "Books & co",
         "Café Ñandú", "Gift (for Ann)", "x", "Two  blanks", "Pay 20 EUR back"]


def dec(x):
    """A fraction with a finite decimal expansion as text."""
    x = F(x)
    sign = "-" if x < 0 else ""
    x = abs(x)
    n, d = x.numerator, x.denominator
    k = 0
    while d != 1:
        if k > 60:
            raise ValueError("no finite expansion")
        n, k = n * 10, k + 1
        g = F(n, d)
        n, d = g.numerator, g.denominator
    s = str(n)
    if k:
        s = s.rjust(k + 1, "0")
        s = s[:-k] + "." + s[-k:]
    return sign + s


class G:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def p(self, x):
        return self.r.random() < x

    def pick(self, s):
        return self.r.choice(s)

    def some(self, s, lo=1, hi=None):
        s = list(s)
        return self.r.sample(s, self.r.randint(lo, min(hi or len(s), len(s))))

    def amount(self, style=None):
        """A non-zero decimal as a fraction."""
        r = self.r
        style = style or r.choice(["int", "int", "two", "two", "two", "one", "three", "tiny", "big", "long"])
        if style == "int":
            x = F(r.randint(1, 40))
        elif style == "one":
            x = F(r.randint(1, 99), 10)
        elif style == "two":
            x = F(r.randint(1, 9999), 100)
        elif style == "three":
            x = F(r.randint(1, 9999), 1000)
        elif style == "tiny":
            x = F(r.randint(1, 99), 10 ** r.randint(3, 9))
        elif style == "big":
            x = F(r.randint(10 ** 6, 10 ** 14), r.choice([1, 100]))
        else:
            x = F(r.randint(1, 10 ** 9), 10 ** r.randint(4, 9))
        return -x if r.random() < 0.45 else x

    def date(self, lo=2019, hi=2021):
        r = self.r
        if r.random() < 0.25:
            return r.choice([[2020, 2, 29], [2019, 12, 31], [2020, 1, 1], [2020, 12, 31], [2021, 1, 1], [2020, 2, 28], [2020, 3, 1]])
        return [r.randint(lo, hi), r.randint(1, 12), r.randint(1, 28)]

    def dates(self, n, spread=None):
        """n dates in file order; often repeated, rarely sorted."""
        k = self.r.randint(1, max(1, n)) if spread is None else spread
        pool = [self.date() for _ in range(k)]
        ds = [self.pick(pool) for _ in range(n)]
        if self.p(0.35):
            ds.sort()
        elif self.p(0.2):
            ds.sort(reverse=True)
        return ds


# defaults of the knobs of journal()
KNOBS = dict(n=(1, 6), posts=(2, 5), accs=5, coms=(1, 3), elide=0.4, cost=0.0, exch=0.0, asr=0.0, wrong=0.0, assign=0.0,
             virt=0.0, bvirt=0.0, tags=0.0, payee=0.0, desc=0.9, zero=0.03, style=None, unbal=0.0, comless=0.03,
             accpool=None, compool=None, dates=None, spell=None)


class Maker:
    """Fills transactions in date order, keeping balances, so that assertions
    and assignments can be made right or nearly right."""

    def __init__(self, g, **kw):
        self.g = g
        self.k = dict(KNOBS)
        bad = set(kw) - set(KNOBS)
        assert not bad, bad
        self.k.update(kw)
        r = g.r
        pool = self.k["accpool"] or ACCS
        self.accs = r.sample(pool, min(len(pool), max(2, self.k["accs"])))
        cp = self.k["compool"] or COMS
        self.coms = r.sample(cp, min(len(cp), r.randint(*self.k["coms"])))
        if g.p(self.k["comless"]):
            self.coms.append("")
        self.bal = {}
        self.spell = self.k["spell"] or (lambda a: a)

    def get(self, a, c):
        return self.bal.get((a, c), F(0))

    def add(self, a, c, q):
        self.bal[(a, c)] = self.get(a, c) + q

    def near(self, x):
        g = self.g
        return x + g.pick([F(1), F(-1), F(1, 100), F(-1, 100), F(1, 10 ** 9), -2 * x if x else F(1), F(5), F(1, 1000)])

    def asr_for(self, a, c):
        g, k = self.g, self.k
        if g.p(0.2):        # about another commodity, or all of them
            c2 = g.pick(self.coms)
            v = self.get(a, c2)
            if g.p(k["wrong"]):
                v = self.near(v)
            return (dec(v), c2)
        if all(v == 0 for (x, _), v in self.bal.items() if x == a) and g.p(0.5):
            return ("0", "")
        v = self.get(a, c)
        if g.p(k["wrong"]):
            v = self.near(v)
            if g.p(0.1):
                return ("0", "")
        return (dec(v), c)

    def cs(self):
        g = self.g
        out = []
        if g.p(self.k["tags"]):
            for _ in range(g.r.randint(1, 2)):
                out.append(g.pick([":food:", ":a:b:", "kind: home", "Project: Alpha beta", "just words", ":trip:",
                                   "kind: office", "see :x: there", "a: b: c", "note to self", ":Food:", "value:  spaced"]))
        return out

    def txn(self, date):
        g, k, r = self.g, self.k, self.g.r
        n = r.randint(*k["posts"])
        ps = []
        res = {}
        elided = g.p(k["elide"])
        tot = n - 1
        el_at = r.randint(0, tot) if elided else -1

        def count(c, q):
            res[c] = res.get(c, F(0)) + q

        for i in range(tot):
            a = g.pick(self.accs)
            c = g.pick(self.coms)
            q = F(0) if g.p(k["zero"]) else g.amount(k["style"])
            cost = asr = None
            if k["assign"] and g.p(k["assign"]):
                v = g.amount(k["style"])
                if g.p(0.2):
                    v = self.get(a, c) * g.pick([1, 1, -1, -1, 2]) + g.pick([0, 0, F(1, 100)])
                if g.p(0.15) and sum(1 for (x, _), y in self.bal.items() if x == a and y) <= 1:
                    for (x, cc), y in list(self.bal.items()):
                        if x == a and y:
                            count(cc, -y)
                            self.bal[(a, cc)] = F(0)
                    ps.append(post(self.spell(a), asr=("0", ""), cs=self.cs()))
                    continue
                count(c, v - self.get(a, c))
                self.bal[(a, c)] = v
                ps.append(post(self.spell(a), asr=(dec(v), c), cs=self.cs()))
                continue
            if k["cost"] and g.p(k["cost"]) and q != 0:
                other = g.pick([x for x in COMS if x != c][:4] + [x for x in self.coms if x != c])
                t = g.pick("UT")
                m = abs(g.amount(k["style"]))
                cost = (t, dec(m), other)
                count(other, q * m if t == "U" else (m if q > 0 else -m))
            else:
                count(c, q)
            self.add(a, c, q)
            if k["asr"] and g.p(k["asr"]):
                asr = self.asr_for(a, c)
            ps.append(post(self.spell(a), dec(q), c, cost=cost, asr=asr, cs=self.cs()))
        left = [(c, v) for c, v in res.items() if v]
        if g.p(k["unbal"]):
            c = g.pick(self.coms)
            left = [(c2, self.near(v) if c2 == c else v) for c2, v in left] or [(c, self.near(F(0)))]
            if g.p(0.2):
                left = left[:-1]
        elif k["exch"] and not elided and len(left) == 2 and left[0][1] * left[1][1] < 0 and g.p(k["exch"]):
            left = []
        if elided:
            a = g.pick(self.accs)
            for c, v in left:
                self.add(a, c, -v)
            ps.insert(el_at, post(self.spell(a), cs=self.cs()))
        else:
            for c, v in left:
                a = g.pick(self.accs)
                self.add(a, c, -v)
                asr = self.asr_for(a, c) if g.p(k["asr"] / 2) else None
                ps.append(post(self.spell(a), dec(-v), c, asr=asr, cs=self.cs()))
        extra = []
        if g.p(k["virt"]):
            for _ in range(r.randint(1, 2)):
                extra.append(post(self.spell(g.pick(self.accs)), dec(g.amount(k["style"])), g.pick(self.coms), k="V", cs=self.cs()))
        if g.p(k["bvirt"]):
            c, v = g.pick(self.coms), g.amount(k["style"])
            extra += [post(self.spell(g.pick(self.accs)), dec(v), c, k="B"), post(self.spell(g.pick(self.accs)), dec(-v), c, k="B")]
        for e in extra:
            ps.insert(r.randint(0, len(ps)), e)
        pay = g.pick(["Shop", "ACME Inc.", "Me", "Mercadona 12"]) if g.p(k["payee"]) else None
        desc = g.pick(DESCS) if g.p(k["desc"]) else ""
        return txn(date, desc, ps, cs=self.cs(), pay=pay)

    def txns(self):
        g = self.g
        ds = self.k["dates"] or g.dates(g.r.randint(*self.k["n"]))
        order = sorted(range(len(ds)), key=lambda i: ds[i])
        out = [None] * len(ds)
        for i in order:
            out[i] = self.txn(ds[i])
        return out


def single(items):
    return {"main": "main.dat", "files": {"main.dat": list(items)}}


def journal(g, **kw):
    m = Maker(g, **kw)
    return single(m.txns())


def case(j, runs, layouts=None, **hints):
    c = {"in": j, "runs": list(runs)}
    if layouts:
        c["_layouts"] = layouts
    c.update({"_" + k: v for k, v in hints.items()})
    return c


def opaque(texts, runs, **hints):
    """A case about which the specification only demands agreement."""
    c = {"in": {"main": "", "files": {"x": []}}, "runs": list(runs), "_texts": [texts], "_opaque": True, "_main": "main.dat",
         "_names": (set(), set())}
    c.update({"_" + k: v for k, v in hints.items()})
    return c


A = lambda s: {"k": "acc", "s": s}
RE = lambda s: {"k": "re", "s": s}
PAY = lambda s: {"k": "pay", "s": s}
TAG = lambda s: {"k": "tag", "s": s}
EX = lambda e, **kw: dict({"k": "expr", "e": e}, **{"_" + k: v for k, v in kw.items()})
AND, OR = {"k": "and"}, {"k": "or"}
