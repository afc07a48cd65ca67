"""Journals as data (what the specification reads) and as text (what dinero reads).

Keys starting with "_" are layout hints; they are removed before the
specification sees the journal.
"""
import random
import re

# ---------------------------------------------------------------- constructors

def money(q, c):
    return {"q": str(q), "c": c}


def post(a, q=None, c=None, k="R", cost=None, asr=None, cs=(), **hints):
    """cost: (t, q, c) with t U or T; asr: (q, c)"""
    p = {"a": a, "k": k, "amt": [] if q is None else [money(q, c)],
         "cost": [] if cost is None else [{"t": cost[0], "q": str(cost[1]), "c": cost[2]}],
         "asr": [] if asr is None else [money(*asr)], "cs": list(cs)}
    p.update({"_" + k2: v for k2, v in hints.items()})
    return p


def rawpost(a, raw, k="R", cs=(), **hints):
    p = {"a": a, "k": k, "raw": raw, "cs": list(cs)}
    p.update({"_" + k2: v for k2, v in hints.items()})
    return p


def txn(date, desc, ps, cs=(), pay=None, **hints):
    t = {"k": "txn", "date": list(date), "desc": desc, "pay": [] if pay is None else [pay],
         "cs": list(cs), "ps": list(ps)}
    t.update({"_" + k2: v for k2, v in hints.items()})
    return t


def autopost(a, m, q="", c="", e=None, k="R"):
    return {"a": a, "k": k, "m": m, "q": str(q), "c": c, "e": e if e is not None else {"o": "num", "q": "0"}}


def auto(q, ps, cs=()):
    return {"k": "auto", "q": list(q), "cs": list(cs), "ps": list(ps)}


def price(date, c, q, to, **hints):
    d = {"k": "price", "date": list(date), "c": c, "q": str(q), "to": to}
    d.update({"_" + k2: v for k2, v in hints.items()})
    return d


def acc(n, al=(), pp=()):
    return {"k": "acc", "n": n, "al": list(al), "pp": list(pp)}


def com(n, al=()):
    return {"k": "com", "n": n, "al": list(al)}


def payee(n, al=()):
    return {"k": "pay", "n": n, "al": list(al)}


def inc(pattern, files):
    return {"k": "inc", "fs": list(files), "_pat": pattern}


def nop(text):
    return {"k": "nop", "_text": text}


def bad(text):
    return {"k": "bad", "_text": text}


def strip(x):
    """The journal without layout hints."""
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items() if not k.startswith("_")}
    if isinstance(x, (list, tuple)):
        return [strip(v) for v in x]
    return x


# ---------------------------------------------------------------- expressions

LEVEL = {"or": 1, "and": 2, "not": 3, "==": 4, "!=": 4, "=~": 4, "<": 4, ">": 4, "<=": 4, ">=": 4,
         "+": 5, "-": 5, "*": 6, "/": 6}


def expr_text(e, rng=None, level=1, quote="'", full=False):
    """Text of an expression with as few parentheses as precedence allows
    (or, with full, all of them)."""
    o = e["o"]
    sub = lambda x, l: expr_text(x, rng, l, quote, full)
    if o in ("amount", "account", "payee", "note", "date"):
        return o
    if o == "num":
        return e["q"]
    if o == "money":
        c = com_text(e["c"], quote)
        if rng and rng.random() < 0.3 and not e["q"].startswith("-"):
            return f"{c} {e['q']}"
        return f"{e['q']} {c}"
    if o == "re":
        return "/" + ("(?i)" if e["ci"] else "") + e["s"] + "/"
    if o == "str":
        return quote + e["s"] + quote
    if o == "dt":
        sep = rng.choice("/-") if rng else "/"
        return "to_date(%s%04d%s%02d%s%02d%s)" % (quote, e["d"][0], sep, e["d"][1], sep, e["d"][2], quote)
    if o in ("abs", "any", "has_tag", "tag"):
        return f"{o}({sub(e['x'], 1)})"
    if o == "neg":
        return "-" + sub(e["x"], 7)
    if o == "not":
        t = (rng.choice(["not ", "!"]) if rng else "not ") + sub(e["x"], 3)
        mine = 3
    else:
        mine = LEVEL[o]
        op = o
        if o in ("and", "or") and rng and rng.random() < 0.3:
            op = {"and": "&", "or": "|"}[o]
        t = f"{sub(e['l'], mine)} {op} {sub(e['r'], mine + 1)}"
    if mine < level or (full and level > 1):
        return "(" + t + ")"
    return t


def com_text(c, quote='"'):
    if c == "":
        return ""
    if re.fullmatch(r"[^\W\d_]+|[€$£]", c) and c not in ("and", "or", "not"):
        return c
    return quote + c + quote


def query_args(q, rng=None):
    """Command line words for query terms."""
    out = []
    for t in q:
        k = t["k"]
        if k in ("and", "or"):
            out.append(k)
        elif k == "acc":
            out.append(t["s"])
        elif k == "re":
            out.append("/" + t["s"] + "/")
        elif k == "pay":
            out.append("@" + t["s"])
        elif k == "tag":
            out.append("%" + t["s"])
        else:
            text = t.get("_text") or expr_text(t["e"], rng)
            # a leading minus would make it an option
            out += ["expr", "(" + text + ")" if text.startswith("-") else text]
    return out


def auto_query_text(q):
    out = []
    for w, t in zip_args(q):
        out.append(w)
    return " ".join(out)


def zip_args(q):
    for t in q:
        if t["k"] == "expr":
            yield 'expr "' + (t.get("_text") or expr_text(t["e"])) + '"', t
        else:
            yield query_args([t])[0], t


# ---------------------------------------------------------------- layouts

class Layout:
    """Choices that must not change what a journal means."""

    def __init__(self, rng=None, wild=False):
        self.rng = rng or random.Random(0)
        self.wild = wild
        r = self.rng
        self.indent = r.choice(["    ", "  ", "\t", " ", "      "]) if wild else "    "
        self.crlf = wild and r.random() < 0.25
        self.final = not (wild and r.random() < 0.3)
        self.date_sep = r.choice("-/.") if wild else "/"
        self.blank = wild
        self.pad = wild

    def sep(self):
        if not self.wild:
            return "    "
        return self.rng.choice(["  ", "    ", "\t", " \t", "\t\t", "            ", "  \t "])

    def trail(self):
        if self.wild and self.rng.random() < 0.2:
            return self.rng.choice([" ", "  ", "\t", "    "])
        return ""

    def gap(self):
        if not self.wild:
            return ["", ""]
        n = self.rng.choice([0, 1, 1, 2, 3])
        out = []
        for _ in range(n):
            out.append(self.rng.choice(["", "", "", "   ", "\t"]))
            if self.rng.random() < 0.06:
                out += self.rng.choice([["tag food"], ["tag Project", "  check value > 0", "  assert value != 'x'"], ["tag kind", "    ; words"], ["tag x y"]])
            if self.rng.random() < 0.25:
                out.append(self.rng.choice(";#%*!") + self.rng.choice(
                    [" a remark", "", " 2020/01/01 Not a transaction", " :tag:", " name: value", "  ; ;", " x  10 USD"]))
        return out

    def date(self, d):
        s = self.date_sep
        if self.wild and self.rng.random() < 0.3:
            return f"{d[0]}{s}{d[1]}{s}{d[2]}"
        return f"{d[0]:04d}{s}{d[1]:02d}{s}{d[2]:02d}"

    def money(self, m):
        c, q = m["c"], m["q"]
        t = com_text(c)
        if c == "":
            return q
        if not self.wild:
            return f"{q} {t}"
        x = self.rng.random()
        if x < 0.5:
            return f"{q} {t}"
        if x < 0.65:
            return f"{q}{t}" if t[0] != '"' else f"{q} {t}"
        if x < 0.85:
            return f"{t} {q}"
        return f"{t}{q}"


def render_tail(p, lay):
    if "raw" in p:
        return p["raw"]
    parts = []
    if p["amt"]:
        parts.append(lay.money(p["amt"][0]))
    sp = (lambda: " " * lay.rng.choice([1, 1, 2]) if lay.wild else " ")
    if p["cost"]:
        parts.append(sp() if parts else "")
        parts.append(("@@" if p["cost"][0]["t"] == "T" else "@") + sp() + lay.money(p["cost"][0]))
    if p["asr"]:
        parts.append(sp() if parts else "")
        parts.append("=" + sp() + lay.money(p["asr"][0]))
    return "".join(parts)


def bracket(p):
    return {"R": "%s", "V": "(%s)", "B": "[%s]"}[p["k"]] % p["a"]


def render_auto_tail(p, lay):
    if p["m"] == "fix":
        return lay.money({"q": p["q"], "c": p["c"]})
    if p["m"] == "mul":
        return p["q"]
    if p["e"]["o"] == "junk":
        return p["e"]["s"]
    return "(" + expr_text(p["e"], lay.rng if lay.wild else None) + ")"


def render_postings(out, ps, lay, tail):
    for p in ps:
        t = tail(p, lay)
        line = lay.indent + bracket(p)
        cs = list(p.get("cs", []))
        if t:
            line += lay.sep() + t
        if cs and (p.get("_inl") if "_inl" in p else lay.rng.random() < 0.5):
            line += ("  ; " if t else lay.sep().replace(" \t", "  ") + "; ") + cs.pop(0)
        else:
            line += lay.trail()
        out.append(line)
        for c in cs:
            if lay.wild and lay.rng.random() < 0.1:
                out.append("")
            out.append(lay.indent + lay.rng.choice(["; ", ";", ";  "] if lay.wild else ["; "]) + c)
        if lay.wild and tail is render_tail and lay.rng.random() < 0.12:
            out.append(lay.rng.choice(["", "   ", lay.indent + "; just some words", lay.indent + ";", lay.indent + "; alias x", lay.indent + "; 2020/01/01 no"]))


REMARKS = ["a comment", "the default", "alias Other:Name", "payee .*", "default", "account X", "note x", "include y.dat", "P 2020/01/01 EUR 2 USD", "  x  10 USD", "", "= all"]


def details(out, it, lay, others):
    """The lines of a declaration; those that say nothing about names go anywhere."""
    lines = ["alias " + a for a in it["al"]] + ["payee " + a for a in it.get("pp", [])]
    if lay.wild:
        r = lay.rng
        if r.random() < 0.3:
            r.shuffle(lines)
        for x in r.sample(others, r.choice([0, 0, 0, 1, 2])) if others else []:
            lines.insert(r.randint(0, len(lines)), x)
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            lines.insert(r.randint(0, len(lines)), r.choice(["; ", ";", ";; "]) + r.choice(REMARKS))
    for x in lines:
        out.append(lay.indent + x + lay.trail())
        if lay.blank and lay.rng.random() < 0.05:
            out.append(lay.rng.choice(["", "   "]))


def render_item(it, lay):
    k = it["k"]
    out = []
    if k == "txn":
        h = it
        line = h.get("_date") or lay.date(h["date"])
        if h.get("_time"):
            line += " " + h["_time"]
        if h.get("_eff"):
            line += "=" + h["_eff"]
        if h.get("_status"):
            line += " " + h["_status"]
        if h.get("_code") is not None and "_code" in h:
            line += " (" + h["_code"] + ")"
        if h["desc"]:
            line += (" " * lay.rng.choice([1, 1, 2, 3]) if lay.wild else " ") + h["desc"]
        if h["pay"]:
            line += " | " + h["pay"][0]
        cs = list(h["cs"])
        if cs and (h.get("_inl") if "_inl" in h else lay.rng.random() < 0.3):
            line += "  ; " + cs.pop(0)
        elif lay.wild and lay.rng.random() < 0.2:
            line += "  "
        out.append(line)
        for c in cs:
            out.append(lay.indent + "; " + c)
        render_postings(out, it["ps"], lay, render_tail)
    elif k == "auto":
        out.append("= " + auto_query_text(it["q"]) + lay.trail().replace("\t", " "))
        for c in it["cs"]:
            out.append(lay.indent + "; " + c)
        render_postings(out, it["ps"], lay, render_auto_tail)
    elif k == "price":
        tm = (" " + it["_time"]) if it.get("_time") else ""
        out.append(f"P {it.get('_date') or lay.date(it['date'])}{tm} {com_text(it['c'])} {it['q']} {com_text(it['to'])}"
                   + lay.trail().replace("\t", " ") + (lay.rng.choice([" ; words", "; 2 USD"]) if lay.wild and lay.rng.random() < 0.15 else ""))
    elif k == "acc":
        out.append("account " + it["n"] + lay.trail())
        details(out, it, lay, ["note some note", "note alias: payee; x", "isin ES0000", "check amount > 0", "assert amount > 0"] +
                ([] if it.get("_default") else ["default"]))
    elif k == "com":
        out.append("commodity " + com_text(it["n"]) + lay.trail().replace("\t", " ") +
                   (lay.rng.choice(["; words", " ; alias x", ";"]) if lay.wild and lay.rng.random() < 0.15 else ""))
        details(out, it, lay, ["note some note", "default", "format 1,000.00 X", "note alias x"])
    elif k == "pay":
        out.append("payee " + it["n"] + lay.trail())
        details(out, it, lay, [])
    elif k == "inc":
        out.append("include " + it["_pat"] + lay.trail())
    elif k in ("nop", "bad"):
        out += it["_text"].split("\n")
    else:
        raise ValueError(k)
    return out


def render_file(items, lay):
    lines = []
    for it in items:
        g = lay.gap()
        lines += g
        if it["k"] == "bad" and it.get("_glue"):
            while lines and not lines[-1].strip():
                lines.pop()
        lines += render_item(it, lay)
    lines += lay.gap() if lay.wild else []
    nl = "\r\n" if lay.crlf else "\n"
    text = nl.join(lines)
    if lay.final:
        text += nl
    return text


def render(journal, lay):
    """path -> text"""
    return {f: (x if isinstance(x, str) else render_file(x, lay)) for f, x in journal["files"].items()}
