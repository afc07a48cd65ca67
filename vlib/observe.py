"""Running dinero and reading its output back into data."""
import hashlib
import os
import random
import re
import shutil
import subprocess
import tempfile

TIMEOUT = 20
HANGS = 0
ANSI = re.compile(r"\x1b\[[0-9;]*m")
NUM = r"-?\d+(?:\.\d+)?"


def opts(**kw):
    o = {"b": [], "e": [], "real": False, "q": [], "flat": False, "depth": 0, "x": "", "total": True}
    o.update(kw)
    return o


def run(cmd, nc=False, args=None, times=1, **kw):
    """A planned run: options kw as the specification sees them."""
    o = opts(**{k: v for k, v in kw.items() if not k.startswith("_")})
    r = {"cmd": cmd, "nc": nc and cmd != "check", "o": o, "_times": times}
    if nc:
        r["_nc"] = True
    if args is not None:
        r["_args"] = args
    r.update({k: v for k, v in kw.items() if k.startswith("_")})
    return r


def cli_args(r, main):
    """Command line of a planned run."""
    from .journal import query_args
    if "_args" in r:
        return list(r["_args"])
    o = r["o"]
    if r.get("_vary"):
        return varied(r, o, main)
    a = [r.get("_cmd", r["cmd"]), "-f", main]
    if r.get("_nc"):
        a.append("--no-balance-check")
    for key, flag in (("b", "-b"), ("e", "-e")):
        if o[key]:
            d = o[key][0]
            a += [flag, r.get("_" + key) or "%04d-%02d-%02d" % tuple(d)]
    if o["real"]:
        a.append("--real")
    if o["flat"]:
        a.append("--flat")
    if o["depth"]:
        a += ["-d", str(o["depth"])]
    if o["x"]:
        a += ["-X", o["x"]]
    if not o["total"]:
        a.append("--no-total")
    if o["q"]:
        a += ["--"] * 0 + (r.get("_q") or query_args(o["q"]))
    return a


FULL = {"bal": "balance", "reg": "register", "commodities": "currencies"}


def varied(r, o, main):
    """The same command line, written in some other way."""
    from .journal import query_args
    g = random.Random(r["_vary"])

    def opt(short, long, v):
        ways = [[short, v], [short + v]]
        if long:
            ways += [[long, v], [long + "=" + v]]
        return g.choice(ways)
    words = [opt("-f", "--file", main)]
    if r.get("_nc"):
        words.append(["--no-balance-check"])
    for key, short, long in (("b", "-b", "--begin"), ("e", "-e", "--end")):
        if o[key]:
            words.append(opt(short, long, r.get("_" + key) or "%04d-%02d-%02d" % tuple(o[key][0])))
    for on, w in ((o["real"], "--real"), (o["flat"], "--flat"), (not o["total"], "--no-total"), (g.random() < 0.2, "--force-color")):
        if on:
            words.append([w])
    if o["depth"]:
        words.append(opt("-d", "--depth", str(o["depth"])))
    if o["x"]:
        words.append(opt("-X", None, o["x"]))
    if o["q"]:
        words.append(r.get("_q") or query_args(o["q"]))
    g.shuffle(words)
    cmd = r.get("_cmd", r["cmd"])
    return [FULL.get(cmd, cmd) if g.random() < 0.5 else cmd] + [w for ws in words for w in ws]


def execute(binary, args, cwd, home, timeout=TIMEOUT, env_extra=None):
    env = {"PATH": "/usr/bin:/bin", "HOME": home, "RUST_BACKTRACE": "0", "NO_COLOR": "1", "LANG": "C.UTF-8", "TZ": "UTC"}
    env.update(env_extra or {})
    # a program gone wild must not take the machine or the time of the check with it
    global HANGS
    if HANGS >= 4:
        timeout = min(timeout, 4 if HANGS < 40 else 1)
    with tempfile.TemporaryFile(dir=os.path.dirname(home)) as fh:
        try:
            p = subprocess.run(["prlimit", "--as=4000000000", "--fsize=30000000", "--core=0", binary] + args, cwd=cwd, env=env,
                               stdin=subprocess.DEVNULL, stdout=fh, stderr=subprocess.DEVNULL, timeout=timeout)
        except subprocess.TimeoutExpired:
            HANGS += 1
            return "hang", ""
        fh.seek(0)
        out = fh.read().decode("utf-8", "replace")
    if p.returncode < 0:
        rc = "signal"
    else:
        rc = "ok" if p.returncode == 0 else "fail"
    return rc, ANSI.sub("", out)


# ---------------------------------------------------------------- parsing

def parse_money(s):
    """'1.50 USD' -> {q, c}; None if it is not an amount"""
    m = re.fullmatch(r"(%s)(?: (.*))?" % NUM, s.strip())
    if not m:
        return None
    return {"q": m.group(1), "c": (m.group(2) or "").strip()}


def bal_ms(ms):
    """A shown balance: a lone 0 is the empty balance."""
    if len(ms) == 1 and ms[0]["q"] == "0" and ms[0]["c"] == "":
        return []
    return ms


def parse_bal(out, flat):
    rows, tot, ms = [], [], []
    lines = out.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    prev = []
    i = 0
    while i < len(lines):
        line = lines[i]
        i += 1
        if line.startswith("-----"):
            t = []
            rest = ([line.lstrip("-")] if line.strip("-") else []) + lines[i:]
            for x in rest:
                m = parse_money(x)
                t.append(m if m else {"q": "?", "c": x})
            tot = [bal_ms(t)]
            break
        m = re.fullmatch(r"\s*(%s)(?: ((?:(?!  ).)*?))?( {2,})(\S.*)" % NUM, line)
        if not m:
            mm = parse_money(line)
            ms.append(mm if mm else {"q": "?", "c": line})
            continue
        q, c, gap, name = m.groups()
        ms.append({"q": q, "c": (c or "").strip()})
        n = len(gap)
        # the space between number and (empty) commodity belongs to the amount
        if c is None and n % 2 == 1:
            n -= 1
        if flat:
            full = name if n == 2 else "?" + line
            rows.append({"n": full, "ms": bal_ms(ms)})
        else:
            k = n // 2
            if n % 2 or k < 1 or k - 1 > len(prev):
                full = ["?" + line]
            else:
                full = prev[:k - 1] + name.split(":")
            prev = full
            rows.append({"n": ":".join(full), "ms": bal_ms(ms)})
        ms = []
    if ms:
        rows.append({"n": "?unfinished", "ms": ms})
    return rows, tot


def parse_reg(out, accounts, commodities):
    """accounts, commodities: every spelling used in the journal."""
    accs = sorted({b % a for a in accounts for b in ("%s", "(%s)", "[%s]")}, key=len, reverse=True)
    coms = sorted(set(commodities) | {""}, key=len, reverse=True)
    comre = "|".join(re.escape(c) for c in coms)
    amt = r"(%s)(?: (%s))?" % (NUM, comre)
    strict = r"(-?(?:0|[1-9]\d*)\.\d\d|0)(?: (%s))?" % comre
    # wide amounts can touch the next column
    tail = re.compile(r"\s*%s\s*%s\s*" % (strict, strict))
    tail2 = re.compile(r"\s*%s\s+%s\s*" % (amt, amt))
    rows = []
    for line in out.split("\n"):
        if line == "":
            continue
        if len(line) < 54 or line[:87].strip() == "":
            m = parse_money(line)
            if m and rows:
                rows[-1]["t"].append(m)
            else:
                rows.append(badrow(line))
            continue
        date, desc, rest = line[:11].strip(), line[11:53].rstrip(), line[53:]
        h = []
        if date or desc:
            dm = re.fullmatch(r"([+-]?\d+)-(\d\d)-(\d\d)", date)
            if not dm or int(dm.group(1)) > 99999:
                rows.append(badrow(line))
                continue
            h = [{"date": [int(x) for x in dm.groups()], "desc": desc.strip()}]
        row = None
        for a in accs:
            if rest.startswith(a):
                t = tail.fullmatch(rest[len(a):]) or tail2.fullmatch(rest[len(a):])
                if t:
                    k, name = "R", a
                    if a not in accounts and a[0] == "(":
                        k, name = "V", a[1:-1]
                    elif a not in accounts and a[0] == "[":
                        k, name = "B", a[1:-1]
                    row = {"h": h, "a": name, "k": k, "m": {"q": t.group(1), "c": t.group(2) or ""},
                           "t": [{"q": t.group(3), "c": t.group(4) or ""}]}
                    break
        rows.append(row or badrow(line))
    for r in rows:
        r["t"] = bal_ms(r["t"])
    return rows


def badrow(line):
    return {"h": [], "a": "?" + line, "k": "?", "m": {"q": "?", "c": ""}, "t": []}


def parse_prices(out, commodities):
    coms = "|".join(re.escape(c) for c in sorted(commodities, key=len, reverse=True))
    rx = re.compile(r"([+-]?\d+)-(\d\d)-(\d\d) (%s) (%s)(?: (%s))?\s*" % (coms, NUM, coms))
    rows = []
    for line in out.split("\n"):
        if line == "":
            continue
        m = rx.fullmatch(line)
        if m and int(m.group(1)) <= 99999:
            rows.append({"date": [int(m.group(1)), int(m.group(2)), int(m.group(3))],
                         "c": m.group(4), "q": m.group(5), "to": m.group(6) or ""})
        else:
            rows.append({"date": [0, 0, 0], "c": "?" + line, "q": "?", "to": ""})
    return rows


def parse(cmd, rc, out, o, accounts, commodities):
    """-> rows, tot"""
    if cmd == "check":
        lines = [x for x in out.split("\n") if x.strip()]
        want = "OK" if rc == "ok" else "KO"
        # what matters is that it says the right thing; a parse error may leave it silent
        ok = (len(lines) == 1 and lines[0].endswith(" " + want)) or (rc == "fail" and not lines)
        return ([] if ok else ["?" + out[:200]]), []
    if rc != "ok":
        return [x for x in out.split("\n") if x.strip()][:5], []
    if cmd == "bal":
        return parse_bal(out, o["flat"])
    if cmd == "reg":
        return parse_reg(out, accounts, commodities), []
    if cmd == "prices":
        return parse_prices(out, commodities), []
    return [x for x in out.split("\n") if x.strip()], []


# ---------------------------------------------------------------- cases

def spellings(journal):
    accs, coms = set(), set()

    def mon(x):
        for m in x:
            coms.add(m["c"])

    def ex(e):
        if e.get("o") == "money":
            coms.add(e["c"])
        for k in ("x", "l", "r"):
            if k in e:
                ex(e[k])
    for items in journal["files"].values():
        if isinstance(items, str):
            continue
        for it in items:
            k = it["k"]
            if k == "acc":
                accs.add(it["n"])
            elif k == "com":
                coms.add(it["n"])
            elif k == "price":
                coms.update([it["c"], it["to"]])
            elif k in ("txn", "auto"):
                for p in it["ps"]:
                    accs.add(p["a"])
                    if "raw" in p:
                        coms.update(re.findall(r'"([^"]*)"', p["raw"]))
                        for w in re.findall(r'[^\s\d.;"-]+', p["raw"]):
                            coms.update(w[i:j] for i in range(len(w)) for j in range(i + 1, len(w) + 1))
                    elif k == "txn":
                        mon(p["amt"]), mon(p["cost"]), mon(p["asr"])
                    else:
                        coms.add(p["c"])
                        ex(p["e"])
    return accs, coms


def write_files(texts, d):
    for f, text in texts.items():
        path = os.path.join(d, f)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w", encoding="utf-8", newline="") as fh:
            fh.write(text)


def observe(binary, case, base):
    """Execute all planned runs of a case in scratch directories under base;
    adds rc, rows, tot, hs (and keeps what was run for replay)."""
    from .journal import Layout, render
    d = tempfile.mkdtemp(dir=base)
    try:
        layouts = case.get("_layouts") or [Layout()] * len(case.get("_texts", [0]))
        dirs = []
        for i, lay in enumerate(layouts):
            w = os.path.join(d, "w%d" % i)
            home = os.path.join(w, "home")
            cwd = os.path.join(w, "cwd")
            os.makedirs(home), os.makedirs(cwd)
            texts = case["_texts"][i] if "_texts" in case else render(case["in"], lay)
            write_files(texts, cwd)
            write_files(case.get("_extra", {}), cwd)
            write_files(case.get("_home", {}), home)
            for link, target in case.get("_links", {}).items():
                os.makedirs(os.path.dirname(os.path.join(cwd, link)) or cwd, exist_ok=True)
                os.symlink(target, os.path.join(cwd, link))
            dirs.append((cwd, home, texts))
        case["_written"] = [t for _, _, t in dirs]
        accs, coms = case.get("_names") or spellings(case["in"])
        runs = []
        for r in case["runs"]:
            # with _across the outputs on all variants have to be the same
            for li in ([0] if r.get("_across") else range(len(dirs))):
                cwd, home, _ = dirs[li]
                args = cli_args(r, r.get("_main") or case.get("_main") or case["in"]["main"])
                hs, first = [], None
                again = [(cwd, home)] * r.get("_times", 1)
                if r.get("_across"):
                    again += [(x[0], x[1]) for x in dirs[1:]]
                for wd, hm in again:
                    rc, out = execute(binary, args, wd, hm, timeout=case.get("_timeout", TIMEOUT))
                    hs.append(hashlib.sha256((rc + out).encode()).hexdigest()[:16])
                    if first is None:
                        first = (rc, out)
                    elif (rc, out) != first:
                        r["_second"] = (rc, out)
                rc, out = first
                rows, tot = parse(r["cmd"], rc, out, dict(r["o"], flat=r.get("_flat", r["o"]["flat"])), accs, coms)
                if case.get("_opaque") and rc == "ok":
                    rows, tot = [], []
                n = dict(r)
                n.update(rc=rc, rows=rows, tot=tot, hs=hs, _argv=args, _out=out, _lay=li)
                runs.append(n)
        case["runs"] = runs
        return case
    finally:
        shutil.rmtree(d, ignore_errors=True)
