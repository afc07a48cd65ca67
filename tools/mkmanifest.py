#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("TLC explores all journals of a small family exhaustively (%s) and checks the property as an invariant of the specification; "
        "behaviours of the model and seeded random journals are replayed on the real binary, and TLC validates every recorded run against the "
        "specification. Trusts TLC, the Java arithmetic and text overrides (themselves checked against pure TLA+ in MC_Rat and MC_Text), and the "
        "driver that renders journals and parses reports. Beyond the enumerated family the assurance is that of the sampled journals.")
FAM = {
    "C01": "F01: one transaction, any three amounts", "C02": "F02: an elided posting in every position", "C03": "F03: assertions in every date order",
    "C04": "F04: assignments in sequence", "C05": "F05: unit and total costs with both signs", "C06": "F06: kinds of postings",
    "C07": "F07: account hierarchies and depths", "C08": "F07: account hierarchies and depths", "C09": "F09: three dated transactions",
    "C10": "F09: three dated transactions and cuts", "C11": "F11: all queries of up to three terms", "C12": "F12: expressions of two operators in both groupings",
    "C13": "F13: spellings and declarations", "C14": "F14: payee patterns and unknown accounts", "C15": "F15: all include graphs on three files",
    "C16": "F16: automated transactions", "C17": "F17: prices from directives, costs and exchanges", "C18": "F18: price graphs on three commodities",
    "C19": "F19: thousandths around zero and one", "C20": "F20: all texts of up to four tokens after an account", "C21": "F21: all orders of a journal",
    "C22": "Lines: all files of up to four lines by kind of line", "C23": "F23: all comments of up to four tokens in three places",
    "C24": "F24: an error at any position", "C25": "MC_Config: init files and command lines", "C26": "F26: what is declared and used",
    "C27": "F15: all include graphs on three files", "C28": "F28: days of months, existing or not"}
TECH = "TLA+ specification checked with TLC; its behaviours replayed on the binary and recorded runs validated against it (trace validation)"
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
doc = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": [{
        "property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
        "technique": TECH, "level": "model_checking", "level_note": NOTE % FAM[p["id"]]} for p in props],
    "not_applicable": [],
    "notes": "No hooks in /repo: everything is observed through the command line of the binary built from the working tree. See DESIGN.md.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
