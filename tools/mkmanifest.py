"""Writes MANIFEST.json from tools/suites.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from suites import SUITES
JUDGE = {
    "C01": "Evaluate/Feed/FeedAll/Query/AcceptsWord of Library.tla", "C02": "Evaluate/Feed/FeedAll/Query/AcceptsWord of Library.tla",
    "C03": "ToDfa of Library.tla (language equality by product walk, completeness, reachability)",
    "C04": "ToNfa/RoundTrip of Library.tla", "C05": "Minimise/Merge/Classes of Library.tla (Nerode classes)",
    "C06": "DfaOp/Invert/Unchanged of Library.tla", "C07": "NfaUnion/NfaOp/Unchanged of Library.tla",
    "C08": "Equiv of Library.tla", "C09": "RemoveEps/Optimise of Library.tla",
    "C10": "Reachability/RemoveUnreachable of Library.tla", "C11": "Words/Next of Library.tla (length-lexicographic words)",
    "C12": "ParseAs of Library.tla over FaFormat.tla", "C13": "Parse of Library.tla over FaFormat.tla",
    "C14": "PrintTable/Reparse of Library.tla over FaFormat.tla", "C15": "AnyOperation of Library.tla over whole sessions",
    "C16": "ReadRegex of Library.tla over Regex.tla", "C17": "PrintRegex/RereadRegex of Library.tla over Regex.tla",
    "C18": "CliEquiv of Cli.tla", "C19": "CliBinop of Cli.tla", "C20": "CliEnum/CliTest of Cli.tla", "C21": "CliOut of Cli.tla",
    "C22": "the registry actions of Wasm.tla", "C23": "DrawOk of Draw.tla (the picture read back)",
    "C24": "AsciiOk of Draw.tla (the text read back)", "C25": "ClosureOf/HasEpsilon of Library.tla"}


def technique(p):
    c = SUITES[p]
    mods = sorted({m["module"] + ".tla" for m in c.get("models", [])})
    hist = sorted({m["module"] + ".tla" for m in c.get("histories", [])})
    t = f"TLA+ specification, TLC: {', '.join(mods)} model-checked; "
    if c.get("gen"):
        t += "automata enumerated by TLC from Gen.tla"
    if hist:
        t += ("; " if c.get("gen") else "") + f"behaviours generated by TLC from {', '.join(hist)} replayed into the code"
    return t + f"; every call recorded from the code (generated and random inputs) judged by {JUDGE[p]} in Trace.tla"


props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = [{"property": p["id"], "quick_cmd": f"bin/check {p['id']}", "thorough_cmd": f"bin/check {p['id']} thorough",
           "technique": technique(p["id"]),
           "level": "model_checking",
           "level_note": SUITES[p["id"]].get("note", "TLC judges every recorded call; inputs enumerated up to a bound and random beyond it.")}
          for p in props if p["id"] in SUITES]
na = [{"property": p["id"], "reason": "check under construction"} for p in props if p["id"] not in SUITES]
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": checks, "not_applicable": na,
     "notes": "TLA+/TLC. No hooks in /repo: the public interfaces expose the abstract state; only fix: commits were made there."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
