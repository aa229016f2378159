#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: run it after editing; both results are committed."""
import json, os

P = []
S, F = "contracts/proposal/dao-proposal-single/src/", "contracts/proposal/dao-proposal-multiple/src/"


def prop(id, title, statement, over, text, why, files, mech, tech="", state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = state
    assert len(title) <= 80, (id, len(title))
    assert statement.count(". ") <= 2, (id, statement)
    P.append(({"id": id, "title": title, "statement": statement,
               "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}, tech))


HS = ["histories", "schedules", "fault_sequences"]
HCI = ["histories", "configurations", "inputs", "fault_sequences"]
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_data.py")).read())

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P.sort(key=lambda p: p[0]["id"])
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p, _ in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
DEFAULT_TECH = ("deterministic simulation with fault injection: seeded search over transaction schedules, clock and "
                "fault sequences of the real contracts, judged against an executable reference model")
NOTE = ("Seeded search, not exhaustive: bounded run length and actor count; contracts run as native code under "
        "cw-multi-test, chain modules (bank, staking, token factory, NFT module) are stand-ins. ")
m = {
    "version": 1,
    "setup_cmd": "bash tools/build.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "bash tools/check.sh %s quick" % p["id"],
        "thorough_cmd": "bash tools/check.sh %s thorough" % p["id"],
        "technique": DEFAULT_TECH,
        "level": "exploration",
        "level_note": NOTE + t,
    } for p, t in P],
    "not_applicable": NOT_APPLICABLE,
    "notes": "One simulator (/verif/sim) decides all properties; see DESIGN.md. No hooks in /repo were needed.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(P), "properties")
