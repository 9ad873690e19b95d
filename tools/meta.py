#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, re, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, text, why, files, mech, observe, bounds, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
               "why_tests_cant": why, "anchors": a}, bounds))

NAV = "navigator/navigator.go"
PLANS = "plans of up to 2 routes, 2 tracks each and 3 segments each, and some of 3 tracks or 4 routes (thorough: 3, 3 and 5), zero-length segments included"
REAL = "floats are exact rationals with each float operation's rounding abstracted to exact arithmetic (ideal), sin/cos/asin/atan2 by sound range lemmas"

exec(open(os.path.join(root, "tools", "props.py")).read())

def main():
    ids = [p["id"] for p, _ in P]
    assert len(ids) == len(set(ids))
    have = set()
    for f in os.listdir(os.path.join(root, "harness", "props")):
        for m in re.finditer(r"//vh:harness prop=(\S+)", open(os.path.join(root, "harness", "props", f)).read()):
            have |= set(m.group(1).split(","))
    checks, out = [], []
    for p, b in sorted(P, key=lambda x: x[0]["id"]):
        assert len(p["title"]) <= 80, p["id"]
        assert len(re.findall(r"[.!?](\s|$)", p["statement"])) <= 3, (p["id"], p["statement"])
        if p["id"] not in have:
            print("no harness yet:", p["id"]); continue
        out.append(p)
        checks.append({
            "property": p["id"],
            "quick_cmd": "./check.sh %s quick" % p["id"],
            "thorough_cmd": "./check.sh %s thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": "symbolic execution of the Go SSA of the real code with SMT (z3) deciding every assertion; counterexamples replayed natively",
            "level": "model_checking",
            "level_note": "Bounded: " + b + " Trusted: the SSA interpreter and its models of the standard library, protobuf, JSON and XML codecs (validated by replaying path models natively on every run), and z3.",
        })
    for h in have - set(ids):
        print("harness without property:", h)
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in out:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    man = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": NA,
           "notes": "Every check regenerates its encoding from /repo's working tree (go/ssa) and replays counterexamples natively before reporting. No hooks in /repo. See DESIGN.md."}
    json.dump(man, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
    open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
    print(len(out), "properties,", len(checks), "checks")
main()
