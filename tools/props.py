#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []   # properties
NA = {}  # id -> reason (listed as not applicable)


def prop(id, title, statement, over, text, why, files, mech, na=None, note=""):
    if isinstance(statement, (list, tuple)):
        statement = " ".join(statement)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})
    if na:
        NA[id] = na
    P[-1]["_note"] = note


exec(open(os.path.join(HERE, "tools", "props_data.py")).read())

if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            q = {k: v for k, v in p.items() if k[0] != "_"}
            assert len(q["title"]) <= 80, q["title"]
            f.write(json.dumps(q) + "\n")
    checks = []
    for p in P:
        if p["id"] in NA:
            continue
        assert os.path.exists(os.path.join(HERE, "harness", p["id"] + ".cpp")), p["id"]
        checks.append({"property": p["id"],
                       "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                       "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                       "technique": "symbolic execution of the compiled library code (LLVM IR of /repo instrumented at build time), path conditions and assertions decided by Z3 over all values within bounds; counterexamples replayed on an uninstrumented build",
                       "level": "model_checking",
                       "level_note": p["_note"] or "bounded: holds for all values within the bounds listed in the evidence file; nothing is claimed beyond them"})
    m = {"version": 1, "setup_cmd": "true",
         "hooks": {"guard": "none", "enable": "no hooks: the checks compile /repo's unmodified sources", "source_commits": []},
         "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties,", len(checks), "claimed")
