#!/usr/bin/env python3
"""Property table -> properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LS = "verypy/local_search/"
CH = "verypy/classic_heuristics/"
P = []


def prop(id, title, statement, text, why, files, mechanism, note, over="inputs",
         claim=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text,
                  why=why, files=files, mechanism=mechanism, note=note,
                  claim=claim, reason=reason))


TECH = "concolic symbolic execution of the real Python code with z3 " \
    "deciding every branch flip and the property on every path"

exec(open(os.path.join(V, "tools", "table.py")).read())


def main():
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": [p["over"]] if isinstance(p["over"], str)
                               else p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": p["mechanism"]},
            }) + "\n")
    try:
        hooks = subprocess.check_output(
            ["git", "-C", "/repo", "log", "--format=%s"], text=True)
    except Exception:
        hooks = ""
    man = {"version": 1,
           "setup_cmd": "./setup.sh",
           "checks": [{
               "property": p["id"],
               "quick_cmd": "./run.sh --property %s --tier quick" % p["id"],
               "thorough_cmd": "./run.sh --property %s --tier thorough" % p["id"],
               "technique": TECH + p.get("tech", ""),
               "level": "model_checking",
               "level_note": p["note"]} for p in P if p["claim"]],
           "not_applicable": [{"property": p["id"], "reason": p["reason"]}
                              for p in P if not p["claim"]]}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(P), "properties,", len(man["checks"]), "claimed")


main()
