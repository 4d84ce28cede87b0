#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of built checks."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = json.load(open(os.path.join(HERE, "vf", "claims.json")))


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
    m = {"version": 1, "setup_cmd": "python3 vf/setup.py", "checks": [], "not_applicable": []}
    for p in props:
        c = CLAIMED.get(p["id"])
        if c and c.get("claimed"):
            m["checks"].append({
                "property": p["id"],
                "quick_cmd": "python3 run.py %s" % p["id"],
                "thorough_cmd": "VERIF_TIER=thorough python3 run.py %s" % p["id"],
                "technique": c["technique"],
                "level": "model_checking",
                "level_note": c["note"]})
        else:
            m["not_applicable"].append({"property": p["id"],
                                        "reason": (c or {}).get("reason", "not built yet")})
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
