#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property records in tools/props/*.json."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "python3-vt"


def main():
    props, checks, na = [], [], []
    for f in sorted(glob.glob(os.path.join(HERE, "tools", "props", "*.json"))):
        r = json.load(open(f))
        m = r.pop("check", None)
        reason = r.pop("not_applicable", None)
        assert len(r["title"]) <= 80, (f, len(r["title"]))
        props.append(r)
        if m is not None:
            checks.append({
                "property": r["id"],
                "quick_cmd": "%s check.py %s" % (PY, r["id"]),
                "thorough_cmd": "%s check.py %s --tier thorough" % (PY, r["id"]),
                "evidence_file": "evidence/%s.json" % r["id"],
                "technique": m["technique"],
                "level": "other",
                "level_note": m["level_note"],
            })
        else:
            na.append({"property": r["id"], "reason": reason})
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for r in props:
            f.write(json.dumps(r) + "\n")
    man = {"version": 1, "setup_cmd": "%s -c \"import ast\"" % PY, "checks": checks, "not_applicable": na,
           "notes": "All checks read the source of /repo on every run and execute none of it."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
