#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from props.py (deterministic)."""
import json
import os

from props import NOT_APPLICABLE, PROPS

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in PROPS + NOT_APPLICABLE:
            fh.write(
                json.dumps(
                    {
                        "id": p["id"],
                        "title": p["title"],
                        "statement": p["statement"],
                        "quantifier": {"over": p["over"], "text": p["forall"]},
                        "why_tests_cant": p["why"],
                        "anchors": {
                            "files": p["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                            "observe_at": p.get("observe", []),
                            "hook_needed": None,
                        },
                    }
                )
                + "\n"
            )
            assert len(p["title"]) <= 80, p["id"]
    manifest = {
        "version": 1,
        "setup_cmd": "true",
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": f"python3 check.py {p['id']} --tier quick",
                "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
                "technique": p["technique"],
                "level": "other",
                "level_note": p["level_note"],
            }
            for p in PROPS
        ],
        "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_APPLICABLE],
        "notes": (
            "Every check parses the current source of /repo/mrmustard with the standard library and "
            "decides structural rules over a resolved program model; nothing of /repo is executed or "
            "imported and nothing is built. Level 'other': static analysis."
        ),
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(manifest, fh, indent=1)
        fh.write("\n")


main()
