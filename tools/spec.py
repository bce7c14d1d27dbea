"""The properties and the manifest, in one place: python3 tools/spec.py writes
properties.jsonl and MANIFEST.json."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "openptv_python/"
DST = "deterministic simulation with fault injection"

PROPS = []


def prop(id, title, statement, over, text, tests, files, mech, observe=(), state=(), note="", built=True):
    PROPS.append(
        dict(
            id=id, title=title, statement=statement, over=over, text=text, tests=tests,
            files=files, mech=mech, observe=list(observe), state=list(state), note=note,
            built=built,
        )
    )


NA = []


def na(id, title, statement, over, text, tests, files, mech, reason):
    NA.append((id, reason))
    PROPS.append(
        dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests,
             files=files, mech=mech, observe=[], state=[], note="", built=None)
    )


exec(open(os.path.join(HERE, "tools", "properties.py"), encoding="utf-8").read())


def main():
    ids = [p["id"] for p in PROPS]
    assert len(ids) == len(set(ids))
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            d = {
                "id": p["id"],
                "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["tests"],
                "anchors": {
                    "files": [P + x for x in p["files"]],
                    "state": [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]],
                    "mechanism": [
                        {"name": n, "where": P + w} for n, w in p["mech"]
                    ],
                    "observe_at": p["observe"],
                    "hook_needed": None,
                },
            }
            f.write(json.dumps(d) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "sh tools/setup.sh",
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": f"./run {p['id']} --tier quick",
                "thorough_cmd": f"./run {p['id']} --tier thorough",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": DST,
                "level": "exploration",
                "level_note": p["note"],
            }
            for p in PROPS
            if p["built"]
        ],
        "not_applicable": [{"property": i, "reason": r} for i, r in NA]
        + [
            {"property": p["id"], "reason": "No check is built yet."}
            for p in PROPS
            if p["built"] is False
        ],
        "notes": "No hooks in /repo are needed: the seams are open(), the callers' arguments "
        "and sys.settrace. See DESIGN.md.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
