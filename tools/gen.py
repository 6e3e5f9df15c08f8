#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py; says what is inconsistent."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build  # noqa: E402
import props  # noqa: E402

TECH = "symbolic execution of the compiled code's LLVM IR, deciding with Z3"


def harness_list():
    rows = ["# Harnesses and their bounds", "",
            "Written by tools/gen.py. T: thorough tier only.", "",
            "| unit | file | decides | harness | bound |", "|---|---|---|---|---|"]
    for h in build.harnesses():
        for fn, o in h.opts.items():
            t = " (T)" if o.get("tier") == "thorough" else ""
            rows.append(f"| {h.unit} | {os.path.basename(h.path)} | {' '.join(h.props)} | {fn}{t} | "
                        f"{o.get('bound', '').replace('_', ' ')} |")
    with open(os.path.join(VERIF, "HARNESSES.md"), "w") as f:
        f.write("\n".join(rows) + "\n")


def main():
    have = {p for h in build.harnesses() for p in h.props}
    checks, na = [], []
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in props.PROPS:
            f.write(json.dumps({
                "id": p["id"],
                "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"],
                    "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                    "observe_at": p.get("observe", []),
                    "hook_needed": None,
                },
            }) + "\n")
            assert len(p["title"]) <= 80, p["id"]
            if p.get("na"):
                na.append({"property": p["id"], "reason": p["na"]})
                continue
            assert p["id"] in have, f"no harness for {p['id']}"
            checks.append({
                "property": p["id"],
                "quick_cmd": f"python3 check.py {p['id']} --tier quick",
                "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": TECH,
                "level": "model_checking",
                "level_note": p["note"],
            })
    ids = [p["id"] for p in props.PROPS]
    assert len(ids) == len(set(ids))
    extra = have - {c["property"] for c in checks}
    if extra:
        print("harnesses without a property:", sorted(extra))
    m = {
        "version": 1,
        "setup_cmd": "python3 setup.py",
        "checks": checks,
        "not_applicable": na,
        "hooks": {
        "guard": "cfg(ringrtc_verif)",
        "enable": "RUSTFLAGS has --cfg ringrtc_verif (tools/build.py): CallMutex tells of every lock it is about to take, where the scheduler of the executor, and of native replays, may switch threads.",
        "source_commits": ["139cbd5"],
    },
    "notes": props.NOTES,
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    harness_list()
    print(len(checks), "checks,", len(na), "not applicable")


if __name__ == "__main__":
    main()
