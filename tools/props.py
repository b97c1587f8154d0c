#!/usr/bin/env python3
"""The property list: regenerates properties.jsonl and MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []

def prop(id, title, statement, over, text, why, files, mech, technique, note, level="exploration", observe=None):
    assert len(title) <= 80, title
    PROPS.append((dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)),
        dict(property=id, quick_cmd=f"bash tools/check.sh {id} quick", thorough_cmd=f"bash tools/check.sh {id} thorough",
             evidence_file=f"evidence/{id}.json", technique=technique, level=level, level_note=note)))

exec(open(os.path.join(ROOT, "tools", "props_list.py")).read())

if __name__ == "__main__":
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p, _ in PROPS:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    manifest = dict(
        version=1, setup_cmd="bash tools/setup.sh",
        hooks=dict(guard="none", enable="no hooks: every monitor observes public API results, provider calls and process output",
                   source_commits=[]),
        checks=[c for _, c in PROPS], not_applicable=NOT_APPLICABLE,
        notes="Run from /verif. `bash tools/check.sh --replay evidence/replay/<id>-<k>.json` re-runs a reported case. "
              "Exit 2 (never with a VIOLATION line) means no answer: the harness did not build or observed too little.")
    json.dump(manifest, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
