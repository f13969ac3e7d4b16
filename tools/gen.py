"""Writes properties.jsonl and MANIFEST.json from the metadata of the checks."""

import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

from tools.unclaimed import UNCLAIMED  # noqa: E402

properties, checks = [], []
names = sorted(
    f[:-3] for f in os.listdir(os.path.join(VERIF, "mc", "props")) if f.startswith("C")
)
for name in names:
    m = importlib.import_module("mc.props." + name)
    anchors = dict(m.ANCHORS)
    anchors.setdefault("hook_needed", None)
    properties.append(
        {
            "id": m.PROPERTY,
            "title": m.TITLE,
            "statement": m.STATEMENT,
            "quantifier": {"over": m.QUANT[0], "text": m.QUANT[1]},
            "why_tests_cant": m.WHY,
            "anchors": anchors,
        }
    )
    assert len(m.TITLE) <= 80, (name, len(m.TITLE))
    checks.append(
        {
            "property": m.PROPERTY,
            "quick_cmd": "./check run %s quick" % m.PROPERTY,
            "thorough_cmd": "./check run %s thorough" % m.PROPERTY,
            "evidence_file": "evidence/%s.json" % m.PROPERTY,
            "technique": m.TECHNIQUE,
            "level": m.LEVEL,
            "level_note": "%s Quick bounds: %s. Assumes: %s."
            % (m.NOTE, m.BOUNDS["quick"], "; ".join(m.ASSUMPTIONS) or "nothing"),
        }
    )
unclaimed = []
for entry in UNCLAIMED:
    entry = dict(entry)
    reason = entry.pop("reason")
    properties.append(entry)
    unclaimed.append({"property": entry["id"], "reason": reason})

with open(os.path.join(VERIF, "properties.jsonl"), "w") as fh:
    for prop in properties:
        fh.write(json.dumps(prop, ensure_ascii=False) + "\n")
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as fh:
    json.dump(
        {
            "version": 1,
            "setup_cmd": "true",
            "checks": checks,
            "not_applicable": unclaimed,
            "notes": "Generated by tools/gen.py from mc/props. No hooks in /repo: the checks drive the unmodified code.",
        },
        fh,
        indent=1,
        ensure_ascii=False,
    )
    fh.write("\n")
print(len(checks), "checks")

# DESIGN.md
sections = []
for name in names:
    m = importlib.import_module("mc.props." + name)
    text = ["### %s %s" % (m.PROPERTY, m.TITLE), "", m.STATEMENT, ""]
    text.append("* decided by: %s. %s" % (m.TECHNIQUE, m.NOTE))
    text.append("* quick bounds: %s" % m.BOUNDS["quick"])
    text.append("* thorough bounds: %s" % m.BOUNDS["thorough"])
    text.append("* beyond the tests: %s" % m.WHY)
    text.append("* anchored in: %s" % "; ".join("%s (%s)" % (x["name"], x["where"]) for x in m.ANCHORS["mechanism"]))
    if m.ASSUMPTIONS:
        text.append("* assumes: %s" % "; ".join(m.ASSUMPTIONS))
    sections.append("\n".join(text))
for entry in UNCLAIMED:
    sections.append("### %s %s (not applicable)\n\n%s\n\n%s" % (entry["id"], entry["title"], entry["statement"], entry["reason"]))
here = os.path.dirname(os.path.abspath(__file__))
head, tail = (open(os.path.join(here, f)).read() for f in ("design_head.md", "design_tail.md"))
table = ["## Planted bugs", "", "| bug | property | needs | caught by (quick) |", "| --- | --- | --- | --- |"]
caught = json.load(open(os.path.join(here, "caught.json")))
for bug in sorted(os.listdir(os.path.join(VERIF, "seeded"))):
    meta = json.load(open(os.path.join(VERIF, "seeded", bug, "meta.json")))
    table.append("| %s | %s | %s | %s |" % (bug, meta["property"], meta["needs"], ", ".join(caught.get(bug, [])) or "-"))
with open(os.path.join(VERIF, "DESIGN.md"), "w") as fh:
    fh.write(head + "\n## Properties\n\n" + "\n\n".join(sections) + "\n\n" + "\n".join(table) + "\n\n" + tail)
