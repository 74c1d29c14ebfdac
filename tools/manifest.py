"""Writes MANIFEST.json from the check modules present (run.sh-independent; python3 tools/manifest.py)."""
import json, pathlib, re

V = pathlib.Path(__file__).resolve().parent.parent
NOTES = {  # level_note per property: what the check gives and trusts, beyond the common part
}
exec((V / "tools" / "notes.py").read_text())
COMMON = "Random structured generation with shrinking against an explicit oracle; shows absence of violations only on the cases run. "
props = [json.loads(l)["id"] for l in (V / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for p in props:
    c = p.lower()
    if (V / "checks" / f"{c}.py").exists():
        checks.append({
            "property": p, "quick_cmd": f"./run.sh {c}", "thorough_cmd": f"./run.sh {c} --tier thorough",
            "technique": "property-based testing (hypothesis): " + NOTES[p][0], "level": "exploration", "level_note": COMMON + NOTES[p][1]})
    else:
        na.append({"property": p, "reason": NA.get(p, "no check has been built yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. All checks are generated-input searches driven by hypothesis; see DESIGN.md."}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not claimed")
