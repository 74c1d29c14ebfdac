"""Writes DESIGN.md: tools/design_head.md, then one section per property (statement of the search from the checks
themselves), findings, and the seeded bugs."""
import importlib, json, os, pathlib, re, sys

ROOT = pathlib.Path("/verif")
for p in ("/verif/stubs", "/repo", "/verif/.deps", "/verif"):
    sys.path.insert(0, p)
os.environ.setdefault("MPLANG_DATA_ROOT", "/tmp/design-mpl")
sys.path.insert(0, str(ROOT / "tools"))
from notes import NA, NOTES
from design_notes import EXTRA

props = [json.loads(l) for l in (ROOT / "properties.jsonl").read_text().splitlines() if l.strip()]
out = [(ROOT / "tools/design_head.md").read_text().rstrip(), "", "## Properties", ""]
out.append("Each section says why tests cannot settle the property, what its sub-checks generate and compare (the rule strings are "
           "those of the checks and of the evidence files), how many cases a quick and a thorough run draw (upper bounds: cases per shard times shards), "
           "what is assumed, and what was learnt while building it.")
for p in props:
    i = p["id"]
    out += ["", f"### {i} {p['title']}", ""]
    if i in NA:
        out.append(f"Not applicable: {NA[i]}")
        continue
    m = importlib.import_module(f"checks.{i.lower()}")
    tech, note = NOTES[i]
    out.append(f"* **Quantified over**: {p['quantifier']['text']}")
    out.append(f"* **Why tests cannot**: {p['why_tests_cant']}")
    out.append(f"* **Deciding method**: property-based testing, {tech}. {note}")
    out.append("* **Searches**:")
    for s in m.SUBS:
        q, t = s.quick * s.shards_quick, s.thorough * s.shards_thorough
        out.append(f"  * `{s.name}` ({q} / {t} cases): {s.rule}")
    for a in m.ASSUMPTIONS:
        out.append(f"* *Assumes*: {a}.")
    for e in EXTRA.get(i, []):
        out.append(f"* {e}")

out += ["", "## Defects found on the way", "",
        "Every line of `KNOWN_FINDINGS.txt` that starts with `fixed:` names a commit of /repo that repairs a defect a check found; "
        "each check reports the violation again if the defect returns. The `known:` lines are genuine defects that were not repaired.", ""]
byp = {}
for l in (ROOT / "KNOWN_FINDINGS.txt").read_text().splitlines():
    k = re.match(r"(fixed|known): property=(\w+) (\S+) (.*)", l)
    if k:
        byp.setdefault(k[2], []).append((k[1], k[3], k[4]))
for p in props:
    for k, c, t in byp.get(p["id"], []):
        out.append(f"* {p['id']} {'**not repaired** ' if k == 'known' else ''}`{c}`: {t}")
out += ["", (ROOT / "tools/design_tail.md").read_text().rstrip()]
out += ["", "## Seeded bugs", "",
        "Kept under `seeded/`; each was written from a property's text and the code, and confirmed in a scratch copy: its demonstration passes "
        "without and fails with it, and all stable tests still pass (`tools/mkseed.py`, `tools/tryseed.sh`). "
        "All of them are caught by the check of their property; the last column says what had to be added to catch those that were missed at first.", "",
        "| bug | property | needs | missed at first |", "|---|---|---|---|"]
from design_notes import MISSED
for d in sorted((ROOT / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    out.append(f"| {d.name} | {m['property']} | {m['needs']} | {MISSED.get(d.name, '')} |")
(ROOT / "DESIGN.md").write_text("\n".join(out) + "\n")
