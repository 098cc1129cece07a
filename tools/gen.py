#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and the table in DESIGN.md from props*.py."""
import glob, json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props1
try:
    import props2
except ImportError:
    pass
PROPS = props1.PROPS
have = {os.path.basename(f)[:3] for f in glob.glob(ROOT + "/harness/C*.cc")}
assert {p["id"] for p in PROPS} == have, {p["id"] for p in PROPS} ^ have
with open(ROOT + "/properties.jsonl", "w") as f:
    for p in PROPS:
        for x in p["files"]:
            assert os.path.exists("/repo/" + x), x
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}
        if p["observe"]:
            a["observe_at"] = p["observe"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
man = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [{"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                "evidence_file": f"evidence/{p['id']}.json", "technique": p["tech"], "level": "exploration",
                "level_note": p["note"] + " Generated-input search: it shows violations with a minimal replay, and absence only on what it explored."} for p in PROPS],
    "not_applicable": [],
    "notes": "See DESIGN.md. VERIF_SEED seeds every random choice. A replay file is re-run with: python3 check.py <ID> --replay <file>",
}
json.dump(man, open(ROOT + "/MANIFEST.json", "w"), indent=1)
open(ROOT + "/MANIFEST.json", "a").write("\n")
d = open(ROOT + "/DESIGN.md").read()
rows = ["| id | property | generated | oracle / deciding step | quick cases |", "|---|---|---|---|---|"]
for p in PROPS:
    src = open(sorted(glob.glob(f"{ROOT}/harness/{p['id']}_*.cc"))[0]).read()
    cases = int(re.search(r"@cases (\d+)", src).group(1))
    mult = int((re.search(r"@thorough (\d+)", src) or [0, 20])[1])
    rows.append(f"| {p['id']} | {p['title']} | {p['quant']} | {p['tech']}. {p['note']} | {cases:,} (thorough ×{mult}) |")
d = re.sub(r"<!-- table -->.*<!-- /table -->", lambda m: "<!-- table -->\n" + "\n".join(rows) + "\n<!-- /table -->", d, flags=re.S)
open(ROOT + "/DESIGN.md", "w").write(d)
import jsonschema  # run with python3-vt
S = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for line in open(ROOT + "/properties.jsonl"):
    jsonschema.validate(json.loads(line), S)
jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(PROPS), "properties")
