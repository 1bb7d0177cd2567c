"""Regenerates properties.jsonl and MANIFEST.json from the table in meta/table.py."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:0] = [HERE, ROOT]
import table


def design():
    import design as D
    with open(os.path.join(HERE, "design_head.md")) as f:
        out = [f.read().rstrip()]
    for p in table.PROPERTIES:
        how, oracle = D.HOW[p["id"]]
        out.append("### %s %s\n\n%s\n\n*Decided by:* %s\n\n*Oracle:* %s. *Over:* %s.\n\n*Anchors:* %s.\n\n*Notes:* %s" % (
            p["id"], p["title"], p["statement"], how, oracle, p["forall"], ", ".join("`%s`" % f for f in p["files"]), p["note"]))
    out.append("## 3. Not applicable\n\nThis family cannot decide these here; each is listed with the same reason in MANIFEST.json.")
    out.append("\n".join("* **%s %s** - %s" % (x["id"], x["title"], r) for x, r in table.NOT_APPLICABLE))
    with open(os.path.join(ROOT, "known_findings.json")) as f:
        known = json.load(f)
    out.append("## 4. Genuine defects found\n\nRepaired (one `fix:` commit each in /repo):\n")
    out.append("\n".join("* " + x for x in known["fixed"]))
    out.append("Recorded (known_findings.json, printed as KNOWN-FINDING):\n")
    out.append("\n".join("* `%s` %s: %s" % (x["property"], x["key"], x["what"]) for x in known["findings"]))
    out.append("About `benchmark/`: " + D.BENCHMARK)
    out.append("## 5. Planted bugs\n\nEach is in seeded/<id>/; every one was validated with meta/seed.sh (demo passes before and fails after, "
               "stable tests pass) and is caught by the check of its property.\n")
    rows = ["| bug | needs | breaks |", "|---|---|---|"]
    base = os.path.join(ROOT, "seeded")
    for name in sorted(os.listdir(base)):
        with open(os.path.join(base, name, "meta.json")) as f:
            m = json.load(f)
        clean = lambda t: t.replace("|", "/").replace("\n", " ")
        rows.append("| %s | %s | %s |" % (name, clean(m["needs"]), clean(m["what_it_breaks"])))
    out.append("\n".join(rows))
    out.append("## 6. Mutation\n\n" + D.MUTATION)
    out.append("## 7. False alarms met, and what was done\n\n" + "\n".join("* " + x for x in D.FALSE_ALARMS))
    with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
        f.write("\n\n".join(out) + "\n")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in table.PROPERTIES + [x for x, _ in table.NOT_APPLICABLE]:
            q = {k: p[k] for k in ("id", "title", "statement")}
            assert len(q["title"]) <= 80, q["title"]
            q["quantifier"] = {"over": p["over"], "text": p["forall"]}
            q["why_tests_cant"] = p["why"]
            q["anchors"] = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]}
            f.write(json.dumps(q) + "\n")
    checks = []
    for p in table.PROPERTIES:
        mod = os.path.join(ROOT, "sa", "checks", p["id"].lower() + ".py")
        assert os.path.exists(mod), mod
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 -m sa.run %s" % p["id"],
            "thorough_cmd": "python3 -m sa.run %s --tier thorough" % p["id"],
            "technique": p["technique"],
            "level": "other",
            "level_note": p["note"],
        })
    m = {
        "version": 1,
        "setup_cmd": "python3 -c \"import sa.run\"",
        "checks": checks,
        "not_applicable": [{"property": x["id"], "reason": r} for x, r in table.NOT_APPLICABLE],
        "notes": table.NOTES,
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    design()


main()
