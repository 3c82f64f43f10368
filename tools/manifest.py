"""Regenerates MANIFEST.json from properties.jsonl and the modules in vf/props."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C11": "property-based testing: exhaustive and generated hands against an independent ranking",
    "C12": "property-based testing: every deck against enumerated counts",
    "C20": "property-based testing: generated render sessions against a live server",
    "C21": "property-based testing: generated state sequences driven through the real script in node",
}
TECH["C24"] = "property-based testing: generated thread schedules against the same work done alone"
TECH["C25"] = "property-based testing: generated programs with injected ends, watched from outside"
TECH["C26"] = "property-based testing: generated cycles of calls, repeated and measured (metamorphic)"
TECH["C28"] = "property-based testing: generated programs with injected port conflicts, watched from outside"
TECH["C29"] = "property-based testing: generated sessions with and without looking (metamorphic)"
NOTES = {}
checks, missing = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    prop = json.loads(line)
    pid = prop["id"]
    if not os.path.exists(os.path.join(HERE, "vf", "props", pid.lower() + ".py")):
        missing.append({"property": pid, "reason": "check not built yet"})
        continue
    checks.append(
        {
            "property": pid,
            "quick_cmd": "python3-vt -m vf.run %s --tier quick" % pid,
            "thorough_cmd": "python3-vt -m vf.run %s --tier thorough" % pid,
            "technique": TECH.get(
                pid, "property-based testing (Hypothesis): generated histories against an independent model"
            ),
            "level": "exploration",
            "level_note": NOTES.get(
                pid,
                "Holds on every generated case (counts and classes in the evidence); "
                "no proof of absence. Trusts the reference model in /verif/vf.",
            ),
        }
    )
out = {
    "version": 1,
    "setup_cmd": "python3-vt -c 'from vf import boot; boot.load(); import hypothesis'",
    "checks": checks,
    "not_applicable": missing,
    "notes": "No hooks in /repo: every property is observed through the public interface. "
    "VERIF_SEED fixes every random choice.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as file:
    json.dump(out, file, indent=1)
    file.write("\n")
