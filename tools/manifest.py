"""Rewrites MANIFEST.json from properties.jsonl and the check modules present in mc/."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
import importlib.util
spec = importlib.util.spec_from_file_location("techniques", os.path.join(here, "tools", "techniques.py"))
t = importlib.util.module_from_spec(spec); spec.loader.exec_module(t)
checks, na = [], []
for p in props:
    i = p["id"]
    mods = glob.glob(os.path.join(here, "mc", i.lower() + "_*.py"))
    if mods and i not in t.NOT_APPLICABLE:
        tech, note = t.TECH[i]
        checks.append(dict(property=i, quick_cmd="./run.sh %s quick" % i, thorough_cmd="./run.sh %s thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=tech, level="model_checking", level_note=note))
    else:
        na.append(dict(property=i, reason=t.NOT_APPLICABLE.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="./setup.sh",
         hooks=dict(guard="none", enable="no hooks: the checks import and drive the unmodified code in /repo", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="Every check runs `./run.sh <ID> quick|thorough`, imports corgidrp from /repo's working tree, works in a scratch HOME under the temporary directory and removes it. ./run.sh <ID> <tier> --only <case> replays one case.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
