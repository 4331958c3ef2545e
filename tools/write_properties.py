"""Writes properties.jsonl and MANIFEST.json (both are committed; run after editing this file)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "DeterministicParticleFlowControl/"
CORE = P + "DeterministicParticleFlowControl.py"
SE = P + "score_estimators/"
NUMPY, TORCH, LEG = SE + "score_function_estimators.py", SE + "score_function_estimators_pytorch.py", SE + "score.py"
RW, KER = P + "reweighting/optimal_transport_reweighting.py", P + "kernels/RBF_pytorch.py"

PROPS = []


def prop(id, title, statement, over, text, why, files, mech, note, observe=(), state=()):
    PROPS.append(dict(
        line=dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)),
        note=note))


exec(open(os.path.join(ROOT, "tools", "property_texts.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
    for p in PROPS:
        assert len(p["line"]["title"]) <= 80, p["line"]["id"]
        fh.write(json.dumps(p["line"]) + "\n")
man = dict(version=1, setup_cmd="./setup.sh", checks=[], not_applicable=[],
           notes="No hooks: every check drives the public interface of the package imported from /repo's working tree.")
for p in PROPS:
    i = p["line"]["id"]
    man["checks"].append(dict(property=i, quick_cmd="/opt/venv/bin/python run.py %s --tier quick" % i,
                              thorough_cmd="/opt/venv/bin/python run.py %s --tier thorough" % i,
                              evidence_file="evidence/%s.json" % i, technique=p["note"][0], level="exploration",
                              level_note=p["note"][1]))
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
    json.dump(man, fh, indent=1)
print(len(PROPS), "properties")
