"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below (python3 tools/gen.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PD = "artemis/_utilities/pd_calculator.py"
OPS = "artemis/_utilities/ops.py"
HST = "artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py"
GRE = "artemis/interactions_methods/model_agnostic/partial_dependence_based/_greenwell.py"
PDPM = "artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py"
PDI = "artemis/importance_methods/model_agnostic/_pdp.py"
PERM = "artemis/importance_methods/model_agnostic/_permutational_importance.py"
SEJ = "artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py"
ADD = "artemis/additivity/_additivity_meter.py"
METH = "artemis/interactions_methods/_method.py"
SSI = "artemis/interactions_methods/model_specific/gb_trees/_split_score.py"
SSF = "artemis/importance_methods/model_specific/_split_score.py"
HND = "artemis/_utilities/_handler.py"
CMD = "artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py"
MDI = "artemis/importance_methods/model_specific/_minimal_depth.py"
CMP = "artemis/comparison/_method_comparator.py"
VIS = "artemis/visualizer/_visualizer.py"
PVIS = "artemis/visualizer/_pdp_visualizer.py"
CFG = "artemis/visualizer/_configuration.py"
ZEN = "artemis/_utilities/zenplot.py"
MET = "artemis/_utilities/performance_metrics.py"
DOM = "artemis/_utilities/domain.py"
EXC = "artemis/_utilities/exceptions.py"

P = []


def p(id, title, statement, over, text, why, files, mech, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=[{"name": a, "where": b} for a, b in mech], note=note))


exec(open(os.path.join(ROOT, "tools", "table.py")).read())

TECH = "symbolic execution of the real Python code, assertions discharged by Z3, counterexamples replayed on the real code"


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for q in P:
            f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"],
                                "quantifier": {"over": q["over"], "text": q["text"]},
                                "why_tests_cant": q["why"],
                                "anchors": {"files": q["files"], "mechanism": q["mech"]}}) + "\n")
            assert len(q["title"]) <= 80, q["id"]
    na = globals().get("NOT_APPLICABLE", [])
    skip = {x["property"] for x in na}
    m = {"version": 1, "setup_cmd": "bash setup.sh",
         "checks": [{"property": q["id"], "quick_cmd": "bash check.sh %s quick" % q["id"],
                     "thorough_cmd": "bash check.sh %s thorough" % q["id"],
                     "technique": TECH, "level": "model_checking", "level_note": q["note"]}
                    for q in P if q["id"] not in skip],
         "not_applicable": na,
         "notes": "No hooks in /repo: the harnesses import the project from /repo's working tree and run it under symbolic values."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
