"""Properties and manifest text; run as a script it rewrites properties.jsonl and MANIFEST.json."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, na=na))


WHY = ("The tests compare hand-picked or random values on the one instruction set the build machine selects; the five reliable ones check ABI "
       "symbols and linking, no value at all. ")

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "meta_props.py")).read())

LEVEL_NOTE = ("Solver verdict for all input values, all lanes, per instruction set listed in the evidence; %s Trusted: clang 18's lowering of the "
              "sources to LLVM IR, the IR and intrinsic semantics in engine/ (validated against native runs each time), z3/cvc5.")
DEFAULT_NOTE = "no bound other than the vector sizes."


def main():
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    from checks import CHECKS
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            if p["id"] not in CHECKS and not p["na"]:
                continue
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
    checks = []
    na = []
    for p in P:
        if p["na"]:
            na.append(dict(property=p["id"], reason=p["na"]))
        elif p["id"] in CHECKS:
            checks.append(dict(
                property=p["id"], quick_cmd="./check %s --tier quick" % p["id"], thorough_cmd="./check %s --tier thorough" % p["id"],
                evidence_file="evidence/%s.json" % p["id"], technique="symbolic execution of the LLVM IR of the real code, SMT (z3, cvc5)",
                level="model_checking", level_note=LEVEL_NOTE % (p["note"] or DEFAULT_NOTE)))
    m = dict(version=1, setup_cmd="./setup", checks=checks, not_applicable=na,
             notes="No hooks in /repo. Each check compiles its harnesses from /repo's working tree, see DESIGN.md.")
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "checks,", len(na), "not applicable")


if __name__ == "__main__":
    main()
