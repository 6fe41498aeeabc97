#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ("bounded symbolic execution of the real code (clang-18 LLVM IR of the vif headers, regenerated from /repo on every run) "
        "in an own executor with Z3; counterexamples replayed natively")
P = []   # claimed
N = []   # not applicable
def prop(id, title, statement, over, text, why, files, mech, note, observe=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or ["return values, vector contents and run-time errors of the public functions"], hook_needed=None)), note))
def na(id, title, statement, over, text, why, files, mech, reason):
    N.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None)), reason))
V = "include/vif/core/vec.hpp"; A = "include/vif/core/bits/access.hpp"; R = "include/vif/core/range.hpp"; OP = "include/vif/core/bits/operators.hpp"
G = "include/vif/utility/bits/"; M = "include/vif/math/"; ST = "include/vif/utility/"
exec(open(os.path.join(HERE, "tools", "props_list.py")).read())
if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for d, _ in P + N:
            f.write(json.dumps(d) + "\n")
    man = dict(version=1, setup_cmd="bash engine/build.sh",
        checks=[dict(property=d["id"], quick_cmd="./check.py %s --tier quick" % d["id"], thorough_cmd="./check.py %s --tier thorough" % d["id"],
                     technique=TECH, level="model_checking", level_note=n) for d, n in P],
        not_applicable=[dict(property=d["id"], reason=r) for d, r in N])
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1); f.write("\n")
    print(len(P), "claimed,", len(N), "not applicable")
