#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from engine/props.py."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "engine"))
from props import PROPS, NA   # noqa: E402


def line(pid, p):
    return dict(id=pid, title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                             state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]], observe_at=p["observe"], hook_needed=None))


with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for pid, p in list(PROPS.items()) + list(NA.items()):
        f.write(json.dumps(line(pid, p)) + "\n")
VGTECH = ("static analysis of LLVM IR: gated value-graph (SSA congruence) comparison of the library's code with a reference formula, "
          "merged joins, plus interprocedural memory/initialisation dataflow")
EFTECH = "static analysis of LLVM IR: interprocedural effect and call-graph rules"
IVTECH = ("static analysis of LLVM IR: abstract interpretation over floating-point intervals with affine error terms, on pieces covering "
          "the whole stated input domain, against the mathematical function's enclosure")
checks = []
for pid, p in PROPS.items():
    checks.append(dict(property=pid, quick_cmd="python3 engine/check.py %s quick" % pid, thorough_cmd="python3 engine/check.py %s thorough" % pid,
                       technique="; ".join(([VGTECH] if p["units"] else []) + ([IVTECH] if p["iv"] else []) + ([EFTECH] if p["rules"] else [])), level="other",
                       level_note="Holds for all values of the symbolic inputs on the analysed configurations. " + p["explain"] +
                       " Trusts clang's front end" + (", exact-real abstraction of float arithmetic and uninterpreted elementary functions" if p["units"] else "") +
                       (", double-precision evaluation of the reference function" if p["iv"] else "") + "."))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=[dict(property=k, reason=v["reason"]) for k, v in NA.items()],
         notes="Every check recompiles /repo's current sources to LLVM IR in a scratch directory and analyses them; nothing of the library is executed.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(PROPS), "claimed", len(NA), "not applicable")
d = open(os.path.join(V, "tools", "DESIGN.head.md")).read()
t = ["## Per property", ""]
for pid, p in PROPS.items():
    ents = "; ".join("`%s`: %s" % (u["harness"][0], ", ".join(u["entries"])) for u in p["units"])
    if p["iv"]:
        ents = (ents + "; " if ents else "") + "interval analysis: " + ", ".join("group `%s`%s" % (u["group"], "" if not u.get("only") else
               " (" + ", ".join(x.split("/")[1].rstrip(".") for x in u["only"]) + ")") for u in p["iv"])
    if p["rules"]:
        ents = (ents + "; " if ents else "") + "rules: " + ", ".join(p["rules"])
    t.append("* **%s %s.** Decided by %s. %s" % (pid, p["title"], ents, p["explain"]))
t += ["", "## Not applicable", ""]
for pid, p in NA.items():
    t.append("* **%s %s.** %s" % (pid, p["title"], p["reason"]))
tail = os.path.join(V, "tools", "DESIGN.tail.md")
t += ["", "## Planted changes and the checks that catch them", "", "| change | needs | what it breaks | caught by |", "|---|---|---|---|"]
sd = os.path.join(V, "seeded")
for k in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    mm = json.load(open(os.path.join(sd, k, "meta.json")))
    t.append("| %s | %s | %s | %s |" % (k, mm["needs"], mm["what_it_breaks"], mm["property"]))
with open(os.path.join(V, "DESIGN.md"), "w") as f:
    f.write(d.replace("@@PROPS@@\n", "") + "\n".join(t) + "\n\n" + (open(tail).read() if os.path.exists(tail) else ""))
