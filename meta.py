#!/usr/bin/env python3
"""Writes properties.jsonl, props.json and MANIFEST.json from the table below (run by hand after editing it)."""
import json
SYM = "symbolic execution of the compiled crate's LLVM IR, assertions decided by z3"
NOTE = ("Bounded model checking: every path of the real code within the stated shapes and literal ranges, each assertion decided by an SMT query or by an exact algebraic oracle over "
        "symbolic coefficients; nothing is claimed outside the bounds. Trusted: rustc's IR, the IR semantics and value oracle in engine/, z3.")
VALUE = "the value of an expression is taken as a formal function of positive real variables (elementary functions by their algebraic laws; inputs whose value is undefined, such as 1/0, are skipped)"
NATIVE = "a solver counterexample is reported only after the natively compiled crate reproduces it on the concrete input"
P = []
def prop(id, title, statement, text, why, files, mech, bounds, outside, assumptions=(), over=("inputs",), **kw):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), bounds=bounds, outside=outside, assumptions=list(assumptions) + [NATIVE], **kw))
exec(open(__file__.replace("meta.py", "table.py")).read())
with open("properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
        assert len(p["title"]) <= 80, p["title"]
claimed = [p for p in P if "na" not in p]
json.dump({p["id"]: {k: p[k] for k in ("bounds", "outside", "assumptions", "budget", "skip", "args") if k in p} for p in claimed}, open("props.json", "w"), indent=1)
json.dump(dict(version=1, setup_cmd="bash build.sh && bash macroh/build.sh",
    checks=[dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']} quick", thorough_cmd=f"python3 check.py {p['id']} thorough", technique=SYM, level="model_checking",
                 level_note=NOTE + " Bounds: " + p["bounds"]) for p in claimed],
    not_applicable=[dict(property=p["id"], reason=p["na"]) for p in P if "na" in p],
    notes="no hooks in /repo: the harness uses the public API only"), open("MANIFEST.json", "w"), indent=1)

import glob, os, re
d = open("DESIGN.md").read()
def put(tag, text):
    global d
    d = re.sub(f"(<!--{tag}-->).*?(<!--/{tag}-->)", lambda m: m[1] + "\n" + text + "\n" + m[2], d, flags=re.S)
put("findings", "\n".join("* " + f["line"] for f in json.load(open("known_findings.json"))["findings"]))
rows = ["| id | property | what it breaks | needs |", "|-|-|-|-|"]
for m in sorted(glob.glob("seeded/*/meta.json")):
    j = json.load(open(m))
    rows.append("| " + " | ".join(str(x).replace("|", "/").replace("\n", " ") for x in (os.path.basename(os.path.dirname(m)), j["property"], j["what_it_breaks"], j["needs"])) + " |")
put("seeded", "\n".join(rows))
open("DESIGN.md", "w").write(d)
