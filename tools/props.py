#!/usr/bin/env python3
"""Single source of the property list.  Writes properties.jsonl, checks.json and MANIFEST.json.
Run by hand after editing; the checks never run it."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ASSUME = [
    "the LLVM IR rustc (stable toolchain, opt-level 2, overflow checks on, no vectorisation) emits for /repo's crates and the standard library means what this engine's interpreter computes; sampled paths are replayed natively and compared on every run",
    "the allocator never fails; documents larger or deeper than the stated bounds (stack exhaustion included) are outside them",
]
TECH = "symbolic execution of the compiled (LLVM IR) real code; exact byte-domain reasoning and Z3 QF_BV decide every branch and assertion; counterexamples replayed natively"
NOTE = "Bounded model checking over all inputs of the stated shapes (see bounds in the evidence). Trusts rustc's IR, the engine's interpreter (sampled against native runs each time) and Z3."
PROPS, BOUNDS, CRATES, NA = [], {}, {}, []


def prop(id, title, statement, qtext, why, files, mech, crate, quick, thorough=(), over=("inputs",), features=None, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=list(over), qtext=qtext, why=why, files=files, mech=mech, crate=crate,
                      quick=list(quick), thorough=list(quick) + [t for t in thorough if t not in quick], features=features, kw=kw))


def na(id, title, statement, qtext, why, files, mech, reason, over=("inputs",)):
    PROPS.append(dict(id=id, title=title, statement=statement, over=list(over), qtext=qtext, why=why, files=files, mech=mech, reason=reason))


exec(open(os.path.join(V, "tools", "list.py")).read())

out = []
checks, man, nal = {}, [], []
for p in PROPS:
    out.append({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}})
    assert len(p["title"]) <= 80, p["title"]
    if "reason" in p:
        nal.append({"property": p["id"], "reason": p["reason"]})
        continue
    c = {"crate": p["crate"], "quick": p["quick"], "thorough": p["thorough"]}
    if p["features"]:
        c["features"] = p["features"]
    kw = dict(p["kw"])
    c.update(kw)
    checks[p["id"]] = c
    man.append({"property": p["id"], "quick_cmd": f"./check {p['id']} quick", "thorough_cmd": f"./check {p['id']} thorough",
                "evidence_file": f"evidence/{p['id']}.json", "technique": TECH, "level": "model_checking", "level_note": NOTE})
    CRATES.setdefault(p["crate"], p["features"] or [])
open(os.path.join(V, "properties.jsonl"), "w").write("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in out))
json.dump({"assumptions": ASSUME, "crates": CRATES, "bounds": BOUNDS, "checks": checks}, open(os.path.join(V, "checks.json"), "w"), indent=1, ensure_ascii=False)
m = {"version": 1, "setup_cmd": "./check --setup", "checks": man, "not_applicable": nal,
     "notes": "All checks share one engine (engine/) and driver (check); see DESIGN.md."}
if HOOKS:
    m["hooks"] = HOOKS
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(man), "checks", len(nal), "not applicable")
