#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json
import os
import props
from how import HOW

HERE = os.path.dirname(os.path.abspath(__file__))
TECH = {"purity": "effect analysis over the call graph (writes to cells that outlive a parse)", "memo_fresh": "ownership analysis of the record of a parse",
        "zero_width": "summaries of zero-width paths against the nullability they are given", "witness": "compile-fail witnesses with compiling twins",
        "sealed": "construction analysis: every way to a parser passes its validation", "unsafe": "lint over unsafe blocks and what they reach", "prints": "guard analysis of output calls"}
OBS = {"validation": ", projected on validation errors", "state": ", projected on the record left behind", "panics": ", projected on aborts", "names": ", projected on what the message of a refusal names"}


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in props.P:
            json.dump({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["quant"]},
                       "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}, f, ensure_ascii=False)
            f.write("\n")
        for id, title, reason, statement, over in props.NA:
            json.dump({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": "every grammar and every input" if "programs" in over else "every input"},
                       "why_tests_cant": "It quantifies over all inputs; the tests sample a few.", "anchors": {"files": ["src/"], "mechanism": [{"name": title, "where": "src/"}]}}, f, ensure_ascii=False)
            f.write("\n")
    checks = []
    for p in props.P:
        t = []
        if p["keys"]:
            t.append("path-sensitive abstract interpretation of MIR: summaries of the code held against summaries of its specification by simulation" + OBS.get(p["obs"], ""))
        t += [TECH[r] for r in p["rules"]]
        checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} quick", "thorough_cmd": f"python3 check.py {p['id']} thorough",
                       "technique": "; ".join(t), "level": "other",
                       "level_note": "Static: every path of every function concerned, for all inputs and all grammars, function by function against its written specification (calls through production, lexeme and user interfaces stay abstract); loops by fixpoint and simulation, no bound. What cannot be matched is reported as undecided, not as a violation. Trusted: the extractor, the engine, the models of library functions and the specification. Not a machine-checked proof."})
    m = {"version": 1, "setup_cmd": "./facts.sh .cache", "checks": checks, "not_applicable": [{"property": n[0], "reason": n[2]} for n in props.NA]}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
    design()


def design():
    """DESIGN.md from its skeleton, the properties, the findings, the alarms met and the planted bugs"""
    s = open(os.path.join(HERE, "design.in.md")).read()
    L = ["## Properties", "",
         "Oracle: the specification named under *how*, in `model/`; bounds: none; for each, the functions it is decided on, from the patterns in `props.py`.", ""]
    for p in props.P:
        L.append(f"**{p['id']} {p['title']}.** {HOW[p['id']]}" + (f" Observed: {OBS[p['obs']][2:]}." if p["obs"] else "") + (" Rules: " + ", ".join(f"`{r}`" for r in p["rules"]) + "." if p["rules"] else "")
                 + f" *Why tests cannot:* {p['why']}")
        L.append("")
    s = s.replace("@@PROPS@@", "\n".join(L))
    s = s.replace("@@NA@@", "\n".join(f"- **{n[0]} {n[1]}.** {n[2]}" for n in props.NA))
    kf = json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]
    s = s.replace("@@FIXED@@", "\n".join(f"- {f['property']} `{f['commit']}`: {f['what']}" for f in kf if f["status"] == "fixed"))
    seen, K = set(), []
    for f in kf:
        if f["status"] == "known" and f["what"] not in seen:
            seen.add(f["what"])
            n = sum(1 for g in kf if g["status"] == "known" and g["what"] == f["what"])
            K.append(f"- {f['property']}: {f['what']} ({n} entr{'y' if n == 1 else 'ies'}; example: {f['example']})")
    s = s.replace("@@KNOWN@@", "\n".join(K))
    s = s.replace("@@ALARMS@@", open(os.path.join(HERE, "alarms.md")).read().strip())
    rows = ["| bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
    caught = {}
    f = os.path.join(HERE, "caught.json")
    if os.path.exists(f):
        caught = json.load(open(f))
    sd = os.path.join(HERE, "seeded")
    for b in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, b, "meta.json")))
        rows.append("| " + " | ".join(x.replace("|", "/").replace("\n", " ") for x in (b, m["property"], m["what_it_breaks"], m["needs"], ", ".join(caught.get(b, [])) or "nothing")) + " |")
    s = s.replace("@@SEEDED@@", "Which checks report each planted bug (written from the property and the code; see `seeded/`). Checks other than the bug's own report it where they share the function.\n\n" + "\n".join(rows))
    open(os.path.join(HERE, "DESIGN.md"), "w").write(s)


main()
