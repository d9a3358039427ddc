#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property on the current source of /repo.

Exit 0: held on everything analysed.  Exit 1: a VIOLATION line names the property and a report.
Exit 2: the source could not be analysed at all."""
import json
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.path.insert(0, HERE)

import props  # noqa: E402
import runner  # noqa: E402
import rules  # noqa: E402
from pairing import Pairing  # noqa: E402

ASSUMED = ["the standard library, regex and once_cell behave as documented; their functions are modelled in model/std_model.rs and engine/builtins_.py",
           "functions and closures handed in by the user do not panic and do not depend on anything but their arguments",
           "regular expressions of lexemes are anchored at their beginning, as the documentation demands",
           "the specification in model/ says what the property says (it is written against the documentation, not generated from the code)"]


def select(p, R):
    pats = [re.compile(x) for x in p["keys"]]
    out = []
    for k in sorted(R.spec):
        if runner.skip(k) or not (k[0] or k[1] or k[2] == "build_grammar"):
            continue
        if any(x.search("|".join(k)) for x in pats):
            out.append(k)
    return out


def known(pid):
    f = os.path.join(HERE, "known_findings.json")
    return {x["key"]: x for x in json.load(open(f))["findings"] if x["property"] == pid and x["status"] == "known"}


def entry(r):
    return re.match(r".*::(advance_\w+)$", r.name)


def judge(p, results):
    """which of the mismatches break this property"""
    bad = [r for r in results if r.status == "violation"]
    if p["id"] == "S05":
        # the two builds must agree: a mismatch counts when only one of them has it
        st = {}
        for r in results:
            st.setdefault((r.name, r.fn), {})[r.mode] = r.status
        keep = []
        for r in bad:
            o = st[(r.name, r.fn)].get("on" if r.mode == "off" else "off")
            if o == "ok":
                keep.append(r)
        return keep
    if p["id"] == "P14":
        # one definition in three places: a mismatch counts when not all of them have it
        groups = {}
        for r in results:
            m = re.match(r"<(\w+) as IProduction>::advance_", r.name)
            if m:
                groups.setdefault((m.group(1), r.mode), {})[r.name] = r.status
        keep = []
        for r in bad:
            m = re.match(r"<(\w+) as IProduction>::advance_", r.name)
            g = groups.get((m.group(1), r.mode)) if m else None
            if g and any(s == "ok" for s in g.values()):
                keep.append(r)
        return keep
    return bad


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    p = next(x for x in props.P if x["id"] == pid)
    t0 = time.time()
    dir = os.environ.get("VP_FACTS") or os.path.join(HERE, ".cache")
    r = subprocess.run([os.path.join(HERE, "facts.sh"), dir], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-3000:])
        print(f"{pid}: the source could not be analysed (it does not compile, or the fact extractor failed)")
        return 2
    programs = {m: runner.load(dir, m) for m in ("off", "on")}
    R = Pairing(programs["off"])
    keys = select(p, R)
    limit, secs = (120, 20) if tier == "quick" else (400, 90)
    results, missing = runner.run(programs, keys, p["obs"], limit, secs) if keys else ([], [])
    # what has to come out does not come out where the code aborts
    aborts = []
    if p["obs"] is None and pid not in ("S05", "P14"):
        s6 = set(select(next(x for x in props.P if x["id"] == "S06"), R))
        ks = [k for k in keys if k in s6]
        aborts = [x for x in (runner.run(programs, ks, "panics", limit, secs)[0] if ks else ()) if x.status in ("violation", "ok")]
    # functions of the specification crate that never had one in the source
    internal = {l.strip() for l in open(os.path.join(HERE, "model", "internal.txt"))}
    missing = [x for k, x in missing if "|".join(k) not in internal]
    bad = judge(p, results)
    bad += [x for x in aborts if x.status == "violation"]
    findings = []
    for x in bad:
        findings.append({"key": f"spec|{x.name}|{x.what[:60]}", "where": f"{x.file}:{x.line}", "function": x.fn, "build": "debug" if x.mode == "on" else "release",
                         "what": f"{x.name} does not do what its specification says: {x.what}", "detail": x.detail})
    rulecov = {}
    for n in p["rules"]:
        fs, cov = rules.RULES[n](programs, dir)
        rulecov[n] = dict(cov, statement=" ".join((rules.RULES[n].__doc__ or "").split()), findings=len(fs))
        for f in fs:
            findings.append({"key": f"{n}|{f.key}", "where": f"{f.file}:{f.line}", "function": f.fn, "what": f.what, "detail": f.detail, "rule": n})
    kn = known(pid)
    new, old = [], []
    seen = set()
    for f in findings:
        if f["key"] in kn:
            if f["key"] not in seen:
                old.append((f, kn[f["key"]]))
        else:
            new.append(f)
        seen.add(f["key"])
    undecided = [x for x in results if x.status == "undecided"]
    for f, k in old:
        print(f"KNOWN-FINDING: property={pid} {k['what']} ({f['where']})")
    for x in undecided:
        print(f"note: {x.name} ({'debug' if x.mode == 'on' else 'release'} build) undecided: {x.detail.splitlines()[0][:200]}")
    for x in missing:
        print(f"note: {x} has no counterpart in the source any more")
    ok = [x for x in results if x.status == "ok"]
    other = len([x for x in results if x.status == "violation" and x not in bad])
    fns = sorted({g for x in results for g in (x.stats or {}).get("functions", [])})
    cov = {
        "explanation": "Each function named below is summarised from its MIR (all paths, loops by fixpoint) and held against the summary of its specification, path by path and loop by loop; "
                       + ("only the " + {"validation": "errors that end a parse", "state": "record left behind", "panics": "question whether it aborts", "names": "productions named by a refusal"}[p["obs"]] + " counted as observable. " if p["obs"] else "")
                       + "The rules listed are further analyses of the whole crate. Nothing was executed.",
        "obligations": len(results) + len(p["rules"]),
        "discharged": len(ok) + sum(1 for n in p["rules"] if not any(f.get("rule") == n for f in new)),
        "undecided": [f"{x.name} [{x.mode}]: {x.detail.splitlines()[0][:200]}" for x in undecided],
        "without_counterpart": missing,
        "shown_not_to_abort_where_the_specification_does_not": len([x for x in aborts if x.status == "ok"]),
        "mismatches_left_to_other_properties": other,
        "builds": sorted(programs),
        "paths_of_the_code": sum((x.stats or {}).get("segments", 0) for x in results),
        "paths_of_the_specification": sum((x.stats or {}).get("spec_segments", 0) for x in results),
        "path_pairs_compared": sum((x.stats or {}).get("compared", 0) for x in results),
        "loop_pairs": sum((x.stats or {}).get("loop_pairs", 0) for x in results),
        "outcomes_compared": sum((x.stats or {}).get("obligations", 0) for x in results),
        "functions_analysed": len(fns),
        "functions": [f"{x.name} [{x.mode}] {x.file}:{x.line} {x.status}" for x in results],
        "rules": rulecov,
        "checker_cmd": f"python3 check.py {pid} {tier}",
        "samples": [f"{x.name}: {x.stats.get('segments')} paths against {x.stats.get('spec_segments')}, {x.stats.get('compared')} pairs, by {x.stats.get('how')}" for x in ok[:5]],
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {"property": pid, "tier": "thorough" if tier == "thorough" else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other", "coverage": cov,
          "wall_s": round(time.time() - t0, 2), "assumptions": ASSUMED,
          "violations": len(new)}
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{pid}.json"), "w"), indent=1)
    if not ok and not any(rulecov) and not new:
        print(f"{pid}: nothing could be decided")
        return 2
    if new:
        rd = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, f"{pid}.txt")
        with open(path, "w") as fh:
            for f in new:
                fh.write(f"{f['what']}\n  at {f['where']} in {f['function']}" + (f" ({f['build']} build)" if f.get("build") else "") + f"\n  key {f['key']}\n{f['detail']}\n\n")
            fh.write(f"To see it again: cd {HERE} && python3 check.py {pid} {tier}\n")
        for f in new[:6]:
            print(f"{f['where']}: {f['what']}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print(f"{pid}: held on {len(ok)} of {len(results)} functions and {len(p['rules'])} rules ({len(undecided)} undecided) in {time.time() - t0:.1f} s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
