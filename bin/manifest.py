#!/usr/bin/env python3
# writes MANIFEST.json from properties.jsonl and the table of bin/check
import json, importlib.machinery, importlib.util, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
l = importlib.machinery.SourceFileLoader("check", V + "/bin/check")
m = importlib.util.module_from_spec(importlib.util.spec_from_loader("check", l))
l.exec_module(m)
props = [json.loads(x) for x in open(V + "/properties.jsonl")]
checks = []
for p in props:
    i = p["id"]
    scenes = ", ".join(m.TABLE[i][0])
    checks.append({
        "property": i,
        "quick_cmd": "python3 bin/check %s quick" % i,
        "thorough_cmd": "python3 bin/check %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "TLA+ specification: TLC model checking, behaviours generated by TLC replayed on the real program, recorded traces judged by TLC",
        "level": "model_checking",
        "level_note": "The property is checked on every transition of the TLA+ model in bounded scenes (%s; without depth bound in the thorough tier), and on every call of the "
                      "behaviours TLC generates, as the real program executes them (native build under the Solana test runtime). For the code itself this is conformance "
                      "testing over generated histories and systematic neighbourhoods of every operation, not a proof; assumes native execution matches on-chain execution." % scenes,
    })
json.dump({"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo. One repair: 27e5380. Findings: known_findings.txt, DESIGN.md."}, open(V + "/MANIFEST.json", "w"), indent=1)
