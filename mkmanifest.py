#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (the claimed properties) and properties.jsonl."""
import json
T = {
 'C01': ("exhaustive bounded enumeration of token, character and mutation sequences on the real parsers", "every text up to the stated lengths after every grammatical context is run through lexer, parser, printer and diff; says nothing about longer novel texts"),
 'C02': ("exhaustive bounded enumeration of schemas, parse/print compared with an independent reader", "complete over the listed schema families per dialect; the reference reader (harness/model) is trusted"),
 'C03': ("exhaustive enumeration of equivalent spellings of every schema in the bound", "complete over the listed rewritings of the listed schemas"),
 'C04': ("explicit-state model checking: every schema pair's migration executed on a reference database model", "complete over ordered pairs of the families; the executable schema model is trusted"),
 'C05': ("explicit-state model checking: every statement of every migration checked for enabledness in the reference database model", "complete over ordered pairs of the families; enabledness rules of the model are trusted"),
 'C06': ("exhaustive enumeration of schema pairs against the model's equivalence", "complete over ordered pairs and renderings of the families"),
 'C07': ("explicit-state model checking: effects of every migration compared with the model's difference", "complete over ordered pairs of the families"),
 'C08': ("exhaustive enumeration of operation histories (depth 3) on shared parsed schemas and of all schedules of two operations with one preemption at any statement, on the real code under a controlled scheduler", "complete over histories of the pool of shared parsed schemas and over single preemptions at statement granularity (thorough: also a second preemption at chosen points)"),
 'C10': ("exhaustive enumeration of operator answers and environment faults on the real command", "complete over the listed migrations, answers, input and output faults; the database is a modelled driver"),
 'C11': ("exhaustive enumeration of scripts and fault points on the real apply against a modelled database", "complete over the listed schema pairs; what the driver receives is compared with what was shown"),
 'C12': ("exhaustive fault enumeration (which statement fails, how often, connection loss) on the real apply", "complete over placements of up to two (thorough: three) failures over the driver calls of the listed migrations"),
 'C13': ("exhaustive fault enumeration on the real Spanner batch path against a protocol automaton", "complete over outcome sequences of the listed batches; the driver records the protocol"),
 'C14': ("explicit-state model checking: apply executed against a modelled database, then diffed again", "complete over sequences of applies between the schemas of the pool; the executable database model is trusted"),
 'C15': ("exhaustive fault enumeration of every database read of the real show code", "every single (and pairs of) database read failures at every call, row and column of the listed databases"),
 'C16': ("exhaustive enumeration of catalog contents on the real show code", "complete over the listed catalogue contents; the modelled catalogue is trusted"),
 'C17': ("exhaustive enumeration of annotated Go sources against a reference reader", "complete over the listed source constructs and tag forms; the reference reader is trusted"),
 'C18': ("exhaustive enumeration of source trees against a reference selection", "complete over the listed trees of entries, argument forms and destinations"),
 'C19': ("exhaustive enumeration of the starting points of every map iteration (the runtime's own choice, controlled), of orders and of histories of generation on the real command", "every map iteration start is controlled, all orders and histories within the bound are run"),
 'C20': ("exhaustive enumeration of annotated Go sources, generated SQL compared with the source by a reference reader", "complete over the listed annotation values per dialect; the reference reader is trusted"),
 'C21': ("exhaustive enumeration of argument kinds and dialects on the real diff command", "complete over pairs of argument forms and contents per dialect"),
 'C22': ("exhaustive enumeration of flag/environment/default combinations on the real command, over histories of invocations", "complete over pairs of options, the product of five options, and pairs of invocations in one process"),
 'C23': ("exhaustive enumeration of command lines, argument kinds and environment faults on the built program", "complete over tuples of up to two argument kinds, the listed invalid options, command lines and databases; the built program is run"),
}
import os
claimed = open('/verif/claimed.txt').read().split()
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in claimed:
        t, n = T[i]
        checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
                       "technique": "model checking: " + t, "level": "model_checking",
                       "level_note": (n or "complete over the stated alphabet and bounds; the reference model in harness/ is trusted") + ". Bounds, alphabet and oracle are in DESIGN.md and in the evidence file."})
    else:
        na.append({"property": i, "reason": "the explorer for this property is not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks in /repo: harness packages are laid into the module with go build -overlay", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "All checks are ./check <id> <tier>; known findings and repaired defects are in known_findings.txt."}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1); open('/verif/MANIFEST.json','a').write('\n')
