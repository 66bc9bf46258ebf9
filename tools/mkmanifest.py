#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': 'fuzzing: grammar/token/byte mutation of programs, stdin and data files on a sanitizer build',
 'C02': 'property-based testing: random and exhaustive expressions against a reference evaluator',
 'C03': 'property-based testing: random and exhaustive control-flow programs against a reference interpreter',
 'C04': 'property-based testing: random call graphs against a reference interpreter',
 'C05': 'property-based testing: type-pair matrix and store histories against a conversion model',
 'C06': 'property-based testing: array histories against a dictionary model',
 'C07': 'property-based testing: copy/mutation histories of generated record types against a deep-copy model',
 'C08': 'property-based testing: constants x writers, value unchanged and attempt diagnosed',
 'C09': 'property-based testing: pointer histories against an alias model with activation identities',
 'C10': 'metamorphic property-based testing: layout transformations of generated and corpus programs',
 'C11': 'fault injection with generated programs: syntax faults with sentinels, runtime faults with expected line chains',
 'C12': 'metamorphic and model-based testing of REPL histories',
 'C13': 'property-based round-trip testing of random-file records across processes',
 'C14': 'model-based testing of random-file histories (exhaustive short, random long)',
 'C15': 'model-based testing of text-file histories (exhaustive short, random long)',
 'C16': 'model-based testing of file-handle histories with injected operating-system faults',
 'C17': 'exhaustive and random property-based testing of built-ins against reference functions and laws',
 'C18': 'exhaustive and random property-based testing of dates against an independent calendar',
 'C19': 'exhaustive and random property-based testing of enumerated types against a modular-arithmetic model',
 'C20': 'metamorphic property-based testing of the two configurations',
}
NOTE = ('Sampling plus bounded enumeration of the stated domain against an explicit oracle, on builds of the working tree; '
        'no violation is reported only for what was generated (see the evidence file for counts and DESIGN.md for the domain).')
checks, na = [], []
for p in [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]:
    if os.path.exists('%s/checks/%s.py' % (V, p.lower())):
        checks.append({'property': p, 'quick_cmd': 'python3 check.py %s --quick' % p, 'thorough_cmd': 'python3 check.py %s --thorough' % p,
                       'evidence_file': 'evidence/%s.json' % p, 'technique': T[p], 'level': 'exploration', 'level_note': NOTE})
    else:
        na.append({'property': p, 'reason': 'its check is not built yet'})
m = {'version': 1, 'setup_cmd': 'python3 lib/build.py plain san noreadline',
     'hooks': {'guard': 'PSE_VERIF_BUDGET', 'enable': 'lib/build.py compiles /repo with -DPSE_VERIF_BUDGET', 'source_commits': [os.popen('git -C /repo rev-parse ' + c).read().strip() for c in ('5ff1fe6', 'aa5e6b3', 'b31b722', '22d6990')]},
     'checks': checks, 'not_applicable': na}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', [x['property'] for x in na])
