#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl') if l.strip()]
TECH = {
 'P01': 'runtime monitor: real test run on a recording generator, p-values and draw counts compared online with an independent reference statistic',
 'P02': 'runtime monitor: real test run on a recording generator, p-values and draw counts compared online with an independent reference statistic',
 'P03': 'runtime monitor: real test run on a recording generator, p-values and draw counts compared online with an independent reference statistic',
 'P04': 'runtime monitor: online bit-conservation checker over recorded request/word traces',
 'P05': 'runtime monitor: final p-value of the real pipeline against an independent KS/Kuiper oracle on injected p-values',
 'P06': 'runtime monitor: event log of every test invocation in the real program checked offline against a model of the run rules',
 'P07': 'runtime monitor: every printed field checked offline against the event log of the run that printed it',
 'P08': 'runtime monitor: differential executions under perturbed memory, environment and history',
 'P09': 'runtime monitor: delivered words recorded and compared with the bytes supplied, under fragmented reads and rewinds',
 'P10': 'runtime monitor: delivered numbers recorded and compared with a reference parser of generated files',
 'P11': 'runtime monitor: dump bytes checked against recorded generator output, and round trips',
 'P12': 'runtime monitor: generator calls under random draw/reseed histories compared online with independent reference generators',
 'P13': 'runtime monitor: combined output compared with the XOR of separately recorded component streams',
 'P14': 'sanitizers: AddressSanitizer, UBSan, LeakSanitizer and uninitialised-memory perturbation over hostile streams and sizes',
 'P15': 'sanitizers: ASan/UBSan build of the program under generated hostile command lines and input files, exit-status monitor',
 'P16': 'runtime monitor: listings, selections and battery runs compared through the event log',
 'P17': 'runtime monitor: kernel calls recorded with inputs and compared with independent definitions',
}
NOTE = 'Holds on every execution explored (seeded by VERIF_SEED); says nothing about executions not run. Trusts the reference implementations in /verif/harness and /verif/checks, GSL special functions, and the compiler.'
checks, na = [], []
for p in props:
    i = p['id']
    f = 'checks/%s.py' % i.lower()
    if os.path.exists(os.path.join(V, f)):
        checks.append(dict(property=i, quick_cmd='VERIF_TIER=quick python3-vt ' + f,
                           thorough_cmd='VERIF_TIER=thorough python3-vt ' + f,
                           evidence_file='evidence/%s.json' % i, technique=TECH[i], level='exploration', level_note=NOTE))
    else:
        na.append(dict(property=i, reason='check not built yet'))
m = dict(version=1, setup_cmd='python3-vt -c "import numpy, scipy" && gcc --version >/dev/null', checks=checks, not_applicable=na,
         notes='No hooks in /repo: harnesses interpose at link time (replacement generators, --wrap of the registries) and every check compiles /repo\'s working tree itself in a scratch directory.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
