#!/usr/bin/env python3
"""Rewrite MANIFEST.json from properties.jsonl and the harnesses which exist (run by hand, never by a check)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
have = {f.split('_')[0] for f in os.listdir(os.path.join(here, 'harness')) if f.endswith('.cpp')}
NA = {'C27': 'No execution can be observed: affinities cannot be applied or inverted (these functions of Affinity.h do not compile) and nothing else reads them, Mask.h includes a file which does not exist, and Png.h and '
             'Tiff.h only declare functions which are never defined (libpng and libtiff are disabled in the build).'}
TECH = {
    'C23': 'race detection: multi-threaded stress of shared const inputs and private plans under ThreadSanitizer, with a monitor comparing each result with the sequential one',
    'C22': 'random stateful operation histories under AddressSanitizer, UndefinedBehaviorSanitizer and allocation accounting with shadow-model monitors, and the workloads of the other properties under Valgrind memcheck',
    'C20': 'online trace monitor over start/stop/reset histories with an interposed virtual steady clock',
    'C19': 'event-log monitor (exactly-once, order, no-need) over request/fault/reset histories',
    'C25': 'file-descriptor level capture of the standard streams while driving the other workloads',
    'C17': 'fault-injecting round-trip monitor with file inspection through CFITSIO and descriptor accounting, under sanitizers',
    'C06': 'life-cycle history monitor with allocation accounting, under AddressSanitizer',
}
NOTE = ('Held on the executions counted in the evidence file (seeded, boundary-biased workloads observed by an independent reference-model '
        'oracle, under the sanitizers), not proved for all inputs. Trusts the reference model in the harness and the sanitizer runtimes.')
checks, na = [], []
for p in props:
    i = p['id']
    if i in have and i not in NA:
        checks.append(dict(property=i, quick_cmd='python3 run.py %s --tier quick' % i, thorough_cmd='python3 run.py %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i,
                           technique='runtime monitoring: ' + TECH.get(i, 'reference-model oracle over seeded boundary-biased workloads, under AddressSanitizer and UndefinedBehaviorSanitizer'),
                           level='exploration', level_note=NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check under construction')))
json.dump(dict(version=1, setup_cmd='python3 setup_check.py', checks=checks, not_applicable=na,
               notes='Checks build their harness from REPO (default /repo) in a temporary directory; no hook is needed in the sources.'),
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
