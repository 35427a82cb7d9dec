#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCHED = 'stateless model checking of the implementation under a controlled scheduler (all schedules up to a deviation bound x exhaustive bounded inputs), exact oracle, race and memory monitors'
ENUM = 'explicit enumeration of all bounded configurations and operation sequences on the implementation against a reference model, memory monitors'
CONC = ENUM + '; schedules of concurrent callers under a controlled scheduler with a race monitor'
T = {'C01': SCHED, 'C02': CONC, 'C03': SCHED, 'C04': ENUM, 'C05': SCHED, 'C06': SCHED, 'C07': SCHED, 'C08': SCHED, 'C09': CONC,
     'C10': CONC, 'C11': CONC, 'C12': CONC, 'C13': CONC + ', all residues of the system allocator', 'C14': SCHED,
     'C15': 'exhaustive enumeration of option combinations and injected result faults on the real program against a reference model of its verdict and dispatch',
     'C16': CONC, 'C17': ENUM, 'C18': 'exhaustive enumeration of command lines, allocator addresses and injected results on the real program against a reference model',
     'C19': 'exhaustive enumeration of options and phase durations under a virtual clock on the real programs against a reference model of the reported figures',
     'C20': 'enumeration of all bounded configurations, operation sequences and refused memory requests on the implementation, schedules under a controlled scheduler; oracle: counted heap of the process',
     'C21': 'fault injection at every component action x schedules under a controlled scheduler (stateless model checking of the implementation), exact oracle, race and memory monitors',
     'C22': 'enumeration of all bounded dimension counts and of all throwing points x schedules under a controlled scheduler (stateless model checking of the implementation), race and memory monitors'}
NOTE = {
    SCHED: 'Every execution is the real code rebuilt from /repo. Exhaustive within the bounds in the evidence file: every listed input, and for each the schedules up to the stated deviation bound (all schedules where that is feasible). Trusts the HPX, Vc and libgomp stand-ins in /verif, whose tasks interleave at synchronisation operations (finer interleavings are covered by the race monitor), and the compilers and sanitizers.',
    ENUM: 'Every execution is the real code rebuilt from /repo. Exhaustive over the finite space of configurations in the evidence file; nothing is claimed beyond those bounds. Trusts the reference model in the driver, the compilers and sanitizers.',
}
checks = []
for p in sorted(T):
    checks.append({'property': p, 'quick_cmd': 'python3 run.py ' + p, 'thorough_cmd': 'python3 run.py %s --thorough' % p,
                   'evidence_file': 'evidence/%s.json' % p, 'technique': T[p], 'level': 'model_checking',
                   'level_note': NOTE.get(T[p], NOTE[SCHED] if T[p] == SCHED or p in ('C21', 'C22') else NOTE[ENUM])})
json.dump({'version': 1, 'setup_cmd': 'python3 --version && g++ --version', 'checks': checks, 'not_applicable': [],
           'notes': 'Checks build everything they need from /repo in a scratch directory. No hooks in /repo are needed. Known findings: known_findings.txt.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
