#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property list and the property modules that exist."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import mkprops

NOTE = {
 'C01': 'simulated process pool (assignment, chunking, completion order, late results) under the real pathos/dill layer; compared with the serial fit',
 'C02': 'worker and pool failures injected into the simulated pool; fit must raise or be right, retry must equal the fault-free fit',
 'C03': 'aborts at the n-th model evaluation/allocation of a fit or optimisation and rejected configuration calls; later fits compared with fresh studies',
 'C04': 'random histories over several studies with shared model instances; every fit compared with that of a fresh study',
 'C05': 'random query/plot histories with injected failures inside the query; answers and later analyses compared with those of an undisturbed copy of the process',
 'C06': 'all user-held inputs and all returned values are watched over random histories with aborted operations',
 'C07': 'every prefix of random disturbed streams compared with a forward-only batch fit, mixtures with single-model online studies',
 'C08': 'aborts inside online steps with retries; compared with the undisturbed stream',
 'C09': 'process lives with crash at any point and restart from the last checkpoint in pristine processes; compared with the uninterrupted session',
 'C10': 'every system call of save/load behind an interposed layer: errno, short and interrupted calls, kill, power loss with unsynced data dropped, and scheduled interleaving of several processes',
 'C11': 'round trips in the same, a forked or a fresh process, truncation at any byte, failing and short reads below load',
 'C12': 'threads run one at a time, switched at seeded lines of the code under test; results compared with sequential execution',
 'C13': 'invariants over all reported distributions after each fit or step of random sessions with aborts, restores, parallel fits',
 'C14': 'live values recorded during random disturbed streams, compared with all accessors for past values',
 'C15': 'same analysis under simulated clock behaviours, memory contents, verbosity, output failures and random states',
 'C16': 'separate fits of fresh studies as executable reference model of a hyper-study, under seeded worker schedules, value orders and aborted fits',
 'C17': 'state of the simulated pools, open descriptors and directory content after each operation with injected worker, disk and content faults',
}


def main():
    checks, na = [], []
    reason = dict((x[0], x[4]) for x in mkprops.NA)
    for p in mkprops.P:
        i = p['id']
        if os.path.exists(os.path.join(HERE, 'sim', 'props', i.lower() + '.py')):
            checks.append({'property': i, 'quick_cmd': './check.sh %s quick' % i,
                           'thorough_cmd': './check.sh %s thorough' % i,
                           'technique': 'deterministic simulation with fault injection (seeded search)',
                           'level': 'exploration', 'level_note': NOTE[i]})
        elif i in reason:
            na.append({'property': i, 'reason': 'deterministic simulation does not apply: ' + reason[i]})
        else:
            na.append({'property': i, 'reason': 'check under construction'})
    m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks in /repo: all seams are installed from outside (see DESIGN.md). Fixes of genuine defects '
                  'are "fix:" commits listed in known-findings.txt.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks')


main()
