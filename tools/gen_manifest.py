#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
na = {
 'N01': 'A pure function of one value: no concurrency, time, I/O, randomness or second party for a simulator to control. Its results are judged where they surface (C23 checks every rendered error).',
 'N02': 'A pure function of one string: nothing for a simulator to schedule or fail. Malformed and well-formed headers are presented to the real endpoints under C05 and C23.',
 'N03': 'A pure function of a word list: nothing for a simulator to schedule or fail. Word orders are varied in the requests of C11 to C13 and C16.',
}
notes = {
 'C14': ' One known finding (hash-encoding) is listed in known-findings.txt.',
 'C21': ' The entropy source is crypto/rand.Reader and the clock time.Now, both replaced by the simulator; two processes play the same seeds to stand for a restart at the same time.',
 'C22': ' The JWK library is not available offline; a stand-in (stubs/jwx) marshals and parses the keys.',
}
checks = []
for p in props:
    i = p['id']
    if i in na:
        continue
    checks.append({
        'property': i,
        'quick_cmd': './check.sh %s quick' % i,
        'thorough_cmd': './check.sh %s thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'deterministic simulation with fault injection: seeded random schedules, faults, crashes and clock changes over the real code, judged against a reference model',
        'level': 'exploration',
        'level_note': 'Seeded search, not exhaustive: nothing is claimed beyond the runs made (counts in the evidence file). Trusts the reference model of the data layer and the oracle; tasks are switched at the library\'s calls to its surroundings.' + notes.get(i, ''),
    })
m = {
    'version': 1,
    'setup_cmd': './build.sh',
    'checks': checks,
    'not_applicable': [{'property': k, 'reason': v} for k, v in na.items()],
    'notes': 'No hooks in /repo: the simulator uses the interfaces the library has (data layer, callbacks, clock, logger, http) and builds from /repo\'s working tree in a temporary directory. ./replay.sh FILE reproduces a reported violation. Known and repaired defects: known-findings.txt.',
}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
