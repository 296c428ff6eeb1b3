#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and the list of checks that exist.
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
TODO = set(open(here + '/tools/todo').read().split()) if os.path.exists(here + '/tools/todo') else set()
SIM = ("deterministic simulation with fault injection: seeded aircraft, radio channel and receivers drive the real decoder in one process; "
       "every reception is judged against an executable reference encoder, failures are minimised to a replay file")
TECH = {
    'C13': "deterministic simulation: the decoder is rebuilt with scheduling points (overlay), a seeded scheduler runs its threads one step at a time, every interleaving is "
           "judged against the sequential results and by the race detector; failures are minimised to a replay file",
    'C15': "deterministic simulation with fault injection: the real program runs over a scripted operating system (overlay of the file calls: short reads, interrupted calls, "
           "errors at any point); its output is judged against a reference report of each line; failures are minimised to a replay file",
}
NOTE = "seeded exploration: holds on every simulated run explored, not a proof"
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': [], 'hooks': {'guard': 'verif', 'enable': 'none needed: no hook is in /repo, instrumentation is laid over at build time (go build -overlay)', 'source_commits': []}, 'not_applicable': []}
for p in props:
    i = p['id']
    if i in TODO:
        m['not_applicable'].append({'property': i, 'reason': 'the check is still being built'})
        continue
    m['checks'].append({'property': i, 'quick_cmd': './check.sh %s quick' % i, 'thorough_cmd': './check.sh %s thorough' % i,
                        'technique': TECH.get(i, SIM), 'level': 'exploration', 'level_note': NOTE})
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
