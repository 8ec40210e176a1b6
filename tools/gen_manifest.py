#!/usr/bin/env python3
# Regenerates /verif/MANIFEST.json.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
NA = {
    'C29': 'A pure string formatting rule of the FreeBSD, NetBSD and DragonFly branches of common/terminal.c: it depends on no schedule, clock, '
           'fault or second party, and its code is not compiled (and its headers do not exist) on Linux, so there is no execution to simulate.',
}
TODO = [x for x in os.environ.get('TODO', '').split() if x]
for t in TODO:
    NA[t] = 'not yet covered by the simulator'
BASE = ('Seeded search over schedules, fault sequences and inputs of the real code in a deterministic simulator; every run is judged by an executable '
        'reference model. It samples, it does not enumerate: a violation that needs a rarer combination than the search meets is missed. '
        'Trusted: the simulated kernel (sim/kernel.cc, sim/shim.cc)%s and the oracle.')
checks = []
for i in ids:
    if i in NA:
        continue
    n = int(i[1:])
    checks.append(dict(property=i, quick_cmd=f'./check {i}', thorough_cmd=f'VERIF_TIER=thorough ./check {i}', evidence_file=f'evidence/{i}.json',
                       technique='deterministic simulation with fault injection (seeded random schedules, inputs and faults; reference-model oracle)',
                       level='exploration', level_note=BASE % (', the model of logind and D-Bus (sim/logind.cc)' if n in (24, 25, 27, 30) else '')))
m = dict(version=1, setup_cmd='./build.sh', hooks=dict(guard='none', enable='No hooks: the sources are compiled unmodified and linked against the simulator by renaming '
         'the libc symbols they use (tools/build.py).', source_commits=[]), checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes='Replay a reported violation with: ./check --replay FILE')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
