#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules that exist."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': 'runtime monitor: oscillator-model oracle over observed harmonic runs',
 'C02': 'runtime monitor: invariant checker over observed result tables',
 'C03': 'runtime monitor: metamorphic (unit change) oracle over paired runs',
 'C04': 'runtime monitor: oracle and argument-integrity monitor on conversion calls',
 'C05': 'ASan+UBSan and TSan builds, instrumented OpenMP runtime with schedule perturbation',
 'C06': 'runtime monitor: minimum/Legendre oracle over observed quasi-harmonic runs',
 'C07': 'runtime monitor: identity checker over observed quasi-harmonic tables',
 'C08': 'runtime monitor: analytic model crystal oracle, differential between routes',
 'C09': 'runtime monitor: grid oracle on calculators and result files',
 'C10': 'runtime monitor: derivative oracle on observed EoS evaluations',
 'C11': 'runtime monitor: parameter-recovery oracle and mutation monitor on fits',
 'C12': 'runtime monitor: derivative and recovery oracle on E-V EoS',
 'C13': 'offline checker over recorded logs and screen output of CLI runs',
 'C14': 'runtime monitor: tensor-definition and rotation oracle',
 'C15': 'runtime monitor: tensor-contraction oracle on directional properties',
 'C16': 'runtime monitor: dense-direction bound checker on reported extremes',
 'C17': 'runtime monitor: Christoffel eigen-oracle on observed velocities',
 'C18': 'runtime monitor: refusal checker on hostile tensors (API and CLI)',
 'C19': 'runtime monitor: symmetry-class oracle on generated tensors',
 'C20': 'runtime monitor: row-by-row tensor oracle on polar tables',
 'C21': 'runtime monitor: round-trip oracle on readers over generated files',
 'C22': 'fault injection on input files with refusal/leftover monitor',
 'C23': 'runtime monitor: history-independence checker over operation sequences',
 'C24': 'runtime monitor: round-trip oracle on generators over synthetic outputs',
 'C25': 'offline checker: result file against in-memory results',
 'C26': 'offline checker: exported text against result file',
 'C27': 'fault injection and file-system monitor around CLI sessions',
 'C28': 'runtime monitor: polynomial oracle on observed calls',
 'C29': 'runtime monitor: quadrature oracle and identities on observed calls',
 'C30': 'runtime monitor: CLI session outcome checker over option combinations',
}
NOTE = {
 'C05': 'Sanitizers report what the executed schedules and shapes reach; '
        'schedules are perturbed, not enumerated.',
}
checks = []
for cid in sorted(T):
    if not os.path.exists(os.path.join(ROOT, 'checks', cid.lower() + '.py')):
        continue
    checks.append({
        'property': cid,
        'quick_cmd': './check.py %s --tier quick' % cid,
        'thorough_cmd': './check.py %s --tier thorough' % cid,
        'evidence_file': 'evidence/%s.json' % cid,
        'technique': T[cid],
        'level': 'fault_enumeration' if False else 'exploration',
        'level_note': NOTE.get(cid, 'Holds on every execution observed; reach '
                               'comes from generated and hostile workloads, '
                               'not from enumeration.'),
    })
done = {c['property'] for c in checks}
na = [{'property': c, 'reason': 'check not built yet'} for c in sorted(T)
      if c not in done]
m = {'version': 1,
     'setup_cmd': '/opt/venv/bin/python tools/selfcheck.py',
     'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
