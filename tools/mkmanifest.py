"""Writes /verif/MANIFEST.json from the registered checks (run by hand)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(here, '..')
sys.path.insert(0, root)
sys.path.insert(0, os.path.join(root, 'sa'))
import run
P = run.load_props()
NA = {
    'C24': 'Liveness over peers and network schedules (and accept ends in an unfinished todo!() today, see known-findings.txt): no sound static argument in reach bounds when a datagram arrives or a handshake completes.',
    'C25': 'Computational security of AES-GCM, HKDF and the operating system generator is a cryptographic assumption, not a property of this source; the structural part (right key, nonce, associated data, tag check, source of ids) is decided by C11, C12, C15 and C17.',
}
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 run.py --setup', 'checks': [], 'not_applicable': [],
     'notes': 'All checks are static: MIR of /repo is extracted afresh on every run and analysed by sa/; nothing of quic-sea is executed. No hooks in /repo.'}
for p in props:
    pid = p['id']
    if pid in P:
        m['checks'].append({'property': pid, 'quick_cmd': 'python3 run.py %s' % pid, 'thorough_cmd': 'python3 run.py %s --thorough' % pid,
                            'technique': 'static analysis: ' + P[pid]['technique'], 'level': P[pid].get('level', 'proof'), 'level_note': P[pid]['note']})
    else:
        m['not_applicable'].append({'property': pid, 'reason': NA.get(pid, 'check under construction')})
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks')
