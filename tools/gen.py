#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from props.py, checks.txt and the levels below.
import json, os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import P
from levels import L
checks = dict(l.split()[:2] for l in open(root + '/checks.txt') if l.strip())
with open(root + '/properties.jsonl', 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
hooks = [l.split()[0] for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], capture_output=True, text=True).stdout.splitlines() if ' verif hook' in l]
m = dict(version=1, setup_cmd='./setup.sh',
    hooks=dict(guard='rustbit_verif', enable='RUSTFLAGS --cfg rustbit_verif, set in the .cargo/config.toml of the checker crates; /verif/rb compiles /repo/src/main.rs as a library with it', source_commits=hooks),
    checks=[], not_applicable=[],
    notes='One script, ./check <id>: rebuilds the checker against /repo/src and explores. See DESIGN.md.')
for x in P:
    i = x['id']
    if i in checks:
        t = L[i]
        m['checks'].append(dict(property=i, quick_cmd=f'./check {i}', thorough_cmd=f'VERIF_TIER=thorough ./check {i}',
            evidence_file=f'evidence/{i}.json', technique=t[1], level=t[0], level_note=t[2]))
    else:
        m['not_applicable'].append(dict(property=i, reason='check not built yet'))
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
open(root + '/MANIFEST.json', 'a').write('\n')
