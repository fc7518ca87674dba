#!/usr/bin/env python3
"""own.py: lists planted bugs whose patch removes no line of the original repository."""
import subprocess, glob, re, os
base = 'aa61c53'
for d in sorted(glob.glob('/verif/seeded/*/patch.diff')):
    orig = own = add = 0
    f = None; n = 0
    blame = {}
    for l in open(d, errors='replace'):
        if l.startswith('--- a/'):
            f = l[6:].strip()
            b = subprocess.run(['git', 'blame', '-s', '--abbrev=12', f'{base}..HEAD', '--', f], cwd='/repo', capture_output=True, text=True).stdout.split('\n')
            blame = {i + 1: x.startswith('^') for i, x in enumerate(b)}
        elif l.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-') and not l.startswith('---'):
            if blame.get(n): orig += 1
            else: own += 1
            n += 1
        elif l.startswith('+') and not l.startswith('+++'):
            add += 1
        elif l.startswith(' '):
            n += 1
    print(f'{os.path.basename(os.path.dirname(d))}: original {orig}, own {own}, added {add}', '' if orig else '<-- none original')
