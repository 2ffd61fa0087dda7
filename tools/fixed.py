#!/usr/bin/env python3
"""writes /verif/known_findings.txt: 'fixed:' lines from the fix commits of /repo, 'finding:' lines from findings.py"""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(__file__))
from findings import FIXED, FINDINGS
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '878ce77..HEAD'], stdout=subprocess.PIPE, text=True).stdout.strip().split('\n')
out = ['# finding: property=<id> key=<rule|construct> <what fails>   a genuine defect that is reported and not repaired',
       '# fixed: property=<id> <commit> <what failed>                 a genuine defect repaired in /repo (suppresses nothing)']
for ln in log:
    h, s = ln.split(' ', 1)
    if 'second layer' in s:        # repaired and taken back: an existing test relies on the defect
        continue
    hit = [(k, p) for k, p in FIXED if k in s]
    assert len(hit) == 1, (ln, hit)
    out.append('fixed: property=%s %s %s' % (hit[0][1], h, s.replace('fix: ', '')))
for p, key, text in FINDINGS:
    out.append('finding: property=%s key=<%s> %s' % (p, key, text))
open(H + '/known_findings.txt', 'w').write('\n'.join(out) + '\n')
print(sum(o.startswith('fixed:') for o in out), 'fixed', len(FINDINGS), 'findings')
