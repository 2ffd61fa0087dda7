#!/usr/bin/env python3
"""mkseed.py SPEC.py: makes /verif/seeded/<id>/ from a spec: ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO (python source)."""
import difflib, json, os, sys, subprocess
SEED = '/verif/seeded'
spec = {}
exec(open(sys.argv[1]).read(), spec)
for S in spec['SEEDS']:
    d = os.path.join(SEED, S['id'])
    os.makedirs(d, exist_ok=True)
    out = {}
    for f, old, new in S['edits']:
        txt = out.get(f) or open('/repo/' + f, newline='').read()
        if txt.count(old) == 1:
            out[f] = txt.replace(old, new)
            continue
        if '\r\n' in txt:
            old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        if txt.count(old) == 1:
            out[f] = txt.replace(old, new)
            continue
        # line by line, blanks at the end of lines and semicolons ignored
        norm = lambda l: l.rstrip().rstrip(';').rstrip()
        nl = '\r\n' if '\r\n' in txt else '\n'
        tl, ol = txt.split(nl), old.split(nl)
        tail = ol[-1] == ''
        if tail:
            ol = ol[:-1]
        at = [i for i in range(len(tl)) if [norm(x) for x in tl[i:i + len(ol)]] == [norm(x) for x in ol]]
        assert len(at) == 1, (S['id'], f, old, txt.count(old), at)
        tl[at[0]:at[0] + len(ol)] = new.split(nl)[:-1] if tail else new.split(nl)
        out[f] = nl.join(tl)
    diff = ''
    for f, new in out.items():
        a = open('/repo/' + f, newline='').read().splitlines(True)
        b = new.splitlines(True)
        a = [x if x.endswith('\n') else x + '\n\\ No newline at end of file\n' for x in a]
        b = [x if x.endswith('\n') else x + '\n\\ No newline at end of file\n' for x in b]
        diff += 'diff --git a/%s b/%s\n' % (f, f) + ''.join(difflib.unified_diff(a, b, 'a/' + f, 'b/' + f))
    open(os.path.join(d, 'patch.diff'), 'w', newline='').write(diff)
    open(os.path.join(d, S.get('demoname', 'demo.py')), 'w').write(S['demo'].lstrip('\n'))
    open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexport PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n' if 'sh' not in S else S['sh'])
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': S['prop'], 'needs': S['needs'], 'what_it_breaks': S['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    r = subprocess.run(['git', '-C', '/repo', 'apply', '--check', os.path.join(d, 'patch.diff')])
    print(S['id'], 'applies' if r.returncode == 0 else 'DOES NOT APPLY')
