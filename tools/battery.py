"""Self-test: apply small edits to a copy of the repository and show what a check says about each.

usage: battery.py SPEC.py [NAME...]   (SPEC defines CHECKS = ['Pxx'] and CASES = [(name, expected exit code, [(file, old, new), ...])])
"""
import os, shutil, subprocess, sys, tempfile, concurrent.futures as cf

src = os.environ.get('BASE', '/repo')
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]


def one(case):
    name, want, edits = case
    d = tempfile.mkdtemp(prefix='battery-')
    try:
        for x in ('ccore', 'pyclustering', 'setup.py'):
            subprocess.run(['cp', '-a', '%s/%s' % (src, x), d], check=True)
        for path, old, new in edits:
            p = '%s/%s' % (d, path)
            b = open(p, newline='').read()
            if '\r\n' in b:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            if b.count(old) < 1:
                return name, 'EDIT DOES NOT APPLY: ' + old[:60]
            open(p, 'w', newline='').write(b.replace(old, new, 1))
        out = []
        for c in ns['CHECKS']:
            r = subprocess.run(['unshare', '-m', 'bash', '-c', 'mount --bind %s /repo && cd /verif && VERIF_EVIDENCE=%s/ev timeout 900 python3 check.py %s' % (d, d, c)], capture_output=True, text=True)
            lines = [x for x in r.stdout.splitlines() if 'VIOLATION' in x or x.startswith('  ') and not x.startswith('  rule')]
            out.append('%s exit %d %s%s' % (c, r.returncode, '' if r.returncode == want else '<<< EXPECTED %d ' % want, ' | '.join(x.strip()[:170] for x in lines[:4]) or (r.stderr.strip().splitlines() or [''])[-1][:200]))
        return name, '; '.join(out)
    finally:
        shutil.rmtree(d)


with cf.ThreadPoolExecutor(6) as ex:
    for name, res in ex.map(one, [c for c in ns['CASES'] if not only or c[0] in only]):
        print('%-28s %s' % (name, res), flush=True)
