#!/usr/bin/env python3
"""mt.py FILE.py [-s SECS] [-p "C01 C02"] [names] : FILE defines EDITS = {name: (checks, [(file, old, new[, n])...])}.
Applies each set of edits to a scratch copy of /repo and runs the checks against it (development tool)."""
import sys, os, subprocess, tempfile, shutil, argparse
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument('file'); ap.add_argument('-s', default='12'); ap.add_argument('-p', default=''); ap.add_argument('-t', action='store_true', help='run the repository tests too')
ap.add_argument('names', nargs='*')
a = ap.parse_intermixed_args()
ns = {}
exec(open(a.file).read(), ns)
for name, (checks, edits) in ns['EDITS'].items():
    if a.names and name not in a.names: continue
    T = tempfile.mkdtemp(prefix='mt')
    subprocess.run(['cp', '-a', '/repo', T + '/r'], check=True)
    bad = False
    for e in edits:
        f, old, new = e[:3]
        n = e[3] if len(e) > 3 else 0
        p = os.path.join(T, 'r', f)
        if old is None:
            open(p, 'w').write(new); continue
        t = open(p).read(); parts = t.split(old)
        if len(parts) < n + 2 or (len(parts) > 2 and len(e) < 4):
            print(name, 'BAD EDIT', f, len(parts) - 1, old[:60]); bad = True; break
        open(p, 'w').write(old.join(parts[:n + 1]) + new + old.join(parts[n + 1:]))
    if not bad:
        if a.t:
            o = subprocess.run([V + '/tools/roottests.sh', T + '/r', '400'], capture_output=True, text=True)
            if any(l.startswith(('FAIL', '---', 'panic')) for l in o.stdout.splitlines()): print(name, 'TESTS FAIL')
        for c in (a.p or checks).split():
            r = subprocess.run([V + '/check.sh', c, 'quick'], capture_output=True, text=True, env={**os.environ, 'GOIDC_REPO': T + '/r', 'VERIF_SECS': a.s})
            lines = [l for l in (r.stdout + r.stderr).splitlines() if l.startswith(('seed', 'cannot', 'simulator', 'note')) or ' runs, ' in l or 'error' in l]
            print(name, c, 'rc=%d' % r.returncode, ' | '.join(l[:230] for l in lines[-3:]), flush=True)
    shutil.rmtree(T)
