#!/usr/bin/env python3
"""plant.py FILE.py : FILE defines SEEDS = [dict(id, prop, needs, breaks, edits=[(file, old, new[, n])], main)].
Writes seeded/<id>/{patch.diff,main.go,meta.json} and runs mkseed.sh on each (or on those named)."""
import sys, os, json, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = set(sys.argv[2:])
for s in ns['SEEDS']:
    if only and s['id'] not in only: continue
    T = tempfile.mkdtemp(prefix='plant')
    subprocess.run(['cp', '-a', '/repo', T + '/r'], check=True)
    r = T + '/r'
    for e in s['edits']:
        f, old, new = e[0], e[1], e[2]
        n = e[3] if len(e) > 3 else 0
        p = os.path.join(r, f); t = open(p).read()
        parts = t.split(old)
        if len(parts) < n + 2 or (len(parts) > 2 and len(e) < 4):
            print(s['id'], 'BAD EDIT', f, len(parts) - 1, old[:60]); sys.exit(1)
        t = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
        open(p, 'w').write(t)
    d = subprocess.run(['git', 'diff'], cwd=r, capture_output=True, text=True).stdout
    shutil.rmtree(T)
    o = os.path.join(V, 'seeded', s['id']); os.makedirs(o, exist_ok=True)
    open(o + '/patch.diff', 'w').write(d)
    open(o + '/main.go', 'w').write(s['main'].lstrip())
    subprocess.run(['gofmt', '-w', o + '/main.go'])
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(o + '/meta.json', 'w'), indent=1)
    subprocess.run([V + '/tools/mkseed.sh', s['id']])
