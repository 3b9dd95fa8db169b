#!/usr/bin/env python3
"""automut.py OUT [-n RUNS] [-j JOBS] [-k i/m] : applies every change listed by tools/automut to a scratch copy of
/repo, builds the simulator from it and runs a few properties' scenarios; OUT gets one line per change
(development tool: what survives is looked at by hand)."""
import sys, os, subprocess, tempfile, shutil, argparse, json
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument('out'); ap.add_argument('-n', default='120'); ap.add_argument('-j', type=int, default=6); ap.add_argument('-f', default='')
ap.add_argument('-p', default='C01 C06 C08 C11 C15 C18 C23 C16'); ap.add_argument('-i', default=''); ap.add_argument('-from', dest='first', type=int, default=0)
a = ap.parse_args()
env = {**os.environ, 'GOTOOLCHAIN': 'local', 'GOPROXY': 'off', 'GO111MODULE': 'on', 'GOWORK': 'off', 'GOFLAGS': '-mod=mod'}
L = json.loads(subprocess.run(['go', 'run', '.', '/repo'], cwd=V + '/tools/automut', env=env, capture_output=True, text=True, check=True).stdout)
print(len(L), 'changes')
only = set(map(int, a.i.split(','))) if a.i else None
out = open(a.out, 'a')
def one(i):
    m = L[i]
    T = tempfile.mkdtemp(prefix='am')
    try:
        subprocess.run(['cp', '-a', '/repo', T + '/r'], check=True)
        p = T + '/r/' + m['File']; b = open(p, 'rb').read()
        open(p, 'wb').write(b[:m['Off']] + m['New'].encode() + b[m['End']:])
        what = '%d %s:%d %s [%s] -> [%s]' % (i, m['File'], m['Line'], m['Kind'], m['Old'][:80].replace('\n', ' '), m['New'][:80].replace('\n', ' '))
        r = subprocess.run([V + '/build.sh', T + '/bin'], capture_output=True, text=True, env={**env, 'GOIDC_REPO': T + '/r'})
        if r.returncode: return 'NOBUILD ' + what
        hit = []
        for c in a.p.split():
            try: r = subprocess.run([T + '/bin', 'try', '-prop', c, '-n', a.n, '-seed', '7'], capture_output=True, text=True, timeout=300)
            except subprocess.TimeoutExpired: hit.append('TIMEOUT'); break
            ls = [l.strip() for l in r.stdout.splitlines() if ' -one ' in l]
            if ls or r.returncode: hit = [c + ': ' + (ls[0][:150] if ls else 'rc=%d' % r.returncode)]; break
        return ('CAUGHT ' if hit else 'SURVIVES ') + what + (' | ' + ' '.join(hit) if hit else '')
    finally: shutil.rmtree(T)
def run(i):
    try: s = one(i)
    except Exception as e: s = 'ERROR %d %r' % (i, e)
    out.write(s + '\n'); out.flush()
with ThreadPoolExecutor(a.j) as ex:
    list(ex.map(run, [i for i in range(len(L)) if i >= a.first and not (L[i]['Kind'] == 'bool' and L[i]['Ret']) and (only is None or i in only) and a.f in L[i]['File']]))
