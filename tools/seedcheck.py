#!/usr/bin/env python3
"""Try planted changes: tools/seedcheck.py [--dir D] [--notests] [--checks P01,P02] ID...
For each: the demonstration passes on the clean tree; the patch applies, builds, passes the stable tests; the demonstration
fails; the check of its property reports a violation. /repo is restored afterwards."""
import json, os, subprocess, sys, tempfile, time
args = sys.argv[1:]
root = '/verif/seeded'; tests = True; checks = None
ids = []
while args:
    a = args.pop(0)
    if a == '--dir': root = args.pop(0)
    elif a == '--notests': tests = False
    elif a == '--checks': checks = args.pop(0).split(',')
    else: ids.append(a)
if not ids: ids = sorted(os.listdir(root))
def sh(c, t=900, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=t, **k)
def clean():
    sh('git -C /repo checkout -- .')
    r = sh('git -C /repo status --porcelain').stdout
    assert not r, r
for i in ids:
    d = f'{root}/{i}'
    clean()
    out = [i]
    try:
        r = sh(f'bash {d}/demo.sh', cwd='/repo', t=300); out.append(f'demo-clean={r.returncode}')
        if r.returncode: print(r.stdout[:600])
        r = sh(f'git -C /repo apply {d}/patch.diff'); out.append(f'apply={r.returncode}')
        if r.returncode: print(r.stdout[:600]); continue
        t0 = time.time()
        r = sh(f'bash {d}/demo.sh', cwd='/repo', t=300); out.append(f'demo-patched={r.returncode}({time.time()-t0:.0f}s)')
        if not r.returncode: print('demo does not fail:', r.stdout[:300])
        if tests:
            r = sh('bash /opt/vp/build.sh'); out.append(f'build={r.returncode}')
            r = sh('bash /opt/vp/test.sh /tmp/x/seedout.json'); out.append('tests=' + r.stdout.strip().splitlines()[-1][:60])
            if r.returncode: out.append(f'testrc={r.returncode}')
        prop = json.load(open(f'{d}/meta.json'))['property']
        for p in checks or [prop]:
            t0 = time.time()
            r = sh(f'python3 checks/run.py {p} quick', cwd='/verif', env={**os.environ, 'VERIF_SEED': os.environ.get('VERIF_SEED', '1'), 'VERIF_TIER': 'quick'})
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            out.append(f'{p}={r.returncode}/{len(v)}viol({time.time()-t0:.0f}s)')
            if r.returncode != 1: print(r.stdout[-800:])
            elif os.environ.get('SHOW'): print('\n'.join(r.stdout.splitlines()[:12])[:2000])
    except Exception as e:
        out.append(f'EXC {e!r}'[:300])
    finally:
        clean()
        print(' '.join(out), flush=True)
