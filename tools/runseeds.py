"""apply each planted bug to /repo, run its property's check, undo.  args: ids (default all)"""
import subprocess, sys, os, json
S = '/verif/seeded'
def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True)
ids = sys.argv[1:] or sorted(os.listdir(S))
try:
    for i in ids:
        m = json.load(open('%s/%s/meta.json' % (S, i)))
        a = sh('git -C /repo apply %s/%s/patch.diff' % (S, i))
        if a.returncode: print(i, 'does not apply'); continue
        r = sh('cd /verif && timeout 900 python3-vt check.py %s' % m['property'])
        sh('git -C /repo checkout -- .')
        v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
        print(i, m['property'], 'exit', r.returncode, (v or [r.stdout.strip().split('\n')[-1] + r.stderr[-200:]])[0][:150], flush=True)
finally: sh('git -C /repo checkout -- .')
