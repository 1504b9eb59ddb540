"""plants a bug: tools/mkseed.py SPEC.py  (SPEC defines SEEDS: id -> dict(property, edits=[(file, old, new)], needs, breaks, demo))
makes /verif/seeded/<id>/ after confirming, in a scratch copy, that the stable tests pass and the demo fails with the change only"""
import sys, os, json, subprocess, shutil, runpy, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seeds = runpy.run_path(sys.argv[1])['SEEDS']
only = sys.argv[2:]
base = json.load(open('/opt/vp/BASELINE.json'))
DEMO = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=lib/python-bitcoinlib:lib/python-proofmarshal:.
exec python3 -W ignore "$(dirname "$0")/demo.py"
'''
def run(cmd, cwd, **k): return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **k)
for sid, s in seeds.items():
    if only and sid not in only: continue
    d = os.path.join(V, 'seeded', sid)
    if os.path.exists(d) and not only: continue
    w = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    r = os.path.join(w, 'repo')
    run('cp -a /repo %s' % r, '/')
    tmp = os.path.join(w, 'd'); os.makedirs(tmp)
    open(tmp + '/demo.sh', 'w').write(DEMO); os.chmod(tmp + '/demo.sh', 0o755)
    open(tmp + '/demo.py', 'w').write(s['demo'])
    ok = True
    a = run('bash %s/demo.sh' % tmp, r, timeout=300)
    if a.returncode != 0: print(sid, 'demo fails on the unchanged tree:', a.stdout[-500:], a.stderr[-800:]); ok = False
    for f, old, new in s['edits']:
        p = os.path.join(r, f); t = open(p).read()
        if t.count(old) != 1: print(sid, 'edit matches %d times: %r' % (t.count(old), old[:60])); ok = False; break
        open(p, 'w').write(t.replace(old, new))
    if ok:
        b = run('bash %s/demo.sh' % tmp, r, timeout=300)
        if b.returncode == 0: print(sid, 'demo passes with the change'); ok = False
        t = run('export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LC_ALL=C.UTF-8 PYTHONPATH=%s:%s/lib/python-bitcoinlib:%s/lib/python-proofmarshal; /opt/venv/bin/python -m pytest -q -p no:cacheprovider --import-mode=prepend --rootdir=%s --timeout=300 '
                '--continue-on-collection-errors -o junit_family=xunit2 --junitxml=%s/r.xml --ignore=lib/python-bitcoinlib/bitcoin/tests/test_wallet.py '
                'proofchains lib/python-bitcoinlib/bitcoin lib/python-proofmarshal/proofmarshal' % (r, r, r, r, w), r)
        tail = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-300:]
        bad = [l for l in t.stdout.splitlines() if l.startswith(('FAILED', 'ERROR')) and 'Test_CTransaction::test_tx_valid' not in l]
        if bad or not ('134 passed' in tail or '135 passed' in tail): print(sid, 'tests:', tail, bad[:5]); ok = False
        diff = run('git diff', r).stdout
        if ok:
            os.makedirs(d, exist_ok=True)
            open(d + '/patch.diff', 'w').write(diff)
            shutil.copy(tmp + '/demo.sh', d); shutil.copy(tmp + '/demo.py', d)
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            print(sid, 'kept;', tail, '| demo:', (b.stderr or b.stdout).strip().splitlines()[-1:])
    shutil.rmtree(w)
