#!/usr/bin/env python3
"""The repository's own tests, run inside the instrumented world on concrete values: the instrumentation must not change
what the code does.  usage: python3-vt tools/conformance.py   (not a check; exit 1 when a stable test fails)"""
import os, sys, json, unittest, warnings
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
from engine import run, world
run.setup_paths()
w = world.World()
mods = []
for root in world.ROOTS:
    for d, _, fs in os.walk(root):
        if '/tests' in d or d.endswith('/test'):
            for f in sorted(fs):
                if f.startswith('test_') and f.endswith('.py'):
                    m = os.path.relpath(os.path.join(d, f), root)[:-3].replace('/', '.')
                    if m.split('.')[0] in ('bitcoin', 'proofmarshal', 'proofchains') and m not in mods: mods.append(m)
passed = failed = 0; bad = []
for m in mods:
    if m.endswith('test_wallet'): continue           # (left out of the baseline as well)
    try:
        mod = w.load(m); mod.__file__ = getattr(mod, '__file__', None)
        suite = unittest.TestLoader().loadTestsFromModule(mod)
    except BaseException as e:
        bad.append((m, 'import: %s: %s' % (type(e).__name__, e))); failed += 1; continue
    r = unittest.TestResult(); suite.run(r)
    n = r.testsRun - len(r.errors) - len(r.failures); passed += n; failed += len(r.errors) + len(r.failures)
    for t, tb in r.errors + r.failures: bad.append((str(t), tb.strip().splitlines()[-1][:200]))
# (keys are a model of libcrypto in this world, without a state outside a proof)
MODELLED = ('Test_CPubKey.test)', 'test_tx_valid', 'test_tx_invalid')
other = [b for b in bad if not any(x in b[0] for x in MODELLED)]
for b in bad: print('%s: %s' % b)
print('%d passed, %d failed' % (passed, failed))
sys.exit(1 if other else 0)
