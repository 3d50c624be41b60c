"""setup: control samples for the interpreter (must-report and must-not-report entries)"""
import os, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import runner
t = tempfile.mkdtemp(prefix='vf-self.')
try:
    m = runner.compile_ir([os.path.join(runner.ROOT, 'drivers', 'selftest.cc')], tmp=t)
finally:
    shutil.rmtree(t)
bad = 0
for p in ('bad_', 'good_'):
    for e in runner.entries(m, p):
        r = runner.analyse(m, e)
        ok = r.err is None and bool(r.viol) == (p == 'bad_')
        print('%-14s %s %s' % (e, 'reported' if r.viol else 'quiet', 'ok' if ok else 'WRONG ' + str(r.err)))
        bad += not ok
sys.exit(1 if bad else 0)
