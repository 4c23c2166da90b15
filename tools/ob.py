#!/usr/bin/env python3
"""Runs the obligations whose target or name contains a word: tools/ob.py WORD [depth]"""
import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(60000)
from sa import checker, terms as tm
checker.TXT = int(sys.argv[3]) if len(sys.argv) > 3 else 400
checker.DEPTH = int(sys.argv[2]) if len(sys.argv) > 2 else 5
from sa.frontend import AnalysisError
p = checker.load_project()
base = checker.baseline_attrs()
n = 0
for o in checker.obligations(p):
    if sys.argv[1] in o.target or sys.argv[1] in o.name:
        t = time.time(); n += 1
        try:
            f, info = checker.check_obligation(p, o, base)
        except (AnalysisError, checker.Timeout) as e:
            print('%-70s ERROR %r' % (o.target, e))
            continue
        print('%-70s %5.1fs findings=%d compared=%s %s' % (o.target, time.time() - t, len(f), info.get('compared'), info.get('unknown') or ''))
        for x in f:
            print('   ', x)
print(n, 'obligations')
