#!/usr/bin/env python3
"""check.py <property id>: decides one property from the source of /repo."""
import os
import sys
import warnings

sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

from sa import report as R


def c24(rep):
  from sa import names
  found, stats = names.analyse(R.REPO)
  rep.coverage.update(stats)
  for m, n in sorted(stats.pop('per_module').items()):
    rep.add('module ' + m, m, 'every other name, import and attribute of the module resolves', R.DISCHARGED,
            '%d reads' % n)
  if stats['modules'] < 20 or stats['reads'] < 2000:
    raise R.AnalysisBroken('only %(modules)d modules and %(reads)d reads found' % stats)
  moved = names.moved(R.REPO, found, R.known_findings('C24'))
  for f in found:
    rep.add(moved.get(f.key, f.key), '%s:%d in %s' % (f.file, f.line, f.scope or '<module>'), f.rule, R.VIOLATED, f.msg)


def main(argv):
  prop = argv[1]
  if prop == 'C24':
    rep = R.Report(prop, 'other', 'scope, import-order and may-assigned dataflow analysis of every module')
    c24(rep)
    return rep.finish()
  from sa import driver
  return driver.run(prop)


if __name__ == '__main__':
  try:
    code = main(sys.argv)
  except R.AnalysisBroken as e:
    print('ANALYSIS-BROKEN %s' % e)
    code = 2
  sys.exit(code)
