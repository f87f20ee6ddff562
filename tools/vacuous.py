#!/usr/bin/env python3
"""vacuous.py [property ...]: lists obligations no valuation of the law's parameters reaches (development aid)."""
import multiprocessing as mp
import os
import random
import sys
import warnings
warnings.simplefilter('ignore')
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from sa import driver as D, evalterm as E


def one(a):
  prop, law = a
  import time
  out = []
  try:
    L = D.Laws(prop, law)
    obs = L.run()
  except Exception as e:
    return [(prop, law, 'not interpreted: %s' % e)]
  rng = random.Random(5)
  n = sum(1 for o in obs if o[0] in ('same', 'det'))
  if not n and not any(o[0] in ('never', 'oblig') for o in obs):
    out.append((prop, law, 'no obligation'))
  for k, o in enumerate(obs):
    if o[0] not in ('same', 'det'):
      continue
    ok, unsup, bots, t0 = 0, '', '', time.time()
    hints = L.hints((o[1],) + tuple(o[5:7]))
    for t in range(400):
      if time.time() - t0 > 10:
        break
      try:
        env = L.valuation(rng)
        if t % 3 == 2 and (hints[0] or hints[1]):
          env = L.sharpen(rng, env, hints)
        ev = E.Eval(env, hook=D.hook)
        if ev.cond(o[1], ()):
          ev.run(o[5])
          ok = 1
          break
      except E.Bot as e:
        bots = str(e)
      except E.EvalUnsupported as e:
        unsup = str(e)
      except Exception as e:
        unsup = repr(e)
    if not ok:
      out.append((prop, law, '%s#%d line %d never reached %s %s' % (o[0], k, o[4], unsup, bots)))
  return out


if __name__ == '__main__':
  props = sys.argv[1:] or sorted(f[:-3] for f in os.listdir(D.LAWS) if f.startswith('C') and f.endswith('.py'))
  jobs = [(p, l) for p in props for l, _, _ in D.law_names(p)]
  with mp.Pool(7, maxtasksperchild=1) as pool:
    for r in pool.imap(one, jobs):
      for x in r:
        print(*x, flush=True)
