"""Obligation bookkeeping, known findings, evidence files and exit codes."""
import json
import os
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')
KNOWN = os.path.join(ROOT, 'known_findings.txt')

DISCHARGED, VIOLATED, UNDECIDED = 'discharged', 'violated', 'undecided'


class AnalysisBroken(Exception):
  """An anchor vanished or the analysis lost its footing: no verdict."""


def known_findings(prop):
  """{key: description} of the listed findings of one property."""
  out = {}
  if os.path.exists(KNOWN):
    for line in open(KNOWN, encoding='utf-8'):
      line = line.rstrip('\n')
      if line.startswith('known: property=%s key=' % prop):
        body = line.split(' key=', 1)[1]
        key, _, desc = body.partition(' :: ')
        out[key.strip()] = desc.strip()
  return out


class Report(object):
  def __init__(self, prop, level, technique):
    self.prop, self.level, self.technique = prop, level, technique
    self.obligations = []
    self.coverage = {}
    self.assumptions = []
    self.notes = []
    self.t0 = time.time()

  def add(self, key, where, rule, status, detail='', **extra):
    """key identifies the rule instance (no line numbers)."""
    self.obligations.append(dict(key=key, where=where, rule=rule, status=status,
                                 detail=detail, **extra))

  def finish(self, min_obligations=1):
    known = known_findings(self.prop)
    evdir = os.environ.get('SA_EVIDENCE') or os.path.join(ROOT, 'evidence')
    if not os.path.isdir(evdir):
      os.makedirs(evdir)
    viol, kn = [], []
    for o in self.obligations:
      if o['status'] == VIOLATED:
        if o['key'] in known:
          o['status'] = 'known'
          kn.append(o)
        else:
          viol.append(o)
    n = len(self.obligations)
    disc = sum(1 for o in self.obligations if o['status'] == DISCHARGED)
    und = [o for o in self.obligations if o['status'] == UNDECIDED]
    for o in kn:
      print('KNOWN-FINDING: property=%s %s: %s' % (self.prop, o['key'], known[o['key']]))
    for o in und:
      print('UNDECIDED %s %s: %s' % (self.prop, o['key'], o['detail'][:300]))
    cov = dict(self.coverage)
    samples = [dict(key=o['key'], where=o['where'], rule=o['rule'], status=o['status'])
               for o in self.obligations[:400]]
    cov.update(obligations=n, discharged=disc, undecided=len(und), known=len(kn),
               checker_cmd='python3 /verif/check.py %s' % self.prop,
               explanation=self.technique, samples=samples)
    cov.setdefault('trusted_base', [
        'CPython ast module', 'the term algebra and interpreter under /verif/sa',
        'the specifications under /verif/laws', 'the models of library functions named in DESIGN.md'])
    ev = dict(property=self.prop, tier=os.environ.get('VERIF_TIER', 'quick'),
              seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=self.level,
              coverage=cov, wall_s=round(time.time() - self.t0, 3),
              violations=[dict(key=o['key'], where=o['where'], detail=o['detail'])
                          for o in viol],
              assumptions=self.assumptions)
    with open(os.path.join(evdir, self.prop + '.json'), 'w') as f:
      json.dump(ev, f, indent=1, default=str)
    print('%s: %d obligations, %d discharged, %d known, %d undecided, %d violated (%.1fs)'
          % (self.prop, n, disc, len(kn), len(und), len(viol), time.time() - self.t0))
    if viol:
      path = os.path.join(evdir, self.prop + '.violation.txt')
      with open(path, 'w') as f:
        for o in viol:
          f.write('obligation: %s\nwhere: %s\nrule: %s\n%s\n\n'
                  % (o['key'], o['where'], o['rule'], o['detail']))
      for o in viol:
        print('VIOLATED %s at %s [%s]\n    %s'
              % (o['key'], o['where'], o['rule'], o['detail'].replace('\n', '\n    ')[:2500]))
      print('VIOLATION property=%s replay=%s' % (self.prop, path))
      return 1
    if n < min_obligations or disc + len(kn) == 0:
      print('UNDECIDED %s: %d obligations, %d discharged: nothing was shown' % (self.prop, n, disc))
    return 0
