#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from a description file and confirms it.

Usage: mkseed.py SPEC.py [id ...]; SPEC.py defines SEEDS, a list of dicts with
id, property, edits [(file, old, new)], demo (python text run by demo.sh), needs, breaks."""
import json
import os
import runpy
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/tmp/seedwork_%d/repo' % os.getpid()
DEMO = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 HOME=/root
here=$(cd "$(dirname "$0")" && pwd)
exec timeout 250 /opt/venv/bin/python -W ignore "$here/demo.py"
'''
PRE = '''import os
import sys
sys.path.insert(0, os.getcwd())
sys.path.insert(0, os.path.join(os.getcwd(), 'misc'))
'''


def sh(*a, **k):
  return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def clean():
  sh('git', '-C', REPO, 'checkout', '--', '.')


def stable():
  w = os.path.dirname(REPO)
  env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH=REPO, HOME='/root')
  sh('timeout', '600', '/opt/venv/bin/python', '-m', 'pytest', '-q', '-n', '4', '-p', 'no:cacheprovider', '--timeout=60',
     '--continue-on-collection-errors', '-o', 'junit_family=xunit2', '--junitxml=%s/junit.xml' % w, 'starks', 'misc',
     cwd=REPO, env=env)
  sh('/usr/bin/python3', '/opt/vp/results.py', w + '/out.json', 'junit:%s/junit.xml' % w)
  out = json.load(open(w + '/out.json'))
  base = json.load(open('/opt/vp/BASELINE.json'))
  need = base.get('passed') or base.get('stable') or base
  have = out.get('passed') or out
  need = set(need if isinstance(need, list) else [k for k, v in need.items() if v in (True, 'passed')])
  have = set(have if isinstance(have, list) else [k for k, v in have.items() if v in (True, 'passed')])
  return sorted(need - have)


def demo(d):
  return sh('bash', os.path.join(d, 'demo.sh'), cwd=REPO).returncode


def main():
  shutil.copytree('/repo', REPO, symlinks=True)
  try:
    run()
  finally:
    shutil.rmtree(os.path.dirname(REPO), ignore_errors=True)


def original(diff):
  """Does the patch remove a line of the original repository?"""
  fn = None
  for l in diff.splitlines():
    if l.startswith('+++ '):
      fn = l[6:]
    elif l.startswith('-') and not l.startswith('--- ') and l[1:].strip():
      if l[1:] in sh('git', '-C', '/repo', 'show', 'f644286:' + fn).stdout.splitlines():
        return True
  return False


def run():
  seeds = runpy.run_path(sys.argv[1])['SEEDS']
  want = sys.argv[2:]
  for s in seeds:
    if want and s['id'] not in want:
      continue
    d = os.path.join(ROOT, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    clean()
    with open(d + '/demo.sh', 'w') as f:
      f.write(DEMO)
    with open(d + '/demo.py', 'w') as f:
      f.write(PRE + s['demo'].lstrip('\n'))
    with open(d + '/meta.json', 'w') as f:
      json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, f, indent=1)
      f.write('\n')
    before = demo(d)
    bad = []
    if before != 0:
      bad.append('demo fails on the unchanged tree (%d)' % before)
    for fn, old, new in s['edits']:
      p = os.path.join(REPO, fn)
      t = open(p).read()
      if t.count(old) != 1:
        bad.append('%d places for an edit in %s' % (t.count(old), fn))
        continue
      with open(p, 'w') as f:
        f.write(t.replace(old, new))
    diff = sh('git', '-C', REPO, 'diff').stdout
    with open(d + '/patch.diff', 'w') as f:
      f.write(diff)
    if not original(diff):
      bad.append('no original line changed')
    b = sh('/usr/bin/python3', '-W', 'ignore', '-m', 'compileall', '-q', REPO + '/starks', REPO + '/misc', env=dict(os.environ, PYTHONPYCACHEPREFIX='/tmp/pyc'))
    if b.returncode:
      bad.append('build: ' + b.stdout[-300:])
    miss = stable()
    if miss:
      bad.append('tests: %s' % miss[:4])
    after = demo(d)
    if after == 0:
      bad.append('demo passes with the change')
    c = sh('/usr/bin/python3', 'check.py', s['property'], cwd=ROOT,
           env=dict(os.environ, SA_REPO=REPO, SA_EVIDENCE=os.path.dirname(REPO)))
    v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
    clean()
    print('%-28s %s %s  %s' % (s['id'], s['property'],
                              'CAUGHT' if c.returncode == 1 and v else 'MISSED rc=%d' % c.returncode, '; '.join(bad) or 'ok'))
    if v:
      print('    ', v[0][:200])
    sys.stdout.flush()


if __name__ == '__main__':
  main()
