#!/usr/bin/env python3
"""rewrites.py [ids]: hand-written rewritings of single functions that keep the behaviour; every check must stay quiet.

Development aid: each entry replaces one function (found by its qualified name) in a scratch copy of the repository;
entries with the same batch share a copy. The stable tests and the given checks run there."""
import ast
import json
import os
import re
import shutil
import subprocess
import sys
import textwrap
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = []


def rw(batch, file, qual, src, pre=''):
  R.append((batch, file, qual, textwrap.dedent(src).strip('\n'), pre))


def find(tree, qual):
  body = tree.body
  for k, name in enumerate(qual.split('.')):
    n = [x for x in ast.walk(ast.Module(body, [])) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == name]
    n = n[0]
    body = n.body
  return n


def apply(d, file, qual, src, pre):
  p = os.path.join(d, file)
  text = open(p).read()
  n = find(ast.parse(text), qual)
  lines = text.split('\n')
  a = min([n.lineno] + [x.lineno for x in n.decorator_list]) - 1
  ind = ' ' * n.col_offset
  new = [ind + l if l else l for l in src.split('\n')]
  lines[a:n.end_lineno] = new
  text = '\n'.join(lines)
  if pre:
    m = re.search(r'^(from|import) ', text, re.M)
    at = 0 if m is None else m.start()
    if '__future__' in text:
      at = text.index('\n', text.index('__future__')) + 1
    text = text[:at] + pre + '\n' + text[at:]
  open(p, 'w').write(text)


exec(open(os.path.join(V, 'tools', 'rewrites_bank.py')).read())


def main():
  jobs = int(os.environ.get('JOBS', '6'))
  pick = sys.argv[1:]
  for b in sorted(set(r[0] for r in R)):
    if pick and b not in pick:
      continue
    d = '/tmp/rew/%s' % b
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    for r in R:
      if r[0] == b:
        apply(d, *r[1:])
    env = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    r = subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', '-m', 'pytest', '-q', '-rp', '-p', 'no:cacheprovider',
                        '--continue-on-collection-errors', 'starks', 'misc'], cwd=d, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    ok = set(x.split()[1].replace('/', '.').replace('.py::', '.', 1) for x in r.stdout.split('\n') if x.startswith('PASSED '))
    miss = [x for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if x not in ok]
    env = dict(os.environ, SA_REPO=d, SA_EVIDENCE='/tmp/rew/ev_' + b)
    props = sorted(json.loads(l)['id'] for l in open(V + '/properties.jsonl'))
    props = [p for p in props if p not in ('C33', 'C34')]

    def one(p):
      r = subprocess.run(['python3', '-W', 'ignore', 'check.py', p], cwd=V, env=env, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, text=True)
      open('/tmp/rew/out_%s_%s.txt' % (b, p), 'w').write(r.stdout + r.stderr)
      return p, r.returncode, r.stdout
    with ThreadPoolExecutor(jobs) as ex:
      res = list(ex.map(one, props))
    for p, c, o in res:
      m = re.search(r'(\d+) obligations, (\d+) discharged, (\d+) known, (\d+) undecided', o)
      base = re.search(r'(\d+) obligations, (\d+) discharged', open('/tmp/o_%s.txt' % p).read())
      if c or m is None:
        print(b, p, 'ALARM rc', c, [l[:200] for l in o.split('\n') if l.startswith('VIOLATED')][:3])
      elif m.group(2) != base.group(2):
        print('   ', b, p, 'discharged %s/%s, was %s/%s' % (m.group(2), m.group(1), base.group(2), base.group(1)))
    print(b, 'tests missing', miss[:5], flush=True)


if __name__ == '__main__':
  main()
