#!/usr/bin/env python3
"""seedtable.py: rewrites the table of section 7 of DESIGN.md by running, for every planted bug, its property's check
on a scratch copy of the repository with the bug applied (SA_REPO points the analysis at the copy)."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(sid):
  d = os.path.join(V, 'seeded', sid)
  meta = json.load(open(os.path.join(d, 'meta.json')))
  tmp = tempfile.mkdtemp(prefix='seed_')
  try:
    shutil.copytree('/repo', tmp + '/repo', ignore=shutil.ignore_patterns('.git', '__pycache__'))
    subprocess.run(['git', 'init', '-q', tmp + '/repo'], check=True)
    subprocess.run(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=tmp + '/repo', check=True)
    env = dict(os.environ, SA_REPO=tmp + '/repo', SA_EVIDENCE=tmp)
    r = subprocess.run([sys.executable, os.path.join(V, 'check.py'), meta['property']], env=env, cwd=V,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    hits = re.findall(r'^VIOLATION property=\S+ replay=(\S+)', r.stdout, re.M)
    laws = re.findall(r'^VIOLATED ([^\s/#:]+)', r.stdout, re.M)
    return sid, meta, r.returncode, hits, sorted(set(laws))
  finally:
    shutil.rmtree(tmp)


def main():
  ids = sorted(os.listdir(os.path.join(V, 'seeded')))
  with cf.ThreadPoolExecutor(5) as ex:
    rows = list(ex.map(one, ids))
  out = ['| planted bug | property | needs | breaks | caught by |', '|---|---|---|---|---|']
  for sid, meta, rc, hits, laws in rows:
    by = 'check %s (%s)' % (meta['property'], ', '.join(laws[:3]) or 'see output') if rc == 1 else '**missed**'
    out.append('| %s | %s | %s | %s | %s |' % (sid, meta['property'], meta['needs'], meta['what_it_breaks'], by))
    print(sid, 'CAUGHT' if rc == 1 else 'MISSED rc=%d' % rc)
  p = os.path.join(V, 'DESIGN.md')
  s = open(p).read()
  i = s.index('<!-- SEEDS -->')
  open(p, 'w').write(s[:i] + '<!-- SEEDS -->\n\n' + '\n'.join(out) + '\n')


if __name__ == '__main__':
  main()
