#!/usr/bin/env python3
"""bugs.py FILE [n ...]: a quick look at many small bugs. FILE defines BUGS = [(property, file, old, new), ...] (old may be
a list of (file, old, new) with file and new None). Each is applied to a copy and the property's check is run on it."""
import concurrent.futures as cf
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(job):
  k, (prop, fn, old, new) = job
  edits = old if fn is None else [(fn, old, new)]
  tmp = tempfile.mkdtemp(prefix='bug_')
  try:
    shutil.copytree('/repo', tmp + '/repo', ignore=shutil.ignore_patterns('.git', '__pycache__'))
    for f, o, n in edits:
      p = os.path.join(tmp, 'repo', f)
      s = open(p).read()
      if s.count(o) != 1:
        return k, prop, 'BAD EDIT %d: %r' % (s.count(o), o[:80]), ''
      open(p, 'w').write(s.replace(o, n))
    r = subprocess.run([sys.executable, '-m', 'py_compile', p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
      return k, prop, 'SYNTAX', r.stdout[-200:]
    env = dict(os.environ, SA_REPO=tmp + '/repo', SA_EVIDENCE=tmp)
    out = []
    for q in prop.split(','):
      r = subprocess.run([sys.executable, os.path.join(V, 'check.py'), q], env=env, cwd=V,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
      laws = sorted(set(re.findall(r'^VIOLATED ([^\s/#:]+)', r.stdout, re.M)))
      out.append('%s rc=%d %s' % (q, r.returncode, ','.join(laws)[:100]))
      if r.returncode == 1:
        return k, prop, 'caught', '; '.join(out)
    tail = re.findall(r'.*obligations.*', r.stdout)
    try:
     t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '--no-header', '-p', 'no:cacheprovider',
                        'starks/test', '--ignore=starks/test/test_compression.py', '--ignore=starks/test/test_stark.py',
                        '--deselect', 'starks/test/test_apr.py'], timeout=60,
                       cwd=tmp + '/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    except subprocess.TimeoutExpired:
      return k, prop, 'MISSED', '; '.join(out) + ' tests hang'
    return k, prop, 'MISSED', '%s | %s | tests: %s' % ('; '.join(out), (tail or [''])[-1][:110], t.stdout.strip().splitlines()[-1][:80])
  finally:
    shutil.rmtree(tmp)


def main():
  bugs = runpy.run_path(sys.argv[1])['BUGS']
  want = [int(x) for x in sys.argv[2:]] or range(len(bugs))
  with cf.ThreadPoolExecutor(int(os.environ.get('JOBS', '5'))) as ex:
    for f in cf.as_completed([ex.submit(one, (k, bugs[k])) for k in want]):
      k, prop, st, info = f.result()
      print('%3d %s %s %s' % (k, prop, st, info), flush=True)


main()
