#!/usr/bin/env python3
"""mutate.py OUT [file-substring ...]: plants operator mutants in scratch copies and runs the laws that reach them.

Development aid: lists the mutants that pass the repository's stable tests and that no law tells from the original."""
import ast
import copy
import json
import multiprocessing as mp
import os
import pickle
import re
import shutil
import subprocess
import sys
import time
import warnings

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.setrecursionlimit(20000)
warnings.simplefilter('ignore')
WORK = os.environ.get('MUT_WORK', '/tmp/mut')
SWAP = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Mult],
        ast.Mod: [ast.FloorDiv], ast.Pow: [ast.Mult], ast.LShift: [ast.RShift], ast.RShift: [ast.LShift],
        ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd], ast.BitXor: [ast.BitOr]}
CMP = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt],
       ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt], ast.In: [ast.NotIn], ast.NotIn: [ast.In],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}


def variants(n):
  """Replacement nodes of one node."""
  out = []

  def put(what, m):
    out.append((what, ast.copy_location(m, n)))
  if isinstance(n, ast.BinOp):
    for o in SWAP.get(type(n.op), []):
      put('%s->%s' % (type(n.op).__name__, o.__name__), ast.BinOp(n.left, o(), n.right))
    if isinstance(n.op, (ast.Sub, ast.Div, ast.Pow, ast.FloorDiv, ast.Mod)) or True:
      put('left operand', n.left)
  elif isinstance(n, ast.AugAssign):
    for o in SWAP.get(type(n.op), []):
      put('%s=->%s=' % (type(n.op).__name__, o.__name__), ast.AugAssign(n.target, o(), n.value))
    put('drop', ast.Pass())
    put('= for op=', ast.Assign([n.target], n.value))
  elif isinstance(n, ast.Compare) and len(n.ops) == 1:
    for o in CMP.get(type(n.ops[0]), []):
      put('%s->%s' % (type(n.ops[0]).__name__, o.__name__), ast.Compare(n.left, [o()], n.comparators))
  elif isinstance(n, ast.BoolOp):
    put('and<->or', ast.BoolOp(ast.Or() if isinstance(n.op, ast.And) else ast.And(), n.values))
    for k in range(len(n.values)):
      rest = n.values[:k] + n.values[k + 1:]
      put('drop clause %d' % k, rest[0] if len(rest) == 1 else ast.BoolOp(n.op, rest))
  elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
    put('drop %s' % type(n.op).__name__, n.operand)
  elif isinstance(n, ast.Constant):
    if n.value is True or n.value is False:
      put('flip', ast.Constant(not n.value))
    elif isinstance(n.value, int):
      put('+1', ast.Constant(n.value + 1))
      put('-1', ast.Constant(n.value - 1))
    elif n.value in ('big', 'little'):
      put('order', ast.Constant('little' if n.value == 'big' else 'big'))
  elif isinstance(n, ast.If):
    put('if False', ast.If(ast.Constant(False), n.body, n.orelse))
    put('if True', ast.If(ast.Constant(True), n.body, n.orelse))
  elif isinstance(n, ast.IfExp):
    put('then', n.body)
    put('else', n.orelse)
  elif isinstance(n, ast.Assert):
    put('drop assert', ast.Pass())
  elif isinstance(n, ast.Raise):
    put('drop raise', ast.Pass())
  elif isinstance(n, ast.Break):
    put('continue', ast.Continue())
  elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and getattr(n.value.func, 'id', '') != 'print':
    put('drop call', ast.Pass())
  elif isinstance(n, ast.Call):
    if len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args):
      put('swap args', ast.Call(n.func, [n.args[1], n.args[0]], n.keywords))
    if len(n.args) == 3 and not any(isinstance(a, ast.Starred) for a in n.args):
      put('swap args 12', ast.Call(n.func, [n.args[0], n.args[2], n.args[1]], n.keywords))
    for k in range(len(n.keywords)):
      put('drop keyword %s' % n.keywords[k].arg, ast.Call(n.func, n.args, n.keywords[:k] + n.keywords[k + 1:]))
    if isinstance(n.func, ast.Name) and n.func.id in ('list', 'int', 'abs', 'tuple', 'sorted', 'set', 'reversed', 'str', 'bool') \
        and len(n.args) == 1:
      put('drop %s()' % n.func.id, n.args[0])
    if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'strip', 'inverse', 'lower') and not n.args:
      put('drop .%s()' % n.func.attr, n.func.value)
    if isinstance(n.func, ast.Attribute) and n.func.attr == 'append':
      put('insert 0', ast.Call(ast.Attribute(n.func.value, 'insert', ast.Load()), [ast.Constant(0)] + n.args, []))
  elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
    s = n.slice
    if s.lower is None and s.upper is None and s.step is None:
      put('no copy', n.value)
    if s.upper is not None:
      put('upper+1', ast.Subscript(n.value, ast.Slice(s.lower, ast.BinOp(s.upper, ast.Add(), ast.Constant(1)), s.step), n.ctx))
    if s.lower is not None:
      put('lower+1', ast.Subscript(n.value, ast.Slice(ast.BinOp(s.lower, ast.Add(), ast.Constant(1)), s.upper, s.step), n.ctx))
  elif isinstance(n, (ast.ListComp, ast.GeneratorExp)):
    for gi, g in enumerate(n.generators):
      for k in range(len(g.ifs)):
        m = copy.deepcopy(n)
        del m.generators[gi].ifs[k]
        put('drop filter', m)
  elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Name) and isinstance(n.ctx, ast.Load):
    put('index+1', ast.Subscript(n.value, ast.BinOp(n.slice, ast.Add(), ast.Constant(1)), n.ctx))
  return out


def mutants(path):
  """(enclosing function lines, description, mutated source)"""
  src = open(path).read()
  tree = ast.parse(src)
  out = []

  def annotations(f):
    s = set()
    for a in f.args.args + f.args.kwonlyargs:
      if a.annotation:
        s |= set(ast.walk(a.annotation))
    if f.returns:
      s |= set(ast.walk(f.returns))
    return s
  skip = set()
  for n in ast.walk(tree):
    if isinstance(n, (ast.FunctionDef,)):
      skip |= annotations(n)
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
      skip.add(n.value)
    if isinstance(n, ast.Call) and getattr(n.func, 'id', '') == 'print':
      skip |= set(ast.walk(n))
    if isinstance(n, ast.Raise):
      skip |= set(ast.walk(n)) - {n}
    if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and getattr(n.test.left, 'id', '') == '__name__':
      skip |= set(ast.walk(n))

  def visit(n, scope):
    for field, val in ast.iter_fields(n):
      items = val if isinstance(val, list) else [val]
      for k, c in enumerate(items):
        if not isinstance(c, ast.AST):
          continue
        sc = scope + [(c.lineno, c.name)] if isinstance(c, ast.FunctionDef) else scope
        if c not in skip and sc and not isinstance(c, ast.FunctionDef):
          for what, m in variants(c):
            if isinstance(val, list):
              val[k] = m
            else:
              setattr(n, field, m)
            try:
              text = ast.unparse(ast.fix_missing_locations(tree))
              compile(text, 'x', 'exec')
              ok = True
            except Exception:
              ok = False
            if isinstance(val, list):
              val[k] = c
            else:
              setattr(n, field, c)
            if ok:
              out.append((sc, '%d: %s [%s]' % (c.lineno, ast.unparse(c).split('\n')[0][:90], what), text))
        if c not in skip:
          visit(c, sc)
  visit(tree, [])
  return out


def base_one(a):
  prop, law = a
  from sa import driver as D
  return prop, law, D.run_all(prop, [law], False, 90, 1)[law]


def base():
  import hashlib
  p = WORK + '/base.pkl'
  old = {}
  if os.path.exists(p):
    old = pickle.load(open(p, 'rb'))
  from sa import driver as D
  props = sorted(f[:-3] for f in os.listdir(D.LAWS) if f.startswith('C') and f.endswith('.py'))
  h = {q: hashlib.sha256(open('%s/%s.py' % (D.LAWS, q), 'rb').read()).hexdigest() for q in props}
  jobs = [(q, l) for q in props for l, _, _ in D.law_names(q)]
  with mp.Pool(7) as pool:
    r = pool.map(base_one, [j for j in jobs if (j, h[j[0]]) not in old], chunksize=1)
  for q, l, x in r:
    old[(q, l), h[q]] = x
  pickle.dump(old, open(p, 'wb'))
  return [(q, l, old[(q, l), h[q]]) for q, l in jobs]


RUN = '''
import sys
sys.path.insert(0, %r)
sys.setrecursionlimit(20000)
import warnings
warnings.simplefilter('ignore')
from sa import driver as D, names
import json, time
t0 = time.time()
und = 0
if sys.argv[1]:
  f, st = names.analyse(sys.argv[1])
  bad = [x.key for x in f]
  known = json.loads(sys.argv[2])
  new = [x for x in bad if x not in known]
  if new:
    print('CAUGHT C24 ' + new[0])
    sys.exit()
for j in sys.argv[3:]:
  if time.time() - t0 > 150:
    print('SLOW')
    break
  p, l = j.split(':')
  r = D.run_all(p, [l], False, 40, 1)[l]
  for o in r['obs']:
    if o['status'] == D.R.VIOLATED and l != 'law_floating_eq':
      print('CAUGHT %%s %%s' %% (p, l))
      sys.exit()
    und += o['status'] == D.R.UNDECIDED
  und += bool(r['error'])
print('SURVIVED undecided=%%d' %% und)
''' % V


def job(a):
  k, rel, sc, what, text, laws, known = a
  d = '%s/w%d' % (WORK, os.getpid())
  if not os.path.exists(d):
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git', '__pycache__'))
  p = os.path.join(d, rel)
  orig = open(os.path.join('/repo', rel)).read()
  open(p, 'w').write(text)
  try:
    env = dict(os.environ, SA_REPO=d)
    out = ''
    if laws or True:
      try:
        r = subprocess.run([sys.executable, '-c', RUN, d, json.dumps(known)] + laws, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=400)
        out = r.stdout.strip().split('\n')[-1]
      except subprocess.TimeoutExpired:
        out = 'TIMEOUT'
    tests = ''
    if not out.startswith('CAUGHT'):
      env = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
      try:
        r = subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', '-m', 'pytest', '-q', '-rp', '-p', 'no:cacheprovider',
                            '--timeout=60', '--continue-on-collection-errors', 'starks', 'misc'], cwd=d, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        ok = set(x.split()[1] for x in r.stdout.split('\n') if x.startswith('PASSED '))
        ok = set(x.replace('/', '.').replace('.py::', '.', 1) for x in ok)
        miss = [x for x in STABLE if x not in ok]
        tests = 'tests pass' if not miss else 'tests fail %d' % len(miss)
      except subprocess.TimeoutExpired:
        tests = 'tests fail'
    return k, rel, sc[-1][1], what, out, tests
  finally:
    open(p, 'w').write(orig)


STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']


def main():
  os.makedirs(WORK, exist_ok=True)
  b = base()
  where = {}
  for prop, law, r in b:
    for q, w in r['visited'].items():
      where.setdefault(w, []).append((r['wall'], '%s:%s' % (prop, law)))
  from sa import names
  known = [x.key for x in names.analyse('/repo')[0]]
  jobs = []
  files = []
  for pkg in ('starks', 'misc'):
    for f in sorted(os.listdir('/repo/' + pkg)):
      if f.endswith('.py') and not f.startswith('test_') and f != '__init__.py':
        files.append(pkg + '/' + f)
  want = sys.argv[2:]
  for rel in files:
    if want and not any(w in rel for w in want):
      continue
    for sc, what, text in mutants('/repo/' + rel):
      if os.environ.get('MUT_FUNC') and not re.search(os.environ['MUT_FUNC'], sc[-1][1] + ' ' + what):
        continue
      laws = set()
      for line, name in sc:
        laws |= set(where.get('%s:%d' % (rel, line), []))
      # nested functions run with the enclosing one; methods only by themselves
      inner = set(where.get('%s:%d' % (rel, sc[-1][0]), []))
      laws = [l for w, l in sorted(inner or laws)]
      jobs.append((len(jobs), rel, sc, what, text, laws, known))
  print(len(jobs), 'mutants', flush=True)
  if os.environ.get('MUT_SKIP'):       # mutants an earlier run caught, or that the tests catch
    old = [l.rstrip('\n').split('\t') for l in open(os.environ['MUT_SKIP'])]
    done = set((o[1], o[2], o[3]) for o in old if o[4].startswith('CAUGHT') or 'fail' in o[5])
    jobs = [j for j in jobs if (j[1], j[2][-1][1], j[3]) not in done]
  if os.environ.get('MUT_NOT'):
    jobs = [j for j in jobs if not re.search(os.environ['MUT_NOT'], j[1] + ' ' + j[2][-1][1])]
  import random
  random.Random(5).shuffle(jobs)
  n = c = 0
  with open(sys.argv[1], "w") as f, mp.Pool(int(os.environ.get("MUT_JOBS", "7"))) as pool:
    for r in pool.imap_unordered(job, jobs, chunksize=1):
      n += 1
      c += r[4].startswith('CAUGHT')
      f.write('\t'.join(str(x) for x in r) + '\n')
      f.flush()
      if n % 100 == 0:
        print(n, c, flush=True)
  print('done', n, c)


if __name__ == '__main__':
  main()
