"""No library module reseeds or replaces the state of a process-wide random generator.

For every module the names that stand for the functions `seed` and `setstate` of `random` (and `numpy.random`) are
computed from its imports and from assignments of them to further names; every call of one of them, anywhere in the
module, is reported. Generators made with random.Random(...) are objects of their own and are not concerned."""
import ast
import os

STATEFUL = ('seed', 'setstate', 'set_state')
MODULES = ('random', 'numpy.random')


def dotted(n):
  if isinstance(n, ast.Name):
    return n.id
  if isinstance(n, ast.Attribute):
    b = dotted(n.value)
    return b and b + '.' + n.attr
  return None


def module_calls(tree):
  """[(line, function, what)] of reseeding calls, number of calls looked at."""
  alias = {}
  for n in ast.walk(tree):
    if isinstance(n, ast.Import):
      for a in n.names:
        alias[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
    elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
      for a in n.names:
        alias[a.asname or a.name] = n.module + '.' + a.name

  def resolve(e):
    d = dotted(e)
    if d is None:
      return None
    head, _, rest = d.partition('.')
    return alias[head] + ('.' + rest if rest else '') if head in alias else None
  bad = set('%s.%s' % (m, s) for m in MODULES for s in STATEFUL)
  bad |= set('random._inst.' + s for s in STATEFUL)
  for _ in range(3):
    for n in ast.walk(tree):
      if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
        r = resolve(n.value)
        if r and n.targets[0].id not in alias and (r in bad or r in MODULES or r == 'random._inst'):
          alias[n.targets[0].id] = r
  out, count = [], 0

  def walk(n, scope):
    nonlocal count
    for c in ast.iter_child_nodes(n):
      if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
        walk(c, scope + [c.name])
      else:
        if isinstance(c, ast.Call):
          count += 1
          f = c.func
          r = resolve(f)
          if r is None and isinstance(f, ast.Call) and dotted(f.func) == 'getattr' and len(f.args) >= 2 and \
             isinstance(f.args[1], ast.Constant):
            b = resolve(f.args[0])
            r = b and '%s.%s' % (b, f.args[1].value)
          if r in bad:
            out.append((c.lineno, '.'.join(scope) or '<module>', r))
        walk(c, scope)
  walk(tree, [])
  return out, count


def lint(rep, R):
  mods = 0
  for pkg in ('starks', 'misc'):
    d = os.path.join(R.REPO, pkg)
    for base, dirs, files in os.walk(d):
      dirs[:] = sorted(x for x in dirs if x not in ('test', 'tests', '__pycache__'))
      for f in sorted(files):
        if not f.endswith('.py') or f.startswith('test_') or f == 'conftest.py':
          continue
        path = os.path.join(base, f)
        rel = os.path.relpath(path, R.REPO)
        try:
          tree = ast.parse(open(path, encoding='utf-8').read())
        except SyntaxError as e:
          rep.add('reseed %s' % rel, rel, 'parses', R.UNDECIDED, str(e))
          continue
        mods += 1
        bad, n = module_calls(tree)
        if not bad:
          rep.add('reseed %s' % rel, rel, 'no call reseeds the process-wide random generator', R.DISCHARGED, '%d calls' % n)
        for line, scope, what in bad:
          rep.add('reseed %s %s' % (rel, scope), '%s:%d in %s' % (rel, line, scope),
                  'no call reseeds the process-wide random generator', R.VIOLATED, 'calls %s' % what)
  if mods < 20:
    raise R.AnalysisBroken('only %d modules found' % mods)
