"""Name, import and attribute resolution over the whole project (C24).

Rules
  unbound-name     a name is read that no enclosing scope, import or builtin binds
  unbound-local    a local is read although no path to the read assigns it
  import-missing   'from M import n' where project module M never binds n
  import-cycle     'from M import n' executes while M is still loading and n is not bound yet
  module-attr      M.n where project module M never binds n
  self-attr        self.n where no class of the hierarchy, and no store anywhere, defines n
  missing-module   import of a module that exists neither in the project nor outside
"""
import ast
import builtins
import os
import sys

BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__builtins__',
                                 '__path__', '__package__', '__spec__', '__loader__'}
MODULE_IMPLICIT = {'__name__', '__doc__', '__file__', '__package__', '__spec__',
                   '__loader__', '__path__', '__builtins__', '__dict__'}


class Finding(object):
  def __init__(self, rule, file, scope, name, line, msg):
    self.rule, self.file, self.scope, self.name = rule, file, scope, name
    self.line, self.msg = line, msg

  @property
  def key(self):
    return '%s %s %s %s' % (self.rule, self.file, self.scope or '<module>', self.name)


class Mod(object):
  def __init__(self, name, path, rel, tree):
    self.name, self.path, self.rel, self.tree = name, path, rel, tree
    self.bound = set()
    self.star_unknown = False
    self.imports = []


def moved(repo, found, known):
  """{key of a finding: key of the known finding it is} for defects whose code was
  moved into a helper or whose function was renamed.  A finding in a helper used only
  by the known function is that finding; otherwise a known finding that is gone from
  its own function stands for at most one other of the same rule, file and name."""
  have = {f.key for f in found}
  out, used = {}, set()
  for f in found:
    if f.key in known:
      continue
    for k in known:
      parts = k.split(' ')
      if len(parts) != 4 or parts[0] != f.rule or parts[1] != f.file or parts[3] != f.name:
        continue
      if f.rule == 'self-attr' and (f.scope or '').rpartition('.')[0] != parts[2].rpartition('.')[0]:
        continue
      if only_used_by(os.path.join(repo, f.file), (f.scope or '').split('.')[-1], parts[2].split('.')[-1]):
        out[f.key] = k
        break
      if k not in have and k not in used:
        used.add(k)
        out[f.key] = k
        break
  return out


def only_used_by(path, helper, user):
  with open(path, encoding='utf-8') as fh:
    tree = ast.parse(fh.read())
  n = [0, 0]

  def walk(node, inside):
    for c in ast.iter_child_nodes(node):
      i = inside
      if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
        i = inside or c.name in (user, helper)
      elif isinstance(c, ast.Name) and c.id == helper or isinstance(c, ast.Attribute) and c.attr == helper:
        n[bool(inside)] += 1
      walk(c, i)
  walk(tree, False)
  return n[1] > 0 and n[0] == 0


def is_test(fn):
  return fn.startswith('test_') or fn.endswith('_test.py')


def load_project(repo):
  mods, errors = {}, []
  for top in ('starks', 'misc'):
    base = os.path.join(repo, top)
    if not os.path.isdir(base):
      continue
    for dirpath, dirs, files in os.walk(base):
      dirs[:] = [d for d in sorted(dirs) if d not in ('test', 'tests', '__pycache__')]
      for f in sorted(files):
        if not f.endswith('.py') or is_test(f):
          continue
        path = os.path.join(dirpath, f)
        rel = os.path.relpath(path, repo)
        name = rel[:-3].replace(os.sep, '.')
        if name.endswith('.__init__'):
          name = name[:-9]
        if top == 'misc':
          name = name[5:] if name.startswith('misc.') else name
        with open(path, encoding='utf-8') as fh:
          src = fh.read()
        mods[name] = Mod(name, path, rel, ast.parse(src, path))
  return mods


def site_dirs():
  out = []
  for base in ('/opt/venv', sys.prefix, '/usr'):
    lib = os.path.join(base, 'lib')
    if os.path.isdir(lib):
      for d in sorted(os.listdir(lib)):
        for sub in ('site-packages', 'dist-packages'):
          p = os.path.join(lib, d, sub)
          if os.path.isdir(p):
            out.append(p)
  return out


_star_cache = {}


def star_names(modname):
  """Names a star import of an installed package brings in (its __all__), or None."""
  if modname in _star_cache:
    return _star_cache[modname]
  res = None
  for d in site_dirs():
    p = os.path.join(d, *modname.split('.'))
    for cand in (os.path.join(p, '__init__.py'), p + '.py'):
      if os.path.isfile(cand):
        try:
          tree = ast.parse(open(cand, encoding='utf-8').read())
        except (SyntaxError, OSError):
          continue
        names = set()
        ok = False
        for st in tree.body:
          tgt = None
          if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name):
            tgt = st.targets[0].id
          elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
            tgt = st.target.id
          if tgt == '__all__':
            try:
              names |= set(ast.literal_eval(st.value))
              ok = True
            except ValueError:
              ok = False
              break
        if ok:
          res = names
        break
    if res is not None:
      break
  _star_cache[modname] = res
  return res


# ---------------------------------------------------------------- scopes

class Scope(object):
  def __init__(self, kind, node, parent, name):
    self.kind, self.node, self.parent, self.name = kind, node, parent, name
    self.bound, self.globals, self.nonlocals = set(), set(), set()
    self.star = False
    self.reads = []


def target_names(t):
  for n in ast.walk(t):
    if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
      yield n.id


class Binder(ast.NodeVisitor):
  """Builds the scope tree and records each name read with its scope."""

  def __init__(self, mod, mods):
    self.mod, self.mods = mod, mods
    self.scopes = []
    self.cur = Scope('module', mod.tree, None, '')
    self.scopes.append(self.cur)
    self.module = self.cur
    for st in mod.tree.body:
      self.visit(st)

  def push(self, kind, node, name):
    q = name if not self.cur.name else self.cur.name + '.' + name
    s = Scope(kind, node, self.cur, q)
    self.scopes.append(s)
    self.cur = s
    return s

  def pop(self):
    self.cur = self.cur.parent

  def bind(self, name):
    if name in self.cur.globals:
      self.module.bound.add(name)
    else:
      self.cur.bound.add(name)

  def visit_Name(self, n):
    if isinstance(n.ctx, ast.Load):
      self.cur.reads.append(n)
    else:
      self.bind(n.id)

  def visit_Global(self, n):
    self.cur.globals.update(n.names)
    self.module.bound.update(n.names)

  def visit_Nonlocal(self, n):
    self.cur.nonlocals.update(n.names)

  def visit_Import(self, n):
    for a in n.names:
      self.bind(a.asname or a.name.split('.')[0])

  def visit_ImportFrom(self, n):
    for a in n.names:
      if a.name == '*':
        m = n.module or ''
        names = None
        if m in self.mods:
          names = {x for x in toplevel(self.mods, m) if not x.startswith('_')}
        else:
          names = star_names(m)
        if names is None:
          self.module.star = True
        else:
          self.cur.bound |= names
      else:
        self.bind(a.asname or a.name)

  def visit_ExceptHandler(self, n):
    if n.type:
      self.visit(n.type)
    if n.name:
      self.bind(n.name)
    for s in n.body:
      self.visit(s)

  def visit_MatchAs(self, n):
    if n.name:
      self.bind(n.name)
    self.generic_visit(n)

  def visit_MatchStar(self, n):
    if n.name:
      self.bind(n.name)

  def visit_MatchMapping(self, n):
    if n.rest:
      self.bind(n.rest)
    self.generic_visit(n)

  def _args(self, a):
    for x in a.posonlyargs + a.args + a.kwonlyargs:
      self.cur.bound.add(x.arg)
    for x in (a.vararg, a.kwarg):
      if x:
        self.cur.bound.add(x.arg)

  def _defaults(self, a):
    for d in list(a.defaults) + [x for x in a.kw_defaults if x]:
      self.visit(d)

  def visit_FunctionDef(self, n):
    for d in n.decorator_list:
      self.visit(d)
    self._defaults(n.args)
    self.bind(n.name)
    self.push('function', n, n.name)
    self._args(n.args)
    for s in n.body:
      self.visit(s)
    self.pop()

  visit_AsyncFunctionDef = visit_FunctionDef

  def visit_Lambda(self, n):
    self._defaults(n.args)
    self.push('function', n, '<lambda>')
    self._args(n.args)
    self.visit(n.body)
    self.pop()

  def visit_ClassDef(self, n):
    for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
      self.visit(d)
    self.bind(n.name)
    self.push('class', n, n.name)
    for s in n.body:
      self.visit(s)
    self.pop()

  def _comp(self, n, elts):
    self.visit(n.generators[0].iter)
    self.push('comp', n, '<comp>')
    for k, g in enumerate(n.generators):
      if k:
        self.visit(g.iter)
      self.visit(g.target)
      for c in g.ifs:
        self.visit(c)
    for e in elts:
      self.visit(e)
    self.pop()

  def visit_ListComp(self, n):
    self._comp(n, [n.elt])

  visit_SetComp = visit_ListComp
  visit_GeneratorExp = visit_ListComp

  def visit_DictComp(self, n):
    self._comp(n, [n.key, n.value])

  def visit_NamedExpr(self, n):
    self.visit(n.value)
    s = self.cur
    while s.kind == 'comp':
      s = s.parent
    s.bound.add(n.target.id)

  def visit_AnnAssign(self, n):
    # annotations are documentation here; only the value and target matter
    if n.value:
      self.visit(n.value)
    if isinstance(n.target, ast.Name):
      if n.value:
        self.bind(n.target.id)
    else:
      self.visit(n.target)


_top_cache = {}


def toplevel(mods, name, stack=()):
  """Names bound at the top level of a project module, or None if unknowable."""
  if name in _top_cache:
    return _top_cache[name]
  if name in stack:
    return set()
  m = mods[name]
  out = set(MODULE_IMPLICIT)
  stackn = stack + (name,)

  def stmts(body):
    for st in body:
      if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
        out.add(st.name)
        for g in ast.walk(st):
          if isinstance(g, ast.Global):
            out.update(g.names)
      elif isinstance(st, ast.Import):
        for a in st.names:
          out.add(a.asname or a.name.split('.')[0])
      elif isinstance(st, ast.ImportFrom):
        for a in st.names:
          if a.name == '*':
            if st.module in mods:
              out.update(x for x in toplevel(mods, st.module, stackn) if not x.startswith('_'))
            else:
              out.update(star_names(st.module) or ())
          else:
            out.add(a.asname or a.name)
      else:
        for n in ast.walk(st):
          if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        for f in ('body', 'orelse', 'finalbody'):
          stmts(getattr(st, f, []) or [])
        for h in getattr(st, 'handlers', []):
          stmts(h.body)

  stmts(m.tree.body)
  # submodules are attributes of their package
  for k in mods:
    if k.startswith(name + '.'):
      out.add(k[len(name) + 1:].split('.')[0])
  if not stack:
    _top_cache[name] = out
  return out


def resolve(scope, name):
  s = scope
  first = True
  while s is not None:
    if s.kind == 'class' and not first:
      s = s.parent
      continue
    if name in s.bound and name not in s.globals and name not in s.nonlocals:
      return s
    if s.kind == 'module' and (name in s.bound or s.star):
      return s
    if s.kind != 'comp':
      first = False
    s = s.parent
  return None


# ------------------------------------------------- definite unassignment

class Flow(object):
  """May-assigned analysis of one function body; reports reads that no path assigns."""

  def __init__(self, fn, locals_, report):
    self.locals, self.report = locals_, report
    params = set()
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
      params.add(x.arg)
    for x in (a.vararg, a.kwarg):
      if x:
        params.add(x.arg)
    self.breaks = []
    self.conts = []
    out = self.block(fn.body if isinstance(fn.body, list) else [ast.Return(fn.body)], params)

  def expr(self, e, s):
    """Walks an expression in roughly evaluation order. s is None when unreachable."""
    if e is None:
      return s
    if isinstance(e, (ast.Lambda, ast.FunctionDef)):
      for d in list(e.args.defaults) + [x for x in e.args.kw_defaults if x]:
        s = self.expr(d, s)
      return s
    if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
      self.expr(e.generators[0].iter, s)
      inner = set()
      for g in e.generators:
        inner |= set(target_names(g.target))
      if s is not None:
        s2 = s | inner
        # the element and conditions run only for nonempty inputs, but then before anything else
        for k, g in enumerate(e.generators):
          if k:
            self.expr(g.iter, s2)
          for c in g.ifs:
            self.expr(c, s2)
        if isinstance(e, ast.DictComp):
          self.expr(e.key, s2)
          self.expr(e.value, s2)
        else:
          self.expr(e.elt, s2)
        for n in ast.walk(e):
          if isinstance(n, ast.NamedExpr):
            s = s | {n.target.id}
      return s
    if isinstance(e, ast.NamedExpr):
      s = self.expr(e.value, s)
      return None if s is None else s | {e.target.id}
    if isinstance(e, ast.Name):
      if isinstance(e.ctx, ast.Load):
        if s is not None and e.id in self.locals and e.id not in s:
          self.report(e)
      elif isinstance(e.ctx, ast.Store) and s is not None:
        s = s | {e.id}
      elif isinstance(e.ctx, ast.Del) and s is not None:
        s = s - {e.id}
      return s
    for c in ast.iter_child_nodes(e):
      if isinstance(c, ast.expr):
        s = self.expr(c, s)
      elif isinstance(c, ast.keyword):
        s = self.expr(c.value, s)
      elif isinstance(c, ast.comprehension):
        pass
    return s

  def join(self, a, b):
    if a is None:
      return b
    if b is None:
      return a
    return a | b

  def block(self, body, s):
    for st in body:
      s = self.stmt(st, s)
    return s

  def stmt(self, st, s):
    if s is None:
      return None
    t = type(st).__name__
    if t in ('Expr',):
      return self.expr(st.value, s)
    if t == 'Assign':
      s = self.expr(st.value, s)
      for x in st.targets:
        s = self.expr(x, s)
      return s
    if t == 'AugAssign':
      if isinstance(st.target, ast.Name):
        self.expr(ast.copy_location(ast.Name(st.target.id, ast.Load()), st.target), s)
      s = self.expr(st.value, s)
      return self.expr(st.target, s)
    if t == 'AnnAssign':
      if st.value:
        s = self.expr(st.value, s)
        return self.expr(st.target, s)
      return s
    if t == 'Return':
      self.expr(st.value, s)
      return None
    if t == 'Raise':
      self.expr(st.exc, s)
      return None
    if t == 'Assert':
      s = self.expr(st.test, s)
      return s
    if t == 'If':
      s = self.expr(st.test, s)
      a = self.block(st.body, s)
      b = self.block(st.orelse, s)
      if isinstance(st.test, ast.Constant):
        return a if st.test.value else b
      return self.join(a, b)
    if t in ('For', 'AsyncFor', 'While'):
      if t == 'While':
        test = st.test
        forever = isinstance(test, ast.Constant) and bool(test.value)
        entry = self.expr(test, s)
      else:
        entry = self.expr(st.iter, s)
        forever = False
      # anything the body may assign is may-assigned on later iterations; a first
      # pass without reports collects it
      saved = self.report
      first = entry if t == 'While' else self.expr(st.target, entry)
      self.breaks.append([])
      self.conts.append([])
      out = self.block(st.body, first)
      brk = self.breaks.pop()
      cont = self.conts.pop()
      end = entry if not forever else None
      for x in [out] + cont:
        if not forever:
          end = self.join(end, x)
      end = self.block(st.orelse, end)
      for x in brk:
        end = self.join(end, x)
      return end
    if t == 'Break':
      if self.breaks:
        self.breaks[-1].append(s)
      return None
    if t == 'Continue':
      if self.conts:
        self.conts[-1].append(s)
      return None
    if t in ('Try', 'TryStar'):
      out = self.block(st.body, s)
      assigned = set(s)
      for n in ast.walk(ast.Module(st.body, [])):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
          assigned.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
          assigned.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
          assigned.update((a.asname or a.name.split('.')[0]) for a in n.names)
      out = self.block(st.orelse, out)
      for h in st.handlers:
        hs = self.expr(h.type, assigned) if h.type else assigned
        if h.name:
          hs = hs | {h.name}
        out = self.join(out, self.block(h.body, hs))
      if st.finalbody:
        fin = self.block(st.finalbody, self.join(out, assigned))
        return None if out is None else self.join(out, fin)
      return out
    if t in ('With', 'AsyncWith'):
      for i in st.items:
        s = self.expr(i.context_expr, s)
        if i.optional_vars:
          s = self.expr(i.optional_vars, s)
      out = self.block(st.body, s)
      return self.join(out, s)
    if t in ('FunctionDef', 'AsyncFunctionDef', 'ClassDef'):
      for d in st.decorator_list:
        s = self.expr(d, s)
      if t == 'ClassDef':
        for b in st.bases:
          s = self.expr(b, s)
      else:
        for d in list(st.args.defaults) + [x for x in st.args.kw_defaults if x]:
          s = self.expr(d, s)
      return s | {st.name}
    if t in ('Import', 'ImportFrom'):
      return s | {(a.asname or a.name.split('.')[0]) for a in st.names}
    if t == 'Delete':
      for x in st.targets:
        s = self.expr(x, s)
      return s
    if t == 'Match':
      s = self.expr(st.subject, s)
      out = s
      for c in st.cases:
        cs = set(s)
        for n in ast.walk(c.pattern):
          if getattr(n, 'name', None):
            cs.add(n.name)
        out = self.join(out, self.block(c.body, cs))
      return out
    return s


# ------------------------------------------------- import order simulation

def simulate_imports(mods, start, report):
  """Loads a module symbolically: which names are bound when each import runs."""
  done, loading = {}, {}

  def load(name):
    if name in done or name in loading:
      return
    m = mods[name]
    b = set(MODULE_IMPLICIT)
    loading[name] = b
    pkg = name.rpartition('.')[0]
    if pkg in mods:
      load(pkg)
    run(m, m.tree.body, b, False)
    loading.pop(name)
    done[name] = b

  def names_of(name):
    return done.get(name) if name in done else loading.get(name)

  def run(m, body, b, guarded):
    for st in body:
      if isinstance(st, ast.Import):
        for a in st.names:
          if a.name in mods:
            load(a.name)
          b.add(a.asname or a.name.split('.')[0])
      elif isinstance(st, ast.ImportFrom) and not st.level:
        if st.module in mods:
          load(st.module)
          have = names_of(st.module)
          for a in st.names:
            if a.name == '*':
              b.update(x for x in have if not x.startswith('_'))
              continue
            sub = st.module + '.' + a.name
            if a.name not in have and sub in mods:
              load(sub)
              have = have | {a.name}
            if a.name not in have and st.module in loading and not guarded \
                and a.name in toplevel(mods, st.module):
              report(m, st, st.module, a.name)
            b.add(a.asname or a.name)
        else:
          for a in st.names:
            b.add(a.asname or a.name)
      elif isinstance(st, (ast.FunctionDef, ast.ClassDef)):
        b.add(st.name)
      elif isinstance(st, ast.Try):
        run(m, st.body, b, True)
        for h in st.handlers:
          run(m, h.body, b, True)
        run(m, st.orelse, b, True)
        run(m, st.finalbody, b, guarded)
      elif isinstance(st, (ast.If, ast.For, ast.While, ast.With)):
        if isinstance(st, ast.If) and is_main(st.test):
          continue
        for n in ast.walk(st):
          if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            b.add(n.id)
        run(m, st.body, b, True)
        run(m, getattr(st, 'orelse', []), b, True)
      else:
        for n in ast.walk(st):
          if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            b.add(n.id)

  load(start)


def is_main(t):
  return (isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == '__name__')


STDLIB = set(getattr(sys, 'stdlib_module_names', ()))
# third-party packages the project declares or documents; not vendored with it
THIRD_PARTY = {'sympy', 'numpy', 'requests', 'flask', 'pyblake2', 'primefac', 'setuptools'}


def analyse(repo):
  """Returns (findings, stats)."""
  _top_cache.clear()
  mods = load_project(repo)
  found = {}
  stats = dict(modules=len(mods), scopes=0, reads=0, imports=0, module_attrs=0, self_attrs=0,
               functions=0, per_module={})

  def add(f):
    found.setdefault(f.key, f)

  all_attr_stores = set()
  classes = {}
  for m in mods.values():
    for n in ast.walk(m.tree):
      if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
        all_attr_stores.add(n.attr)
      if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr':
        if len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
          all_attr_stores.add(n.args[1].value)
        else:
          all_attr_stores.add('*')
      if isinstance(n, ast.ClassDef):
        classes.setdefault(n.name, []).append((m, n))

  for m in mods.values():
    b = Binder(m, mods)
    for s in b.scopes:
      stats['scopes'] += 1
      if s.kind == 'function':
        stats['functions'] += 1
      for r in s.reads:
        stats['reads'] += 1
        stats['per_module'][m.rel] = stats['per_module'].get(m.rel, 0) + 1
        if resolve(s, r.id) is None and r.id not in BUILTINS and \
            not (s.kind == 'class' and r.id in ('__qualname__', '__module__')) and r.id != '__class__':
          add(Finding('unbound-name', m.rel, s.name, r.id, r.lineno,
                      'name %r is bound in no enclosing scope, import or builtin' % r.id))
      if s.kind == 'function':
        loc = s.bound - s.globals - s.nonlocals

        def rep(e, s=s, m=m):
          add(Finding('unbound-local', m.rel, s.name, e.id, e.lineno,
                      'local %r is read before any assignment on every path' % e.id))
        Flow(s.node, loc, rep)
    # module-level flow
    class _M(object):
      pass
    fake = _M()
    fake.args = ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])
    fake.body = m.tree.body
    own = set()
    for st in m.tree.body:
      if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
        own.add(st.name)
      elif isinstance(st, (ast.Import, ast.ImportFrom)):
        own |= {(a.asname or a.name.split('.')[0]) for a in st.names if a.name != '*'}
    if not any(isinstance(n, ast.ImportFrom) and n.names[0].name == '*' for n in ast.walk(m.tree)):
      own |= {n.id for st in m.tree.body for n in ast.walk(st)
              if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} & b.module.bound

      def repm(e, m=m):
        if e.id not in BUILTINS:
          add(Finding('unbound-local', m.rel, '', e.id, e.lineno,
                      'module name %r is read before any assignment' % e.id))
      Flow(fake, own, repm)

    # imports
    alias = {}
    for n in ast.walk(m.tree):
      if isinstance(n, ast.Import):
        for a in n.names:
          stats['imports'] += 1
          root = a.name.split('.')[0]
          if a.name in mods:
            alias[a.asname or root] = a.name if a.asname else root
          elif root in mods and a.name not in mods:
            add(Finding('missing-module', m.rel, '', a.name, n.lineno, 'no module %r' % a.name))
          elif root not in STDLIB and root not in THIRD_PARTY and not installed(root):
            add(Finding('missing-module', m.rel, '', a.name, n.lineno, 'no module %r' % a.name))
      elif isinstance(n, ast.ImportFrom) and not n.level:
        for a in n.names:
          stats['imports'] += 1
          if n.module in mods:
            if a.name != '*':
              if a.name not in toplevel(mods, n.module) and n.module + '.' + a.name not in mods:
                add(Finding('import-missing', m.rel, '', '%s.%s' % (n.module, a.name), n.lineno,
                            'module %s binds no %r' % (n.module, a.name)))
              elif n.module + '.' + a.name in mods:
                alias[a.asname or a.name] = n.module + '.' + a.name
          else:
            root = n.module.split('.')[0]
            if root in mods or (root not in STDLIB and root not in THIRD_PARTY
                                and not installed(root)):
              if not in_try(m.tree, n):
                add(Finding('missing-module', m.rel, '', n.module, n.lineno,
                            'no module %r' % n.module))
    for s in b.scopes:
      pass
    for n in ast.walk(m.tree):
      if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and \
          isinstance(n.value, ast.Name) and n.value.id in alias:
        tgt = alias[n.value.id]
        if tgt in mods:
          stats['module_attrs'] += 1
          if n.attr not in toplevel(mods, tgt) and not shadowed(b, n):
            add(Finding('module-attr', m.rel, '', '%s.%s' % (tgt, n.attr), n.lineno,
                        'module %s binds no %r' % (tgt, n.attr)))

    # attributes read on self
    for cls_list in classes.values():
      for cm, cn in cls_list:
        if cm is not m:
          continue
        known = class_attrs(cn, classes, set())
        if known is None:
          continue
        for fn in cn.body:
          if not isinstance(fn, ast.FunctionDef) or not fn.args.args:
            continue
          if any(isinstance(d, ast.Name) and d.id in ('staticmethod',) for d in fn.decorator_list):
            continue
          me = fn.args.args[0].arg
          for a in ast.walk(fn):
            if isinstance(a, ast.Attribute) and isinstance(a.ctx, ast.Load) and \
                isinstance(a.value, ast.Name) and a.value.id == me:
              stats['self_attrs'] += 1
              if a.attr.startswith('__') or a.attr in known or a.attr in all_attr_stores \
                  or '*' in all_attr_stores or hasattr(object, a.attr):
                continue
              add(Finding('self-attr', m.rel, '%s.%s' % (cn.name, fn.name), a.attr, a.lineno,
                          'no class of the hierarchy and no store defines attribute %r' % a.attr))

  def cyc(m, st, mod, name):
    add(Finding('import-cycle', m.rel, '', '%s.%s' % (mod, name), st.lineno,
                '%r is imported from %s while that module is still loading' % (name, mod)))
  for name in mods:
    simulate_imports(mods, name, cyc)
  return list(found.values()), stats


def in_try(tree, node):
  for t in ast.walk(tree):
    if isinstance(t, ast.Try):
      for s in t.body + [x for h in t.handlers for x in h.body]:
        if node in ast.walk(s):
          return True
  return False


def installed(root):
  for d in site_dirs():
    if os.path.exists(os.path.join(d, root)) or os.path.exists(os.path.join(d, root + '.py')):
      return True
  return False


def shadowed(b, node):
  """True if the name is rebound as a local of some function that contains the node."""
  for s in b.scopes:
    if s.kind == 'function' and node.value.id in s.bound:
      if any(x is node for x in ast.walk(s.node)):
        return True
  return False


def class_attrs(cn, classes, seen):
  """Every attribute the class hierarchy (bases and subclasses) defines; None if open."""
  if cn in seen:
    return set()
  seen.add(cn)
  out = set()
  for n in ast.walk(cn):
    if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
      out.add(n.name)
    elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
      out.add(n.id)
    elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
      out.add(n.attr)
    if isinstance(n, ast.FunctionDef) and n.name in ('__getattr__', '__getattribute__'):
      return None
  for base in cn.bases:
    nm = base.id if isinstance(base, ast.Name) else getattr(base, 'attr', None)
    if nm == 'object':
      continue
    if nm not in classes:
      return None
    for _, bn in classes[nm]:
      sub = class_attrs(bn, classes, seen)
      if sub is None:
        return None
      out |= sub
  for lst in classes.values():
    for _, other in lst:
      if any((getattr(x, 'id', None) or getattr(x, 'attr', None)) == cn.name for x in other.bases):
        sub = class_attrs(other, classes, seen)
        if sub is None:
          return None
        out |= sub
  return out


if __name__ == '__main__':
  fs, st = analyse(sys.argv[1] if len(sys.argv) > 1 else '/repo')
  for f in fs:
    print(f.key, f.line, f.msg)
  print(st)
