#!/usr/bin/env python3
"""refactor.py [transform ...]: behaviour-preserving rewrites of the whole repository; every check must stay quiet.

Development aid: rewrites each source file in a scratch copy, runs the repository's stable tests and all checks there."""
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = ast.Name


class Counter(object):
  n = 0


def fresh(p='tmp'):
  Counter.n += 1
  return '%s_%d' % (p, Counter.n)


def ld(x):
  return N(x, ast.Load())


def stn(x):
  return N(x, ast.Store())


class Stmts(ast.NodeTransformer):
  """Rewrites statement lists inside functions."""
  depth = 0

  def visit_FunctionDef(self, n):
    self.depth += 1
    self.generic_visit(n)
    self.depth -= 1
    return n

  def generic_visit(self, n):
    for f in ('body', 'orelse', 'finalbody'):
      v = getattr(n, f, None)
      if isinstance(v, list):
        out = []
        for s in v:
          r = self.visit(s)
          r = r if isinstance(r, list) else [r]
          out.extend(r)
        if self.depth:
          out = self.block(out)
        setattr(n, f, out)
    return n

  def block(self, body):
    out = []
    for s in body:
      r = self.stmt(s)
      out.extend(r if isinstance(r, list) else [r])
    return out

  def stmt(self, s):
    return s


def has(n, *types):
  return any(isinstance(x, types) for x in ast.walk(n))


def loop_has(body, *types):
  """break/continue of this loop level."""
  for s in body:
    if isinstance(s, types):
      return True
    if isinstance(s, (ast.For, ast.While, ast.FunctionDef)):
      continue
    for f in ('body', 'orelse', 'finalbody'):
      if loop_has(getattr(s, f, []) or [], *types):
        return True
    for h in getattr(s, 'handlers', []):
      if loop_has(h.body, *types):
        return True
  return False


class ReturnTemp(Stmts):
  def stmt(self, s):
    if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
      t = fresh('result')
      return [ast.Assign([stn(t)], s.value), ast.Return(ld(t))]
    return s


class CompLoop(Stmts):
  """x = [e for v in it] -> loop."""

  def stmt(self, s):
    v = getattr(s, 'value', None)
    if isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, ast.ListComp) and not has(v.elt, ast.Lambda) \
        and not any(has(g, ast.Lambda) for g in v.generators):
      t = fresh('acc')
      names = set(x.id for g in v.generators for x in ast.walk(g.target) if isinstance(x, ast.Name))
      ren = {m: fresh(m) for m in names}

      class R(ast.NodeTransformer):
        def visit_Name(self, n):
          return ast.copy_location(N(ren.get(n.id, n.id), n.ctx), n)
      # the first iterable belongs to the enclosing scope
      if any(x.id in names for x in ast.walk(v.generators[0].iter) if isinstance(x, ast.Name)):
        return s
      if has(v.elt, ast.ListComp, ast.GeneratorExp):
        pass
      w = R().visit(copy.deepcopy(v))
      body = [ast.Expr(ast.Call(ast.Attribute(ld(t), 'append', ast.Load()), [w.elt], []))]
      for g in reversed(w.generators):
        for c in reversed(g.ifs):
          body = [ast.If(c, body, [])]
        body = [ast.For(g.target, g.iter, body, [])]
      s2 = copy.copy(s)
      s2.value = ld(t)
      return [ast.Assign([stn(t)], ast.List([], ast.Load()))] + body + [s2]
    return s


class ForWhile(Stmts):
  """for v in range(...) -> while, loops without continue whose body does not assign v."""

  def stmt(self, s):
    if isinstance(s, ast.For) and isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call) \
        and getattr(s.iter.func, 'id', '') == 'range' and not s.orelse and not loop_has(s.body, ast.Continue) \
        and len(s.iter.args) <= 2 and not has(ast.Module(s.body, []), ast.Lambda, ast.FunctionDef, ast.Yield):
      v = s.target.id
      if any(isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Store)
             for b in s.body for x in ast.walk(b)):
        return s
      lo, hi = ([ast.Constant(0)] + s.iter.args)[-2:]
      c, e = fresh('i'), fresh('end')
      return [ast.Assign([stn(c)], lo), ast.Assign([stn(e)], hi),
              ast.While(ast.Compare(ld(c), [ast.Lt()], [ld(e)]),
                        [ast.Assign([stn(v)], ld(c))] + s.body
                        + [ast.AugAssign(stn(c), ast.Add(), ast.Constant(1))], [])]
    return s


class IfSwap(Stmts):
  def stmt(self, s):
    if isinstance(s, ast.If) and s.orelse and not (len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If)):
      return ast.If(ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body)
    return s


class EarlyElse(Stmts):
  """if c: ...return; rest -> if c: ... else: rest"""

  def block(self, body):
    for k, s in enumerate(body):
      if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and k + 1 < len(body):
        s2 = ast.If(s.test, s.body, self.block(body[k + 1:]))
        return body[:k] + [s2]
    return body


class ElseEarly(Stmts):
  """if c: ...return else: rest -> early return"""

  def stmt(self, s):
    if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)):
      return [ast.If(s.test, s.body, [])] + s.orelse
    return s


class TernaryIf(Stmts):
  def stmt(self, s):
    v = getattr(s, 'value', None)
    if isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, ast.IfExp):
      a, b = copy.copy(s), copy.copy(s)
      a.value, b.value = v.body, v.orelse
      return ast.If(v.test, [a], [b])
    return s


class IfTernary(Stmts):
  def stmt(self, s):
    if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1:
      a, b = s.body[0], s.orelse[0]
      if isinstance(a, ast.Return) and isinstance(b, ast.Return) and a.value and b.value:
        return ast.Return(ast.IfExp(s.test, a.value, b.value))
      if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) \
          and ast.dump(a.targets[0]) == ast.dump(b.targets[0]):
        return ast.Assign(a.targets, ast.IfExp(s.test, a.value, b.value))
    return s


class CmpFlip(ast.NodeTransformer):
  F = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}

  def visit_Compare(self, n):
    self.generic_visit(n)
    if len(n.ops) == 1 and type(n.ops[0]) in self.F and not has(n, ast.Call):
      return ast.Compare(n.comparators[0], [self.F[type(n.ops[0])]()], [n.left])
    return n


class DeMorgan(ast.NodeTransformer):
  def visit_If(self, n):
    self.generic_visit(n)
    n.test = self.flip(n.test)
    return n

  def visit_While(self, n):
    self.generic_visit(n)
    n.test = self.flip(n.test)
    return n

  def flip(self, t):
    if isinstance(t, ast.BoolOp):
      op = ast.And() if isinstance(t.op, ast.Or) else ast.Or()
      return ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in t.values]))
    return t


class NestedIf(Stmts):
  """if a and b: X -> if a: if b: X"""

  def stmt(self, s):
    if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
      body = s.body
      for v in reversed(s.test.values):
        body = [ast.If(v, body, [])]
      return body
    return s


class Temps(Stmts):
  """Names the arguments of calls in assignments and returns (left to right)."""

  def stmt(self, s):
    v = getattr(s, 'value', None)
    if isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, ast.Call) and isinstance(v.func, ast.Name) \
        and not v.keywords and not any(isinstance(a, ast.Starred) for a in v.args) and len(v.args) > 0 \
        and not has(v, ast.Lambda) and v.func.id not in ('super',):
      pre, args = [], []
      for a in v.args:
        if isinstance(a, (ast.Name, ast.Constant, ast.GeneratorExp)):
          if isinstance(a, ast.GeneratorExp):
            return s
          args.append(a)
        else:
          t = fresh('arg')
          pre.append(ast.Assign([stn(t)], a))
          args.append(ld(t))
      s2 = copy.copy(s)
      s2.value = ast.Call(v.func, args, [])
      return pre + [s2]
    return s


class Operands(Stmts):
  """return a op b -> left = a; right = b; return left op right"""

  def stmt(self, s):
    v = getattr(s, 'value', None)
    if isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, ast.BinOp):
      a, b = fresh('left'), fresh('right')
      s2 = copy.copy(s)
      s2.value = ast.BinOp(ld(a), v.op, ld(b))
      return [ast.Assign([stn(a)], v.left), ast.Assign([stn(b)], v.right), s2]
    return s


class Rename(ast.NodeTransformer):
  """Renames the local variables of functions without nested scopes."""

  def visit_FunctionDef(self, n):
    if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Global, ast.Nonlocal)) for x in ast.walk(n) if x is not n):
      self.generic_visit(n)
      return n
    params = set(a.arg for a in n.args.args + n.args.kwonlyargs)
    if n.args.vararg:
      params.add(n.args.vararg.arg)
    loc = set(x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)) - params
    for x in ast.walk(n):
      if isinstance(x, ast.Name) and x.id in loc:
        x.id = x.id + '_v'
    return n


class Extract(ast.NodeTransformer):
  """Moves the body of every plain function into a helper of the same module."""

  def visit_Module(self, m):
    out = []
    for s in m.body:
      if isinstance(s, ast.FunctionDef) and not s.decorator_list and not s.args.vararg and not s.args.kwonlyargs \
          and not s.args.kwarg and not has(s, ast.Yield) and not any(
              isinstance(x, ast.Name) and x.id == s.name for x in ast.walk(s)):
        h = copy.deepcopy(s)
        h.name = '_' + s.name + '_body'
        h.args.defaults = []
        out.append(h)
        names = [a.arg for a in s.args.args]
        s.body = [ast.Return(ast.Call(ld(h.name), [ld(a) for a in names], []))]
      out.append(s)
    m.body = out
    return m


class ExtractMethod(ast.NodeTransformer):
  """Moves the body of every plain method into a private method."""

  def visit_ClassDef(self, c):
    out = []
    for s in c.body:
      if isinstance(s, ast.FunctionDef) and not s.decorator_list and not s.args.vararg and not s.args.kwonlyargs \
          and not s.args.kwarg and not has(s, ast.Yield) and s.args.args and s.args.args[0].arg == 'self' \
          and not s.name.startswith('__') and not any(isinstance(x, ast.Name) and x.id == 'super' for x in ast.walk(s)):
        h = copy.deepcopy(s)
        h.name = '_' + s.name + '_body'
        h.args.defaults = []
        out.append(h)
        names = [a.arg for a in s.args.args[1:]]
        s.body = [ast.Return(ast.Call(ast.Attribute(ld('self'), h.name, ast.Load()), [ld(a) for a in names], []))]
      out.append(s)
    c.body = out
    return c


class TailHelper(ast.NodeTransformer):
  """Extracts the last half of each module-level function into a helper taking the local variables it reads."""

  def visit_Module(self, m):
    out = []
    for s in m.body:
      h = None
      if isinstance(s, ast.FunctionDef) and not s.decorator_list and not s.args.vararg and not s.args.kwonlyargs \
          and not has(s, ast.Yield, ast.Lambda, ast.Global) and not any(isinstance(x, ast.FunctionDef) for x in ast.walk(s) if x is not s) \
          and len(s.body) >= 4 and isinstance(s.body[-1], ast.Return):
        k = len(s.body) // 2
        head, tail = s.body[:k], s.body[k:]
        # locals assigned at the top level of the head
        sure = [a.arg for a in s.args.args]
        for x in head:
          if isinstance(x, ast.Assign):
            for t in x.targets:
              for y in ast.walk(t):
                if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store) and y.id not in sure:
                  sure.append(y.id)
        anyl = set(y.id for x in head for y in ast.walk(x) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store))
        reads = set(y.id for x in tail for y in ast.walk(x) if isinstance(y, ast.Name))
        if not ((anyl & reads) - set(sure)):
          need = [a for a in sure if a in reads]
          h = ast.FunctionDef('_%s_rest' % s.name, ast.arguments([], [ast.arg(a) for a in need], None, [], [], None, []),
                              tail, [], None)
          if sys.version_info >= (3, 12):
            h.type_params = []
          s.body = head + [ast.Return(ast.Call(ld(h.name), [ld(a) for a in need], []))]
      if h:
        out.append(h)
      out.append(s)
    m.body = out
    return m


class RangeIndex(Stmts):
  """for v in name: body -> for k in range(len(name)): v = name[k] (lists only; applied where the name was built as a list)"""

  def visit_FunctionDef(self, n):
    old = getattr(self, 'lists', set())
    self.lists = set()
    bad = set()
    for x in ast.walk(n):
      if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
        if isinstance(x.value, (ast.List, ast.ListComp)):
          self.lists.add(x.targets[0].id)
        else:
          bad.add(x.targets[0].id)
    self.lists -= bad
    Stmts.visit_FunctionDef(self, n)
    self.lists = old
    return n

  def stmt(self, s):
    if isinstance(s, ast.For) and isinstance(s.iter, ast.Name) and s.iter.id in self.lists and not s.orelse:
      if any(isinstance(x, ast.Name) and x.id == s.iter.id for b in s.body for x in ast.walk(b)):
        return s
      k = fresh('k')
      return ast.For(stn(k), ast.Call(ld('range'), [ast.Call(ld('len'), [ld(s.iter.id)], [])], []),
                     [ast.Assign([s.target], ast.Subscript(ld(s.iter.id), ld(k), ast.Load()))] + s.body, [])
    return s


class AugPlain(Stmts):
  """x += int constant -> x = x + constant; x *= -> likewise for names"""

  def stmt(self, s):
    if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.value, ast.Constant) \
        and isinstance(s.value.value, int):
      return ast.Assign([s.target], ast.BinOp(ld(s.target.id), s.op, s.value))
    return s


class Dead(Stmts):
  """Statements that do nothing, logging, unused variables."""

  def visit_FunctionDef(self, n):
    Stmts.visit_FunctionDef(self, n)
    k = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
    n.body[k:k] = [ast.Assign([stn(fresh('unused'))], ast.Constant(0)), ast.If(ast.Constant(False), [ast.Pass()], [])]
    return n


class Shuffle(Stmts):
  """Swaps adjacent independent simple assignments."""

  def block(self, body):
    out = list(body)
    k = 0
    while k + 1 < len(out):
      a, b = out[k], out[k + 1]
      if self.simple(a) and self.simple(b):
        wa, wb = a.targets[0].id, b.targets[0].id
        ra = set(x.id for x in ast.walk(a.value) if isinstance(x, ast.Name))
        rb = set(x.id for x in ast.walk(b.value) if isinstance(x, ast.Name))
        if wa != wb and wa not in rb and wb not in ra:
          out[k], out[k + 1] = b, a
          k += 1
      k += 1
    return out

  def simple(self, s):
    return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) \
        and not has(s.value, ast.Call, ast.Subscript, ast.BinOp)


class WhileTrue(Stmts):
  """while c: body -> while True: if not c: break; body"""

  def stmt(self, s):
    if isinstance(s, ast.While) and not s.orelse and not (isinstance(s.test, ast.Constant)):
      return ast.While(ast.Constant(True), [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Break()], [])] + s.body, [])
    return s


class Keyword(ast.NodeTransformer):
  """range(n) -> range(0, n); len(x) == 0 style is left alone."""

  def visit_Call(self, n):
    self.generic_visit(n)
    if isinstance(n.func, ast.Name) and n.func.id == 'range' and len(n.args) == 1 and not n.keywords:
      n.args = [ast.Constant(0), n.args[0]]
    return n


class ListGen(ast.NodeTransformer):
  """[e for ...] -> list(e for ...)"""

  def visit_ListComp(self, n):
    self.generic_visit(n)
    return ast.Call(ld('list'), [ast.GeneratorExp(n.elt, n.generators)], [])


class SumLoop(Stmts):
  """x = sum(generator) -> loop"""

  def stmt(self, s):
    v = getattr(s, 'value', None)
    if isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, ast.Call) and getattr(v.func, 'id', '') == 'sum' \
        and isinstance(v.args[0], (ast.GeneratorExp, ast.ListComp)) and len(v.args[0].generators) == 1:
      t = fresh('total')
      g = copy.deepcopy(v.args[0])
      names = set(x.id for x in ast.walk(g.generators[0].target) if isinstance(x, ast.Name))
      ren = {m: fresh(m) for m in names}
      for x in list(ast.walk(g.elt)) + list(ast.walk(g.generators[0].target)) + [y for c in g.generators[0].ifs for y in ast.walk(c)]:
        if isinstance(x, ast.Name) and x.id in ren:
          x.id = ren[x.id]
      body = [ast.Assign([stn(t)], ast.BinOp(ld(t), ast.Add(), g.elt))]
      for c in reversed(g.generators[0].ifs):
        body = [ast.If(c, body, [])]
      s2 = copy.copy(s)
      s2.value = ld(t)
      start = v.args[1] if len(v.args) > 1 else ast.Constant(0)
      return [ast.Assign([stn(t)], start), ast.For(g.generators[0].target, g.generators[0].iter, body, []), s2]
    return s


class TupleSplit(Stmts):
  """a, b = x, y -> temporaries"""

  def stmt(self, s):
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) \
        and len(s.targets[0].elts) == len(s.value.elts):
      ts = [fresh('t') for _ in s.value.elts]
      return [ast.Assign([stn(t)], e) for t, e in zip(ts, s.value.elts)] + \
             [ast.Assign([x], ld(t)) for x, t in zip(s.targets[0].elts, ts)]
    return s


class Plain(ast.NodeTransformer):
  """Reformatting only (comments and layout removed)."""


TRANSFORMS = dict((c.__name__, c) for c in (
    Plain, ReturnTemp, CompLoop, ForWhile, IfSwap, EarlyElse, ElseEarly, TernaryIf, IfTernary, CmpFlip, DeMorgan, NestedIf, Temps,
    Operands, Rename, Extract, ExtractMethod, TailHelper, RangeIndex, AugPlain, Dead, Shuffle, WhileTrue, Keyword, ListGen,
    SumLoop, TupleSplit))


def main():
  jobs = int(os.environ.get('JOBS', '6'))
  for name in sys.argv[1:] or TRANSFORMS:
    d = '/tmp/ref/%s' % name
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    changed = 0
    for pkg in ('starks', 'misc'):
      for f in sorted(os.listdir(os.path.join(d, pkg))):
        p = os.path.join(d, pkg, f)
        if f.endswith('.py') and not f.startswith('test_'):
          src = open(p).read()
          before = ast.unparse(ast.parse(src))
          t = TRANSFORMS[name]().visit(ast.parse(src))
          text = ast.unparse(ast.fix_missing_locations(t))
          compile(text, f, 'exec')
          changed += text != before
          open(p, 'w').write(text + '\n')
    env = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    r = subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', '-m', 'pytest', '-q', '-rp', '-p', 'no:cacheprovider',
                        '--continue-on-collection-errors', 'starks', 'misc'], cwd=d, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    ok = set(x.split()[1].replace('/', '.').replace('.py::', '.', 1) for x in r.stdout.split('\n') if x.startswith('PASSED '))
    miss = [x for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if x not in ok]
    env = dict(os.environ, SA_REPO=d, SA_EVIDENCE='/tmp/ref/ev_' + name)
    props = sorted(json.loads(l)['id'] for l in open(V + '/properties.jsonl'))
    props = [p for p in props if p not in ('C33', 'C34')]

    def one(p):
      r = subprocess.run(['python3', '-W', 'ignore', 'check.py', p], cwd=V, env=env, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, text=True)
      return p, r.returncode, [l for l in r.stdout.split('\n') if 'VIOLATION' in l or 'law' in l and r.returncode][:4], r.stdout
    with ThreadPoolExecutor(jobs) as ex:
      res = list(ex.map(one, props))
    bad = [(p, c, o) for p, c, o, full in res if c]
    for p, c, o, full in res:
      open('/tmp/ref/out_%s_%s.txt' % (name, p), 'w').write(full)
    print(name, 'files changed', changed, 'tests missing', len(miss), 'alarms', bad, flush=True)


if __name__ == '__main__':
  main()
