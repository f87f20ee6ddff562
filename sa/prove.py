"""Equality of value graphs by normalisation under gate conditions.

Two terms are equal when their normal forms coincide, when they are the same
construct applied to equal parts, or when they are equal both where a gate
condition occurring in them holds and where it does not.
"""
import time

from . import terms as T
from .terms import Unsupported, TRUE, FALSE, const, mk, bnot
from .interp import lits_of, ge_facts
from .loops import mu_component


def below_zero(f, ge):
  """Whether -f >= 0 follows from the facts."""
  saved = T.get_ge()
  T.set_ge(tuple(ge))
  try:
    return T.nonneg(T.neg(f))
  finally:
    T.set_ge(saved)


class Ctx(object):
  """Facts: truth values of conditions, nonnegative terms, solved equations."""

  def __init__(self, known=None, ge=(), subs=(), dead=False):
    self.known = known or {}
    self.ge = ge
    self.subs = subs
    self.dead = dead
    self.memo = {}

  def add(self, c, val):
    """The context in which c has truth value val."""
    lits = []
    lits_of(c, val, lits)
    known, ge, subs, dead = dict(self.known), list(self.ge), list(self.subs), self.dead
    for a, v in lits:
      if a is TRUE or a is FALSE:
        if (a is TRUE) != v:
          dead = True
        continue
      if known.get(a, v) != v:
        dead = True
      known[a] = v
      for f in ge_facts(a, v):
        if f.op == 'c':
          if T.cval(f) < 0:
            dead = True
        elif f not in ge:
          if f.mf == 0 and (T.neg(f) in ge or below_zero(f, ge)):
            # bounded by zero on both sides
            b = T.is_zero(f)
            if b is FALSE:
              dead = True
            elif b is not TRUE and b not in known:
              known[b] = True
              s = solve(b)
              if s is not None:
                subs.append(s)
          ge.append(f)
      if v:
        s = solve(a)
        if s is not None:
          subs.append(s)
      elif a.op == 'z' and a.args[0].sort == 'int' and a.mf == 0:
        b = excluded_middle(a.args[0], ge)
        if b is not None and b not in known:
          if b is FALSE:
            dead = True
          elif b is not TRUE:
            known[b] = True
            s = solve(b)
            if s is not None:
              subs.append(s)
    return Ctx(known, tuple(ge), tuple(subs), dead)

  def norm(self, t):
    r = self.memo.get(t)
    if r is None:
      saved = T.get_ge()
      T.set_ge(self.ge)
      try:
        r = t
        for k in range(4):
          old = r
          for x, y in self.subs:
            r = T.subst(r, {x: y}) if x.op != 'p' else rewrite(r, x, y)
          r = self.walk(r, {})
          if r is old:
            break
      finally:
        T.set_ge(saved)
      self.memo[t] = r
    return r

  def walk(self, t, memo):
    known = self.known

    def go(x):
      if isinstance(x, tuple):
        return tuple(go(y) for y in x)
      if not isinstance(x, T.T):
        return x
      if x.sort == 'bool' and x in known:
        return TRUE if known[x] else FALSE
      if x.op in ('c', 'sym', 'bv', 'ref', 'py'):
        return x
      r = memo.get(x)
      if r is not None:
        return r
      op = x.op
      if op in ('map', 'sum', 'prod', 'all', 'flat', 'least'):
        n = go(x.args[0])
        i = T.fresh_index(n)
        ge = T.get_ge()
        f = T.sub(T.sub(n, const(1)), i)
        T.set_ge(ge + (f,))
        try:
          b = go(T.subst_bv(x.args[1], (i,)))
        finally:
          T.set_ge(ge)
        r = T.rebuild(x, (n, T.close(b, [i])))
      elif op == 'first':
        i = T.fresh('k', 'int', lo=0)
        b = go(T.subst_bv(x.args[0], (i,)))
        r = T.rebuild(x, (T.close(b, [i]),))
      elif op == 'mu':
        n, inits, nexts, j = x.args
        n, inits = go(n), go(inits)
        i = T.fresh_index(n)
        ss = [T.fresh('phi', y.sort) for y in inits]
        nx = tuple(T.close(go(T.subst_bv(y, tuple(ss) + (i,))), ss + [i]) for y in nexts)
        r = T.rebuild(x, (n, inits, nx, j))
      elif any(T.binders(op, x.args)):
        r = x
      elif op == 'ite':
        c = go(x.args[0])
        r = go(x.args[1]) if c is TRUE else go(x.args[2]) if c is FALSE else T.ite(c, go(x.args[1]), go(x.args[2]))
      else:
        r = T.rebuild(x, tuple(go(a) for a in x.args))
      memo[x] = r
      return r
    return go(t)


def excluded_middle(t, ge):
  """The equation left for an integer with two possible values once it is not zero.

  A bounded integer that is not its bound is beyond it (added to ge)."""
  saved = T.get_ge()
  T.set_ge(tuple(ge))
  try:
    one = const(1)
    if T.nonneg(t):
      ge.append(T.sub(t, one))
      if T.nonneg(T.sub(one, t)):
        return T.is_zero(T.sub(t, one))
    elif T.nonneg(T.neg(t)):
      ge.append(T.sub(T.neg(t), one))
      if T.nonneg(T.add(t, one)):
        return T.is_zero(T.add(t, one))
  finally:
    T.set_ge(saved)
  return None


def solve(a):
  """An equation condition as a substitution (atom, value)."""
  if a.op == 'z':
    t = a.args[0]
    try:
      d = T.to_poly(t)
    except Unsupported:
      return None
    best = None
    for m, c in d.items():
      if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
        x = m[0][0]
        if x.sort != t.sort or x.op == 'c':
          continue
        rest = dict(d)
        del rest[m]
        r = T.from_poly({k: (-v if c > 0 else v) for k, v in rest.items()}, t.sort)
        if occurs_in(x, r):
          continue
        rank = (0 if x.op == 'sym' else 1, -x.serial)
        if best is None or rank < best[0]:
          best = (rank, x, r)
    if best is not None:
      return best[1], best[2]
    # no linear atom: rewrite the largest monomial with a unit coefficient
    cands = []
    for m, c in d.items():
      if abs(c) == 1 and len(m) >= 1 and all(isinstance(e, int) and e > 0 for _, e in m):
        div = sum(1 for x, _ in m if x in moduli(t))
        cands.append((div, -sum(e for _, e in m), -max(x.serial for x, _ in m), m, c))
    if cands and len(d) > 1:
      cands.sort(key=lambda k: k[:3])
      m, c = cands[0][3:]
      rest = dict(d)
      del rest[m]
      return T.from_poly({m: 1}, t.sort), T.from_poly({k: (-v if c > 0 else v) for k, v in rest.items()}, t.sort)
  elif a.op == 'eqv':
    x, y = a.args
    for p, q in ((x, y), (y, x)):
      if p.op == 'sym' and not occurs_in(p, q):
        return p, q
    for p, q in ((x, y), (y, x)):
      if p.op not in ('c', 'lit', 'map', 'cat') and p.mf == 0 and not occurs_in(p, q):
        return p, q
  return None


def moduli(t):
  """Atoms used as a divisor inside t."""
  out = set()
  seen, todo = set(), [t]
  while todo:
    x = todo.pop()
    if isinstance(x, tuple):
      todo.extend(x)
    elif isinstance(x, T.T) and x not in seen:
      seen.add(x)
      if x.op == 'fd':
        for m in T.to_poly(x.args[1]):
          out.update(a for a, _ in m)
      todo.extend(x.args)
  return out


def rewrite(t, lhs, rhs):
  """Replaces multiples of the monomial lhs by rhs, everywhere in t."""
  (m, _), = T.to_poly(lhs).items()
  memo = {}

  def red(x):
    for k in range(6):
      d = T.to_poly(x)
      out, hit = {}, T.const(0, x.sort)
      for mo, c in d.items():
        q = divmono(mo, m)
        if q is None:
          out[mo] = c
        else:
          hit = T.add(hit, T.mul(T.from_poly({q: c}, x.sort), rhs))
      if len(out) == len(d):
        return x
      x = T.add(T.from_poly(out, x.sort), hit)
      if x.op != 'p':
        return x
    return x

  def go(x):
    if isinstance(x, tuple):
      return tuple(go(y) for y in x)
    if not isinstance(x, T.T) or x.op in ('c', 'sym', 'bv', 'ref', 'py') or x.mf:
      return x
    r = memo.get(x)
    if r is None:
      r = T.rebuild(x, tuple(go(a) for a in x.args))
      if r.op == 'p' and r.sort == lhs.sort:
        r = red(r)
      memo[x] = r
    return r
  return go(t)


def divmono(m, d):
  dm = dict(m)
  for a, e in d:
    k = dm.get(a)
    if not isinstance(k, int) or k < e:
      return None
    dm[a] = k - e
    if dm[a] == 0:
      del dm[a]
  return tuple(sorted(dm.items(), key=lambda p: p[0].serial))


def exits(ts, ctx):
  """Adds that a search which ended found what it was looking for."""
  seen, todo, found = set(), list(ts), []
  while todo and len(seen) < 4000:
    x = todo.pop()
    if isinstance(x, tuple):
      todo.extend(x)
    elif isinstance(x, T.T) and x not in seen:
      seen.add(x)
      if x.op == 'first' and x.mf == 0:
        found.append(x)
      todo.extend(x.args)
  for x in sorted(found, key=lambda y: y.serial)[:3]:
    ctx = ctx.add(T.subst_bv(x.args[0], (x,)), True)
  return ctx


def occurs_in(x, t):
  return T.occurs(t, lambda y: y is x)


SPLIT_OPS = ('ite',)


def gates(t, out, limit=4000, seen=None):
  """Closed atomic conditions of choices occurring in t (outermost first)."""
  seen = set()
  todo = [t]
  n = 0
  while todo and n < limit:
    x = todo.pop(0)
    n += 1
    if isinstance(x, tuple):
      todo.extend(x)
      continue
    if not isinstance(x, T.T) or x in seen:
      continue
    seen.add(x)
    if x.op == 'ite':
      c = x.args[0]
      if c.op != 'ite' and c.mf == 0 and c.op != 'c' and c not in out:
        out.append(c)
    elif x.sort == 'bool' and x.op in ('z', 'gt0', 'eqv', 'sym', 'all', 'dhas', 'fn') and x.mf == 0 and x not in out:
      out.append(x)
    todo.extend(x.args)
  return out


def earlier(a, b):
  """Both terms with states a few steps apart brought to the earlier one, or None."""
  groups = {}
  seen, todo = set(), [a, b]
  while todo:
    x = todo.pop()
    if isinstance(x, tuple):
      todo.extend(x)
    elif isinstance(x, T.T) and x not in seen:
      seen.add(x)
      if x.op == 'mu' and x.mf == 0:
        groups.setdefault((x.args[1], x.args[2]), []).append(x)
      todo.extend(x.args)
  sub = {}
  for (inits, bodies), xs in groups.items():
    ns = []
    for x in xs:
      if x.args[0] not in ns:
        ns.append(x.args[0])
    if len(ns) < 2:
      continue
    for x in xs:
      for m in ns:
        d = T.sub(x.args[0], m)
        if d.op == 'c' and 0 < T.cval(d) <= 3 and T.nonneg(m):
          n1 = T.sub(x.args[0], const(1))
          states = tuple(T.mu(n1, inits, bodies, j, inits[j].sort if inits[j].sort != 'any' else None) for j in range(len(inits)))
          v = T.subst_bv(bodies[x.args[3]], states + (n1,))
          if v.sort == x.sort:
            sub[x] = v
          break
  if not sub:
    return None
  return T.subst(a, sub), T.subst(b, sub)


class Prover(object):
  MAXDEPTH = 14

  def __init__(self, deadline, budget=1500, slice_=10):
    self.deadline = deadline
    self.budget0 = budget
    self.slice = slice_
    self.until = deadline

  def start(self):
    self.budget = self.budget0
    self.until = min(self.deadline - 20, time.time() + self.slice)
    T.LIMIT[0] = self.until

  def valid(self, c):
    self.start()
    try:
      return self.eqv(c, TRUE, exits((c,), Ctx()), 0)
    finally:
      T.LIMIT[0] = None

  def equal(self, a, b, pc):
    self.start()
    if a is b:
      return True
    try:
      ctx = Ctx()
      if pc is not TRUE:
        ctx = ctx.add(pc, True)
      return self.eqv(a, b, exits((pc, a, b), ctx), 0)
    finally:
      T.LIMIT[0] = None

  def tick(self):
    self.budget -= 1
    return self.budget < 0 or time.time() > self.until

  def eqv(self, a, b, ctx, depth, ext=0):
    if a is b or ctx.dead:
      return True
    if self.tick():
      return False
    for c in list(ctx.known):
      if c.op == 'ite' or c.mf:
        continue
    a, b = ctx.norm(a), ctx.norm(b)
    if a is b:
      return True
    if self.infeasible(ctx):
      return True
    saved = T.get_ge()
    T.set_ge(ctx.ge)
    try:
      try:
        e = T.eq(a, b)
      except Unsupported:
        e = None
      if e is TRUE:
        return True
      if e is FALSE:
        return False
    finally:
      T.set_ge(saved)
    if self.structural(a, b, ctx, depth, ext):
      return True
    if a.op == 'all' and b is TRUE:
      i = T.fresh_index(a.args[0])
      c2 = Ctx(ctx.known, ctx.ge + (T.sub(T.sub(a.args[0], const(1)), i),), ctx.subs)
      if self.eqv(T.subst_bv(a.args[1], (i,)), TRUE, c2, depth, ext):
        return True
    saved = T.get_ge()
    T.set_ge(ctx.ge)
    try:
      u = earlier(a, b)
    finally:
      T.set_ge(saved)
    if u is not None and self.eqv(u[0], u[1], ctx, depth + 1, ext):
      return True
    if self.inductive < 2 and not self.noind and not surface_gate(a) and not surface_gate(b) \
        and self.induction(a, b, ctx, depth, ext):
      return True
    if depth >= self.MAXDEPTH:
      return False
    if ext < 2 and self.euclid(a, b, ctx, depth, ext):
      return True
    g = []
    gates(a, g)
    gates(b, g)
    if e is not None and not g:
      gates(e, g)
    g = [c for c in g if c not in ctx.known]
    g.sort(key=lambda c: T.occurs(c, lambda x: x.op == 'ite'))
    for c in g[:1 if depth > 2 else 2]:
      if self.eqv(a, b, ctx.add(c, True), depth + 1, ext) and \
          self.eqv(a, b, ctx.add(c, False), depth + 1, ext):
        return True
      if self.budget < 0:
        return False
    return False

  def euclid(self, a, b, ctx, depth, ext):
    """Every e is m*D + R with D = e div m, 0 <= R < m: a linear atom of e is eliminated."""
    if self.noeuclid > 5:
      return False
    fds = []
    seen, todo = set(), [a, b]
    while todo:
      x = todo.pop()
      if isinstance(x, tuple):
        todo.extend(x)
      elif isinstance(x, T.T) and x not in seen:
        seen.add(x)
        if x.op == 'fd' and x.sort == 'int' and x.mf == 0:
          fds.append(x)
        if x.op not in COUNTED:
          todo.extend(x.args)
    fds.sort(key=lambda x: x.serial)
    for x in fds[:6]:
      e, m = x.args
      if not T.positive(m) or any(occurs_in(y, e) or occurs_in(y, m) for y in fds if y is not x and y.serial < x.serial):
        continue
      try:
        d = T.to_poly(e)
      except Unsupported:
        continue
      for mo, c in d.items():
        if len(mo) != 1 or mo[0][1] != 1 or c != 1:
          continue
        w = mo[0][0]
        if w.op in ('c', 'bv') or w.sort != 'int' or occurs_in(w, m) or w.op == 'fd':
          continue
        rest = T.sub(e, w)
        if occurs_in(w, rest):
          continue
        # the quotient and the remainder must matter: w occurs outside x
        probe = T.fresh('q', 'int')
        if not any(occurs_in(w, T.subst(y, {x: probe})) for y in (a, b)):
          continue
        hi = T.atom_hi(w) if rest is const(0) else None
        D = T.fresh('quo', 'int', lo=0 if T.nonneg(e) else None)
        if hi is not None and isinstance(hi, T.T) and T.mod(hi, m) is const(0):
          T.FACTS[D.args[0]]['hi'] = T.fdiv(hi, m)
        R = T.fresh('rem', 'int', lo=0, hi=m)
        val = T.sub(T.add(T.mul(m, D), R), rest)

        def tr(t):
          return T.subst(T.subst(t, {x: D}), {w: val})
        c2 = Ctx({}, tuple(tr(f) for f in ctx.ge))
        for k, v in ctx.known.items():
          if k.mf == 0:
            c2 = c2.add(tr(k), v)
        self.noeuclid += 1
        try:
          return self.eqv(tr(a), tr(b), c2, depth + 1, ext)
        finally:
          self.noeuclid -= 1
    return False

  noeuclid = 0

  # ---- induction over the iterations of loops
  inductive = 0
  noind = 0

  def induction(self, a, b, ctx, depth, ext):
    """a == b for every iteration count of the recurrences occurring in them.

    The common count is generalised; differences left by the induction step are
    added as further invariants."""
    for n in loop_counts(a, b)[:3]:
      self.inductive += 1
      try:
        if self.induct(a, b, n, ctx, depth):
          return True
      finally:
        self.inductive -= 1
      if self.tick():
        return False
    return False

  def quietly(self, x, y, ctx, depth, ext):
    self.noind += 1
    try:
      return self.eqv(x, y, ctx, depth, ext)
    finally:
      self.noind -= 1

  def induct(self, a, b, n, ctx, depth):
    K = T.fresh('k', 'int', lo=0)
    m = counted(n, (a, b), lambda t: recount(t, K))
    goals = [(T.subst(a, m), T.subst(b, m))]
    proved = 0
    done = False
    for rnd in range(4):
      # base
      ok = True
      for x, y in goals[proved:]:
        m0 = counted(K, (x, y), lambda t: recount(t, const(0)))
        if m0 is None:
          return False
        m0[K] = const(0)
        if not self.eqv(T.subst(x, m0), T.subst(y, m0), ctx, depth + 3, 1):
          return False
      proved = len(goals)
      c2 = Ctx(ctx.known, ctx.ge + (T.sub(T.sub(n, const(1)), K),), ctx.subs)
      if n.op == 'first':
        c2 = c2.add(T.subst_bv(n.args[0], (K,)), False)
      for x, y in goals:
        try:
          e = T.eq(x, y)
        except Unsupported:
          continue
        if e.sort == 'bool':
          c2 = c2.add(e, True)
      fails = []
      for x, y in goals:
        m1 = counted(K, (x, y), lambda t: unfold(t, K))
        if m1 is None:
          return False
        m1[K] = T.add(K, const(1))
        x1, y1 = T.subst(x, m1), T.subst(y, m1)
        if self.eqv(x1, y1, c2, depth + 3, 1):
          continue
        if not (T.is_arith(x1) and T.is_arith(y1)):
          return False
        fails.append((x1, y1))
        if self.tick():
          return False
      if not fails:
        return True
      if rnd == 3 or len(goals) > 4:
        return False
      new = False
      for x1, y1 in fails:
        d = c2.norm(T.sub(x1, y1))
        if d.op != 'p' or len(d.args[0]) > 16 or d.mf:
          return False
        g = (d, const(0, d.sort))
        if g not in goals:
          goals.append(g)
          new = True
      if not new:
        return False
    return False

  def infeasible(self, ctx):
    """The facts of the context contradict each other."""
    r = getattr(ctx, 'inf', None)
    if r is None:
      r = False
      for c, v in ctx.known.items():
        if c.op in ('z', 'gt0', 'eqv', 'all', 'ite') and c.mf == 0:
          others = dict(ctx.known)
          del others[c]
          k = Ctx(others, tuple(f for f in ctx.ge if f not in ge_facts(c, v)), ctx_subs(others)).norm(c)
          if k is (FALSE if v else TRUE):
            r = True
            break
      ctx.inf = r
    return r

  def structural(self, a, b, ctx, depth, ext):
    op = a.op
    if op == b.op:
      if op in ('lit', 'tup') and len(a.args) == len(b.args):
        return all(self.eqv(x, y, ctx, depth, ext) for x, y in zip(a.args, b.args))
      if op == 'inst' and a.args[0] is b.args[0] and a.args[1] == b.args[1]:
        return all(self.eqv(x, y, ctx, depth, ext) for x, y in zip(a.args[2], b.args[2]))
      if op == 'fd' and a.sort == b.sort:
        if all(self.eqv(x, y, ctx, depth + 1, ext) for x, y in zip(a.args, b.args)):
          return True
      if op == 'tupof':
        return self.eqv(a.args[0], b.args[0], ctx, depth, ext)
      if op in ('map', 'sum', 'all', 'prod') and a.sort == b.sort or op in ('map', 'all'):
        if self.eqv(a.args[0], b.args[0], ctx, depth, ext):
          n = a.args[0]
          i = T.fresh_index(n)
          c2 = Ctx(ctx.known, ctx.ge + (T.sub(T.sub(n, const(1)), i),), ctx.subs)
          if self.eqv(T.subst_bv(a.args[1], (i,)), T.subst_bv(b.args[1], (i,)), c2, depth, ext):
            return True
      if op == 'cat' and len(a.args) == len(b.args):
        if all(self.eqv(x, y, ctx, depth + 2, ext) for x, y in zip(a.args, b.args)):
          return True
      if op == 'mu' and len(a.args[1]) == len(b.args[1]) and a.args[3] == b.args[3]:
        if self.eqv(a.args[0], b.args[0], ctx, depth, ext) and \
            all(self.eqv(x, y, ctx, depth, ext) for x, y in zip(a.args[1], b.args[1])):
          i = T.fresh_index(a.args[0])
          ss = tuple(T.fresh('phi', y.sort) for y in a.args[1])
          c2 = Ctx(ctx.known, ctx.ge + (T.sub(T.sub(a.args[0], const(1)), i),), ctx.subs)
          if all(self.eqv(T.subst_bv(x, ss + (i,)), T.subst_bv(y, ss + (i,)), c2, depth + 1, ext)
                 for x, y in zip(a.args[2], b.args[2])):
            return True
      if op == 'fn' and a.args[0] == b.args[0] and len(a.args[1]) == len(b.args[1]):
        if all(self.arg(x, y, ctx, depth + 1, ext) for x, y in zip(a.args[1], b.args[1])):
          return True
      if op in ('at', 'tobytes', 'bcat', 'bjoin', 'len', 'dset', 'dget', 'upd', 'dhas') and len(a.args) == len(b.args):
        if all(self.arg(x, y, ctx, depth + 1, ext) for x, y in zip(a.args, b.args)):
          return True
      if op == 'z' or op == 'gt0':
        pass
    if T.is_arith(a) and T.is_arith(b) and (op == 'p' or b.op == 'p'):
      c2 = self.gcd_facts(a, b, ctx)
      if c2 is not None:
        return self.eqv(a, b, c2, depth + 1, ext)
      if self.atoms(a, b, ctx, depth, ext):
        return True
    if T.is_seq(a) and T.is_seq(b) and ext < 2 and (op != 'sym' or b.op != 'sym') and depth < self.MAXDEPTH - 2:
      try:
        la, lb = T.length(a), T.length(b)
      except Unsupported:
        return False
      if self.eqv(la, lb, ctx, depth + 1, ext):
        if ctx.norm(la) is const(0):
          return True
        i = T.fresh_index(la)
        c2 = Ctx(ctx.known, ctx.ge + (T.sub(T.sub(la, const(1)), i), T.sub(T.sub(lb, const(1)), i)), ctx.subs)
        saved = T.get_ge()
        T.set_ge(c2.ge)
        try:
          x, y = T.at(a, i), T.at(b, i)
        finally:
          T.set_ge(saved)
        if x.op == 'at' and x.args[0] is a and y.op == 'at' and y.args[0] is b:
          return False
        return self.eqv(x, y, c2, depth + 1, ext + 1)
    return False

  def gcd_facts(self, a, b, ctx):
    """A*(B div g) = B*(A div g) where g = gcd(A, B): not yet used equations."""
    fds = {}
    seen, todo = set(), [a, b]
    while todo:
      x = todo.pop()
      if isinstance(x, tuple):
        todo.extend(x)
      elif isinstance(x, T.T) and x not in seen:
        seen.add(x)
        if x.op == 'fd' and x.mf == 0 and x.args[1].op == 'fn' and x.args[1].args[0] == 'gcd':
          fds.setdefault(x.args[1], set()).add(x)
        todo.extend(x.args)
    new = None
    for g, s in fds.items():
      A, B = g.args[1]
      fa, fb = T.fdiv(A, g), T.fdiv(B, g)
      eq = T.is_zero(T.sub(T.mul(A, fb), T.mul(B, fa)))
      if eq.op == 'z' and eq not in ctx.known:
        new = (new or ctx).add(eq, True)
    return new

  def arg(self, x, y, ctx, depth, ext):
    if x is y:
      return True
    if isinstance(x, T.T) and isinstance(y, T.T):
      return self.eqv(x, y, ctx, depth, ext)
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
      return all(self.arg(p, q, ctx, depth, ext) for p, q in zip(x, y))
    return x == y

  def atoms(self, a, b, ctx, depth, ext):
    """Equality of arithmetic terms up to equal atoms."""
    if depth > 5:
      return False
    try:
      d = T.to_poly(T.sub(a, b))
    except Unsupported:
      return False
    ats = []
    for m in d:
      for x, e in m:
        if x.op not in ('sym', 'c', 'bv') and x not in ats:
          ats.append(x)
    if len(ats) > 12:
      return False
    for i, x in enumerate(ats):
      for y in ats[i + 1:]:
        if x.op == y.op and x.sort == y.sort and self.quietly(x, y, ctx, depth + 2, ext):
          saved = T.get_ge()
          T.set_ge(ctx.ge)
          try:
            a2, b2 = T.subst(a, {x: y}), T.subst(b, {x: y})
          finally:
            T.set_ge(saved)
          return self.eqv(a2, b2, ctx, depth + 1, ext)
    return False


COUNTED = ('mu', 'sum', 'prod', 'all', 'map')


def surface_gate(t):
  """Whether a choice with a closed condition occurs in t outside recurrences."""
  seen, todo = set(), [t]
  while todo:
    x = todo.pop()
    if isinstance(x, tuple):
      todo.extend(x)
    elif isinstance(x, T.T) and x not in seen:
      seen.add(x)
      if x.op == 'ite' and x.args[0].mf == 0:
        return True
      if x.op in ('mu', 'sum', 'prod', 'first', 'least', 'map', 'all', 'muw', 'flat'):
        continue
      todo.extend(x.args)
  return False


def loop_counts(a, b):
  """Symbolic iteration counts of closed recurrences in a or b."""
  out = []
  seen, todo = set(), [a, b]
  while todo:
    x = todo.pop(0)
    if isinstance(x, tuple):
      todo.extend(x)
    elif isinstance(x, T.T) and x not in seen:
      seen.add(x)
      if x.op == 'mu' and x.mf == 0 and x.args[0].op in ('sym', 'first', 'least', 'len', 'p', 'fd', 'max0', 'blen', 'ite') \
          and x.args[0] not in out:
        out.append(x.args[0])
      todo.extend(x.args)
  if not out:
    for x in seen:
      if x.op in ('sum', 'prod') and x.mf == 0 and x.args[0].op in ('sym', 'len', 'max0') and x.args[0] not in out:
        out.append(x.args[0])
  return out


def counted(n, ts, f):
  """{closed term with iteration count n: f(term)} for the terms occurring in ts."""
  m = {}
  seen, todo = set(), list(ts)
  while todo:
    x = todo.pop()
    if isinstance(x, tuple):
      todo.extend(x)
    elif isinstance(x, T.T) and x not in seen:
      seen.add(x)
      if x.op in COUNTED and x.args[0] is n and x.mf == 0:
        r = f(x)
        if r is None:
          return None
        m[x] = r
      todo.extend(x.args)
  return m


def recount(t, k):
  return T.rebuild(t, (k,) + t.args[1:])


def unfold(t, K):
  """The value at K + 1 of a term counted by K, in terms of its value at K."""
  if any(T.occurs(x, lambda y: y is K) for x in t.args[1:]):
    return None
  if t.op == 'mu':
    n, inits, nexts, j = t.args
    cur = tuple(mu_component(K, inits, nexts, i) for i in range(len(inits)))
    return T.subst_bv(nexts[j], cur + (K,))
  x = T.subst_bv(t.args[1], (K,))
  if t.op == 'sum':
    return T.add(t, T.cast(x, t.sort))
  if t.op == 'prod':
    return T.mul(t, T.cast(x, t.sort))
  if t.op == 'all':
    return T.band(t, x)
  return T.cat([t, T.lit([x])])


def ctx_subs(known):
  out = []
  for c, v in known.items():
    if v:
      s = solve(c)
      if s is not None:
        out.append(s)
  return tuple(out)
