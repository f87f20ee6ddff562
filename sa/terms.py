"""Hash-consed value-graph terms and their algebraic normal form.

A term denotes the value of a program expression as a function of the program's
inputs.  Arithmetic is kept as a multivariate polynomial over atoms, joins are
gated choices (`ite`), sequences are concatenations of literal blocks, maps over
an index and symbolic inputs, and loops are closed forms (map, sum, product,
universal quantification, least index) or, when no closed form is known, the
recurrence itself (`mu`).  Binders use de Bruijn indices, so structural equality
is equality up to renaming.
"""
import math
import time


class Unsupported(Exception):
  """The analysis does not model this construct: the obligation is undecided."""


class TooBig(Unsupported):
  pass


class T(object):
  __slots__ = ('op', 'args', 'sort', 'serial', 'mf', 'size', '__weakref__')

  def __repr__(self):
    return show(self)


_table = {}
_serial = [0]
LIMIT = [None]    # wall-clock time after which normalisation gives up
_ticks = [0]


def tick():
  _ticks[0] += 1
  if not _ticks[0] & 255 and LIMIT[0] is not None and time.time() > LIMIT[0]:
    raise TooBig('time limit')


def _mf(x):
  if isinstance(x, T):
    return x.mf
  if isinstance(x, tuple):
    m = 0
    for y in x:
      k = _mf(y)
      if k > m:
        m = k
    return m
  return 0


def _size(x):
  if isinstance(x, T):
    return x.size
  if isinstance(x, tuple):
    return sum(_size(y) for y in x)
  return 0


# number of variables each binder op binds in each argument position
def binders(op, args):
  """Returns a tuple: how many variables are bound in each argument."""
  if op in ('map', 'sum', 'prod', 'all', 'filt'):
    return (0, 1)
  if op == 'flat':
    return (0, 1)
  if op == 'least':
    return (0, 1)
  if op == 'first':
    return (1,)
  if op == 'mu':      # n, inits, nexts, j   : nexts bind k states + index
    k = len(args[1])
    return (0, 0, k + 1, 0)
  if op == 'muw':     # cond, inits, nexts, j
    k = len(args[1])
    return (k + 1, 0, k + 1, 0)
  if op == 'app':     # name, nparams, body, actuals
    return (0, 0, args[1], 0)
  if op == 'lam':     # n, body
    return (0, args[0])
  return (0,) * len(args)


def mk(op, args=(), sort='any'):
  key = (op, args, sort)
  t = _table.get(key)
  if t is not None:
    return t
  tick()
  t = T()
  t.op, t.args, t.sort = op, args, sort
  bs = binders(op, args)
  m = 0
  for a, b in zip(args, bs):
    k = _mf(a) - b
    if k > m:
      m = k
  if op == 'bv':
    m = args[0] + 1
  t.mf = m
  t.size = 1 + sum(_size(a) for a in args)
  if t.size > 4000000:
    raise TooBig('term too large')
  _serial[0] += 1
  t.serial = _serial[0]
  _table[key] = t
  if CUR[0] is not None:
    ORIGIN[t] = CUR[0]
  return t


CUR = [None]      # source location being abstracted
ORIGIN = {}       # term -> location that first built it
_GE = [()]        # integer terms known to be >= 0 on the current path


def set_ge(ge):
  _GE[0] = ge


def get_ge():
  return _GE[0]


def reset():
  """Forgets every term except the constants True, False, None, NotImplemented."""
  _table.clear()
  for d in (_RN, _NN, _unb, ELEM_FACTS, FACTS, ORIGIN, SEQ_LEN, BYTES_LEN, ELEM_LEN, DEGREE_LT, PYCLASSES, ROOTS, _FIRST_BOUND):
    d.clear()
  _GE[0] = ()
  for t in (TRUE, FALSE, NONE, NOTIMPL):
    _table[(t.op, t.args, t.sort)] = t


# symbol name -> {'lo': int or T, 'hi': exclusive upper bound T or None,
#                 'nz': known nonzero}
FACTS = {}
ROOTS = {}          # symbols that are roots of unity -> their (2-power) order
SEQ_LEN = {}   # symbolic sequence name -> its length (term)
BYTES_LEN = {}
ELEM_LEN = {}
DEGREE_LT = set()   # (atom, modulus): degree(atom) < degree(modulus)


def sym(name, sort='int', lo=None, hi=None, nz=False):
  if lo is not None or hi is not None or nz:
    FACTS[name] = {'lo': lo, 'hi': hi, 'nz': nz}
  return mk('sym', (name,), sort)


def bv(i, sort='int'):
  return mk('bv', (i,), sort)


def const(v, sort=None):
  if isinstance(v, bool):
    return TRUE if v else FALSE
  if isinstance(v, int):
    return mk('c', ('int', v), sort or 'int')
  if v is None:
    return NONE
  if isinstance(v, str):
    return mk('c', ('str', v), 'str')
  if isinstance(v, bytes):
    return mk('c', ('bytes', v), 'bytes')
  if isinstance(v, float):
    return mk('c', ('float', v), 'float')
  if v is Ellipsis:
    return mk('c', ('ellipsis', None), 'any')
  raise Unsupported('constant %r' % (v,))


TRUE = mk('c', ('bool', True), 'bool')
FALSE = mk('c', ('bool', False), 'bool')
NONE = mk('c', ('none', None), 'none')
NOTIMPL = mk('c', ('notimpl', None), 'notimpl')


def is_const(t):
  return isinstance(t, T) and t.op == 'c'


def cval(t):
  return t.args[1]


def is_int_const(t):
  return isinstance(t, T) and t.op == 'c' and t.args[0] in ('int', 'bool')


# ----------------------------------------------------------------------
# arithmetic normal form

ARITH = {'bool': 0, 'int': 1, 'ring': 2, 'poly': 3}
MAXMONO = 6000


def is_arith(t):
  return isinstance(t, T) and t.sort in ARITH


def join_sort(a, b):
  if a not in ARITH or b not in ARITH:
    raise Unsupported('arithmetic on %s and %s' % (a, b))
  s = a if ARITH[a] >= ARITH[b] else b
  return 'int' if s == 'bool' else s


def to_poly(t):
  """dict: monomial -> integer coefficient"""
  if t.op == 'c':
    v = t.args[1]
    if t.args[0] not in ('int', 'bool'):
      raise Unsupported('arithmetic on constant %r' % (v,))
    v = int(v)
    return {(): v} if v else {}
  if t.op == 'p':
    return dict(t.args[0])
  return {((t, 1),): 1}


def _inverse_of(a):
  """k for the atom k^(p-2) mod p, with k a power of two and p the (odd) characteristic"""
  if a.op != 'fn' or a.args[0] != 'powmod':
    return None
  k, e, q = a.args[1]
  if k.op == 'c' and q.op == 'sym' and q.args[0] == 'p' and sub(q, e) is const(2):
    v = cval(k)
    if v > 0 and v & (v - 1) == 0:
      return v
  return None


def _fold_roots(d, sort):
  """w^(n/2) = -1 for a root of unity of order n, a power of two."""
  out = {}
  for m, c in d.items():
    if sort == 'ring' and any(a.op == 'fn' for a, _ in m):
      m2 = ()
      for a, e in m:
        k = _inverse_of(a)
        if k is None:
          m2 = mono_mul(m2, ((a, e),))
        elif k > 1:
          e = -e if isinstance(e, int) else neg(e)
          while k > 1:
            m2 = mono_mul(m2, ((const(2, 'ring'), e),))
            k //= 2
      m = m2
    mm = []
    for a, e in m:
      n = ROOTS.get(a.args[0]) if a.op == 'sym' else None
      if n is not None and isinstance(e, int):
        e %= n
        if e >= n // 2:
          e -= n // 2
          c = -c
        if not e:
          continue
      elif a.op == 'c' and a.sort == 'ring' and isinstance(e, int) and e < 0 and c % cval(a) == 0:
        # the characteristic is odd
        v = cval(a)
        while e < 0 and v & (v - 1) == 0 and c % v == 0:
          c //= v
          e += 1
        if not e:
          continue
      mm.append((a, e))
    mm = tuple(mm)
    v = out.get(mm, 0) + c
    if v:
      out[mm] = v
    else:
      out.pop(mm, None)
  return out


def from_poly(d, sort):
  if ROOTS:
    d = _fold_roots(d, sort)
  d = {m: c for m, c in d.items() if c}
  if not d:
    return const(0, sort)
  if len(d) == 1:
    (m, c), = d.items()
    if not m:
      return const(c, sort)
    if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].sort == sort:
      return m[0][0]
  if len(d) > MAXMONO:
    raise TooBig('polynomial with %d monomials' % len(d))
  items = tuple(sorted(d.items(), key=_mono_key))
  return mk('p', (items,), sort)


def _exp_key(e):
  return (0, e) if isinstance(e, int) else (1, e.serial)


def _mono_key(item):
  return tuple((a.serial, _exp_key(e)) for a, e in item[0])


def _exp_add(a, b):
  if isinstance(a, int) and isinstance(b, int):
    return a + b
  a = const(a) if isinstance(a, int) else a
  b = const(b) if isinstance(b, int) else b
  r = add(a, b)
  return cval(r) if r.op == 'c' else r


def mono_mul(m1, m2):
  if not m1:
    return m2
  if not m2:
    return m1
  d = {}
  for a, e in m1:
    d[a] = e
  for a, e in m2:
    if a in d:
      d[a] = _exp_add(d[a], e)
    else:
      d[a] = e
  out = [(a, e) for a, e in d.items() if not (isinstance(e, int) and e == 0)]
  out.sort(key=lambda p: p[0].serial)
  return tuple(out)


def poly_add(a, b, k=1):
  d = dict(a)
  for m, c in b.items():
    v = d.get(m, 0) + k * c
    if v:
      d[m] = v
    else:
      d.pop(m, None)
  return d


def poly_mul(a, b):
  if len(a) * len(b) > 200000:
    raise TooBig('product too large')
  d = {}
  for m1, c1 in a.items():
    for m2, c2 in b.items():
      m = mono_mul(m1, m2)
      v = d.get(m, 0) + c1 * c2
      if v:
        d[m] = v
      else:
        d.pop(m, None)
  if len(d) > MAXMONO:
    raise TooBig('product too large')
  # constants raised to symbolic powers may have collapsed to constants
  return _fold_const_powers(d)


def _fold_const_powers(d):
  need = False
  for m in d:
    for a, e in m:
      if a.op == 'c' and isinstance(e, int):
        need = True
  if not need:
    return d
  out = {}
  for m, c in d.items():
    mm = []
    for a, e in m:
      if a.op == 'c' and isinstance(e, int) and e >= 0:
        c *= cval(a)**e
      else:
        mm.append((a, e))
    mm = tuple(mm)
    v = out.get(mm, 0) + c
    if v:
      out[mm] = v
    else:
      out.pop(mm, None)
  return out


def add(a, b):
  s = join_sort(a.sort, b.sort)
  if a.op == 'c' and a.args[1] == 0 and b.sort == s:
    return b
  if b.op == 'c' and b.args[1] == 0 and a.sort == s:
    return a
  return from_poly(poly_add(to_poly(a), to_poly(b)), s)


def neg(a):
  return from_poly({m: -c for m, c in to_poly(a).items()},
                   'int' if a.sort == 'bool' else a.sort)


def sub(a, b):
  s = join_sort(a.sort, b.sort)
  return from_poly(poly_add(to_poly(a), to_poly(b), -1), s)


def mul(a, b):
  s = join_sort(a.sort, b.sort)
  return from_poly(poly_mul(to_poly(a), to_poly(b)), s)


def cast(t, sort):
  """Embeds an int (or ring) term in a larger arithmetic sort."""
  if t.sort == sort:
    return t
  if t.op == 'ite':
    return ite(t.args[0], cast(t.args[1], sort), cast(t.args[2], sort))
  return from_poly(to_poly(t), sort)


def ipow(t, n):
  """t ** n for a python int n >= 0"""
  r = const(1, 'int' if t.sort == 'bool' else t.sort)
  b = t
  while n:
    if n & 1:
      r = mul(r, b)
    n >>= 1
    if n:
      b = mul(b, b)
  return r


def power(b, e):
  if b.op == 'fn' and b.args[0] == 'indexerror':
    return b
  if not is_arith(b) or not is_arith(e) or e.sort not in ('int', 'bool'):
    raise Unsupported('power')
  sort = 'int' if b.sort == 'bool' else b.sort
  if e.op == 'c':
    n = int(cval(e))
    if n >= 0:
      d = to_poly(b)
      if len(d) <= 1:
        out = {(): 1}
        for m, c in d.items():
          mm = tuple((a, x * n if isinstance(x, int) else _as_exp(mul(x, const(n))))
                     for a, x in m)
          if n == 0:
            mm = ()
          out = {mm: c**n}
        if not d:
          out = {(): 1} if n == 0 else {}
        return from_poly(_fold_const_powers(out), sort)
      if n <= 16:
        return ipow(b, n)
      return from_poly({((b_atom(b), n),): 1}, sort)
    if sort == 'ring':
      return inv(power(b, const(-n)))
    return fn('pow', (b, e), 'any')
  if e.op == 'ite':
    return ite(e.args[0], power(b, e.args[1]), power(b, e.args[2]))
  d = to_poly(b)
  if len(d) == 1:
    (m, c), = d.items()
    mm = tuple((a, _as_exp(mul(const(x) if isinstance(x, int) else x, e)))
               for a, x in m)
    r = from_poly({mm: 1}, sort)
    if c != 1:
      base = const(c, sort)
      r = mul(r, from_poly({((base, e),): 1}, sort)) if not _split_exp(e) else \
          mul(r, _const_pow(base, e, sort))
    return r
  if not d:
    return ite(is_zero(e), const(1, sort), const(0, sort))
  return from_poly({((b_atom(b), e),): 1}, sort)


def _split_exp(e):
  return True


def _const_pow(base, e, sort):
  """base**e with the constant part of e folded when nonnegative"""
  d = to_poly(e)
  k = d.get((), 0)
  if k > 0 and cval(base) not in (0,):
    rest = from_poly({m: c for m, c in d.items() if m}, 'int')
    return from_poly({((base, rest),): cval(base)**k}, sort)
  return from_poly({((base, e),): 1}, sort)


def _as_exp(t):
  return cval(t) if t.op == 'c' else t


def b_atom(b):
  if b.op in ('p',):
    return mk('par', (b,), b.sort)
  return b


def unpar(a):
  return a.args[0] if a.op == 'par' else a


# factors of polynomials over a field ------------------------------------------

def _cleared(d, limit=3000):
  """(numerator, denominator monomial) of a sum with inverted factors, or None."""
  den = {}
  for m in d:
    for a, e in m:
      if isinstance(e, int) and e < 0 and e < den.get(a, 0):
        den[a] = e
  if not den:
    return d, ()
  up = tuple(sorted(((a, -e) for a, e in den.items()), key=lambda p: p[0].serial))
  out = {}
  for m, c in d.items():
    m = mono_mul(m, up)
    term = {(): c}
    keep = []
    for a, e in m:
      if a.op == 'par' and a in den and isinstance(e, int):
        q = to_poly(a.args[0])
        for _ in range(e):
          if len(term) * len(q) > limit:
            return None
          term = poly_mul(term, q)
      elif a.op == 'c' and a in den and isinstance(e, int):
        term = {k: v * cval(a)**e for k, v in term.items()}
      else:
        keep.append((a, e))
    term = poly_mul(term, {tuple(keep): 1})
    out = poly_add(out, term)
    if len(out) > limit:
      return None
  return out, up


def _split_atom(d, u):
  """The coefficients of d as a polynomial in u: {exponent: dict}."""
  out = {}
  for m, c in d.items():
    e = 0
    for a, x in m:
      if a is u:
        e = x
    r = tuple(p for p in m if p[0] is not u)
    out.setdefault(e, {})[r] = c
  return out


def _difference_factor(d, limit=400):
  """(factor, quotient) with factor = u - v for atoms or units u, v; or None."""
  if len(d) > limit or len(d) < 2:
    return None
  deg = {}
  for m in d:
    for a, e in m:
      if not isinstance(e, int) or e < 0:
        deg[a] = -1
      elif deg.get(a, 0) >= 0:
        deg[a] = max(e, deg.get(a, 0))
  atoms = sorted((a for a, e in deg.items() if e > 0 and a.op != 'c'), key=lambda a: a.serial)
  if not atoms or len(atoms) > 10:
    return None
  for n, u in enumerate(atoms):
    parts = _split_atom(d, u)
    top = max(parts)
    cands = [{((v, 1),): s} for v in atoms[:n] for s in (1, -1)] + [{(): 1}, {(): -1}]
    for v in cands:
      # Horner's scheme at v
      acc, quo, ok = {}, {}, True
      for e in range(top, -1, -1):
        if e < top:
          quo[e] = acc
        acc = poly_add(poly_mul(acc, v), parts.get(e, {}))
        if len(acc) > limit:
          ok = False
          break
      if not ok or acc:
        continue
      q = {}
      for e, x in quo.items():
        q = poly_add(q, poly_mul(x, {((u, e),): 1}) if e else x)
      f = poly_add({((u, 1),): 1}, v, -1)
      if len(d) == 2 and len(q) == 1 and () in q:
        return None
      return f, q
  return None


_FACTORS = {}


def ring_factors(t):
  """[(factor, multiplicity)] of a sum over a field, a product of at least two, or None."""
  if t in _FACTORS:
    return _FACTORS[t]
  d = to_poly(t)
  r = None
  if len(d) > 1:
    out = []
    g = 0
    for c in d.values():
      g = math.gcd(g, c)
    common = None
    for m in d:
      mm = {a: e for a, e in m if isinstance(e, int) and e > 0}
      common = mm if common is None else {a: min(e, mm[a]) for a, e in common.items() if a in mm}
    if g > 1 or common:
      dm = tuple(sorted(common.items(), key=lambda p: p[0].serial))
      up = tuple((a, -e) for a, e in dm)
      d = {mono_mul(m, up): c // g for m, c in d.items()}
      if g > 1:
        out.append(({(): g}, 1))
      out.extend(({((a, 1),): 1}, e) for a, e in dm)
    while True:
      f = _difference_factor(d)
      if f is None:
        break
      if out and out[-1][0] == f[0]:
        out[-1] = (f[0], out[-1][1] + 1)
      else:
        out.append((f[0], 1))
      d = f[1]
    if out:
      if len(d) > 1 or d.get((), 0) != 1:
        out.append((d, 1))
      if len(out) > 1 or out[0][1] > 1:
        r = out
  _FACTORS[t] = r
  return r


def inv(t):
  """Multiplicative inverse in a field (t is assumed nonzero)."""
  if t.sort == 'ring' or t.sort in ('int', 'bool'):
    if t.sort != 'ring':
      t = cast(t, 'ring')
    if t.op == 'ite':
      return ite(t.args[0], inv(t.args[1]), inv(t.args[2]))
    d = to_poly(t)
    if not d:
      return fn('inv', (t,), 'ring')
    if len(d) == 1:
      (m, c), = d.items()
      mm = tuple((a, -e if isinstance(e, int) else _as_exp(neg(e))) for a, e in m)
      if c in (1, -1):
        return from_poly({mm: c}, 'ring')
      k = const(c, 'ring')
      mm = mono_mul(mm, ((k, -1),))
      return from_poly({mm: 1}, 'ring')
    fs = ring_factors(t)
    if fs is not None:
      r = const(1, 'ring')
      for f, k in fs:
        r = mul(r, ipow(inv(from_poly(f, 'ring')), k))
      return r
    lead = min(d.items(), key=_mono_key)[1]
    if lead < 0:
      return neg(inv(neg(t)))
    return from_poly({((b_atom(t), -1),): 1}, 'ring')
  raise Unsupported('inverse of %s' % (t.sort,))


def _mono_div(m, dm):
  """m / dm if divisible else None"""
  d = dict(m)
  for a, e in dm:
    if a not in d:
      return None
    x = d[a]
    diff = _exp_add(x, -e if isinstance(e, int) else neg(e))
    if isinstance(diff, int):
      if diff < 0:
        return None
    else:
      if not nonneg(diff):
        return None
    if isinstance(diff, int) and diff == 0:
      del d[a]
    else:
      d[a] = diff
  out = sorted(d.items(), key=lambda p: p[0].serial)
  return tuple(out)


def fdiv(e, m):
  """Floor division; for polynomials, the quotient."""
  sort = join_sort(e.sort, m.sort)
  if e.op == 'ite':
    return ite(e.args[0], fdiv(e.args[1], m), fdiv(e.args[2], m))
  if m.op == 'ite':
    return ite(m.args[0], fdiv(e, m.args[1]), fdiv(e, m.args[2]))
  if sort == 'int':
    if m.op == 'c':
      k = int(cval(m))
      if k == 0:
        return fn('divzero', (e,), 'int')
      if e.op == 'c':
        return const(int(cval(e)) // k)
      if k == 1:
        return e
      if k < 0:
        return fdiv(neg(e), const(-k))
      out, rest = {}, {}
      for mo, c in to_poly(e).items():
        y = _split_power(mo, c, k)
        if y is not None:
          out[y[0]] = out.get(y[0], 0) + y[1]
          continue
        if any((not isinstance(x, int)) or x >= 0 for _, x in mo) or not mo:
          q, r = divmod(c, k)
          if q:
            out[mo] = q
          if r:
            rest[mo] = r
      # prefer the symmetric remainder -1 to k-1 only when it makes rest simpler
      restT = from_poly(rest, 'int')
    else:
      md = to_poly(m)
      if len(md) != 1:
        return _fd_general(e, m, sort)
      (mm, mc), = md.items()
      out, rest = {}, {}
      for mo, c in to_poly(e).items():
        q = _mono_div(mo, mm)
        if q is not None and c % mc == 0:
          out[q] = out.get(q, 0) + c // mc
        elif q is not None and abs(c) >= abs(mc) and mc > 0:
          k, r = divmod(c, mc)
          out[q] = out.get(q, 0) + k
          rest[mo] = r
        else:
          rest[mo] = c
      restT = from_poly(rest, 'int')
    outT = from_poly(out, 'int')
    if restT.op == 'c' and cval(restT) == 0:
      return outT
    if in_range(restT, m):
      return outT
    if restT.op == 'fd' and nonneg(m):
      return add(outT, fdiv(restT.args[0], mul(restT.args[1], m)))
    if m.op == 'c' and len(rest) <= 2:
      # c0 + c1*b with b one of 0 and 1
      vs = [mo for mo in rest if mo]
      if len(vs) == 1 and len(vs[0]) == 1 and vs[0][0][1] == 1 and all(isinstance(c, int) for c in rest.values()):
        b = vs[0][0][0]
        if b.op != 'fd' and in_range(b, const(2)):
          c0 = rest.get((), 0)
          lo, hi = c0 // k, (c0 + rest[vs[0]]) // k
          return add(outT, add(const(lo), mul(const(hi - lo), b)))
    return add(outT, mk('fd', (restT, m), 'int'))
  if sort == 'poly':
    return _fd_general(e, m, sort)
  raise Unsupported('floor division of %s' % sort)


def xcoeffs(t, limit=40):
  """The coefficients (ring terms) of an explicit polynomial in X, or None."""
  if t.sort != 'poly':
    return [cast(t, 'ring')] if t.sort in ARITH else None
  if t.op == 'ite':
    return None
  out = {}
  for mo, c in to_poly(t).items():
    k, rest = 0, []
    for a, e in mo:
      if a.sort == 'poly':
        if a.op == 'sym' and a.args[0] == 'X' and isinstance(e, int) and 0 <= e <= limit:
          k = e
          continue
        return None
      rest.append((a, e))
    d = out.setdefault(k, {})
    d[tuple(rest)] = c
  n = max(out) + 1 if out else 0
  return [from_poly(out.get(i, {}), 'ring') for i in range(n)]


def xpoly(cs):
  X = mk('sym', ('X',), 'poly')
  r = const(0, 'poly')
  for i, c in enumerate(cs):
    r = add(r, mul(cast(c, 'poly'), power(X, const(i))))
  return r


def xdiv(e, m):
  """Long division of explicit polynomials in X by one with a known nonzero leading coefficient."""
  b = xcoeffs(m)
  if not b or is_zero(b[-1]) is not FALSE:
    return None
  a = xcoeffs(e)
  if a is None:
    return None
  lead = None if b[-1].op == 'c' and cval(b[-1]) == 1 else inv(b[-1])
  q = [const(0, 'ring')] * max(0, len(a) - len(b) + 1)
  a = list(a)
  for k in range(len(a) - len(b), -1, -1):
    c = a[k + len(b) - 1]
    if lead is not None:
      c = mul(c, lead)
    q[k] = c
    for j, y in enumerate(b):
      a[k + j] = sub(a[k + j], mul(c, y))
  return xpoly(q)


def _xlead(args, pick):
  cs = xcoeffs(args[0])
  if cs is None or len(cs) > 12:
    return None
  unknown = [c for c in cs if is_zero(c) is not FALSE]
  if len(unknown) > 4 and is_zero(cs[-1]) is not FALSE:
    return None
  r = pick(cs, 0)
  for k in range(1, len(cs) + 1):
    r = ite(is_zero(cs[k - 1]), r, pick(cs, k))
  return r


def _split_power(mo, c, k):
  """(c * b**E * rest) / k when enough factors b can be split off a symbolic power."""
  if c % k == 0:
    return None
  for a, x in mo:
    if a.op == 'c' and not isinstance(x, int):
      b = int(cval(a))
      if b < 2:
        continue
      f, j = 1, 0
      while j < 64 and (c * f) % k:
        f *= b
        j += 1
      if (c * f) % k or not nonneg(sub(x, const(j))):
        continue
      rest = {y: z for y, z in mo if y is not a}
      e = _as_exp(sub(x, const(j)))
      c2 = c * f // k
      if isinstance(e, int):
        c2 *= b**e
      else:
        d = to_poly(e)
        k0 = d.get((), 0)
        if k0 > 0:
          c2 *= b**k0
          e = sub(e, const(k0))
        rest[a] = e
      return tuple(sorted(rest.items(), key=lambda p: p[0].serial)), c2
  return None


def _fd_general(e, m, sort):
  if sort == 'poly':
    r = xdiv(e, m)
    if r is not None:
      return r
  # pull out exact multiples of m when m is an atom; otherwise keep opaque
  if sort == 'poly':
    md = to_poly(m)
    if len(md) == 1:
      (mm, mc), = md.items()
      if mc == 1:
        out, rest = {}, {}
        for mo, c in to_poly(e).items():
          q = _mono_div(mo, mm)
          if q is not None:
            out[q] = out.get(q, 0) + c
          else:
            rest[mo] = c
        outT, restT = from_poly(out, sort), from_poly(rest, sort)
        if restT.op == 'c' and cval(restT) == 0:
          return outT
        if small_degree(restT, m):
          return outT
        # division is linear over the ground field: quotients of sums are sums
        tot = outT
        for mo, c in rest.items():
          one = from_poly({mo: 1}, sort)
          if not small_degree(one, m):
            tot = add(tot, mul(const(c, sort), mk('fd', (one, m), sort)))
        return tot
  if e is m:
    return const(1, sort)
  if sort == 'int' and e.op == 'p':
    q, r = _reduce(e, m)
    if r is const(0):
      return q
    if q is not const(0):
      if in_range(r, m):
        return q
      return add(q, mk('fd', (r, m), sort))
  return mk('fd', (cast(e, sort), cast(m, sort)), sort)


def _reduce(e, m):
  """e = q*m + r by its leading monomial (graded order), for integer polynomials."""
  md = to_poly(m)
  key = lambda mo: (sum(x if isinstance(x, int) else 10**6 for _, x in mo), [(-a.serial, x if isinstance(x, int) else 0) for a, x in mo])
  if any(not isinstance(x, int) or x < 0 for mo in md for _, x in mo):
    return const(0), e
  lead = max(md, key=key)
  lc = md[lead]
  q, cur = const(0), e
  for _ in range(40):
    hit = None
    for mo, c in to_poly(cur).items():
      if c % lc == 0:
        d = _mono_div(mo, lead)
        if d is not None and (hit is None or key(mo) > key(hit[0])):
          hit = (mo, from_poly({d: c // lc}, 'int'))
    if hit is None:
      return q, cur
    q = add(q, hit[1])
    cur = sub(cur, mul(hit[1], m))
  return const(0), e



def nonconstant(m):
  """m is a polynomial of degree at least 1."""
  return m.sort == 'poly' and nonneg(sub(fn('degree1', (m,), 'int'), const(2)))


def small_degree(e, m):
  if not nonconstant(m):
    return False
  if e.sort != 'poly':
    return True
  for mo, c in to_poly(e).items():
    if not mo:
      continue
    if all(a.sort != 'poly' for a, _ in mo):
      continue
    pol = [(a, x) for a, x in mo if a.sort == 'poly']
    if len(pol) != 1 or pol[0][1] != 1 or (pol[0][0], m) not in DEGREE_LT:
      return False
  return True


def mod(e, m):
  if m.op == 'ite':
    return ite(m.args[0], mod(e, m.args[1]), mod(e, m.args[2]))
  return sub(e, mul(m, fdiv(e, m)))


# ----------------------------------------------------------------------
# simple bounds reasoning on integers

ELEM_FACTS = {}     # sequence symbol -> facts of its (innermost) elements


def sym_facts(a):
  if a.op == 'sym':
    return FACTS.get(a.args[0], {})
  if a.op == 'at':
    b = a.args[0]
    while b.op == 'at':
      b = b.args[0]
    if b.op == 'sym':
      return ELEM_FACTS.get(b.args[0], {})
  return {}


def atom_lo(a):
  """A known lower bound (python int) of an integer atom, or None."""
  if a.sort == 'bool':
    return 0
  if a.op == 'at':
    s = const_elems(a.args[0])
    if s is not None:
      return min(s)
  if a.op in ('sym', 'at'):
    lo = sym_facts(a).get('lo')
    if isinstance(lo, int):
      return lo
    return None
  if a.op in ('len', 'least', 'first', 'max0', 'blen', 'abs'):
    return 0
  if a.op == 'c':
    return cval(a)
  if a.op == 'fd':
    if gcd_of(a.args[1], a.args[0]) and positive(a.args[0]):
      return 1
    if nonneg(a.args[0]) and nonneg(a.args[1]):
      return 0
    return None
  if a.op == 'fn' and a.args[0] == 'gcd':
    return 1 if any(positive(x) for x in a.args[1]) else 0
  if a.op == 'fn' and a.args[0] == 'degree1':
    return sym_facts(a.args[1][0]).get('deglo', -1) + 1
  if a.op == 'fn' and a.args[0] in NONNEG_FNS:
    return 0
  if a.op == 'fn' and a.args[0] in ('rand', 'prng') and len(a.args[1]) >= (3 if a.args[0] == 'rand' else 5):
    kind = cval(a.args[1][0])
    if kind == 'index':
      return 0
    if kind == 'int':
      return _lo(a.args[1][2 if a.args[0] == 'rand' else 3])
  if a.op == 'sum' and nonneg(a.args[1]):
    return 0
  if a.op == 'ite':
    l1, l2 = _lo(a.args[1]), _lo(a.args[2])
    if l1 is not None and l2 is not None:
      return min(l1, l2)
  return None


NONNEG_FNS = {'frombytes', 'degree1', 'ord', 'bitlen', 'getrandbits', 'nonneg_int'}


def _lo(t):
  if t.op == 'c':
    return int(cval(t)) if t.args[0] in ('int', 'bool') else None
  if nonneg(t):
    return 0
  return None


def const_elems(s):
  """the elements of a (shuffled) literal sequence of integer constants"""
  if s.op == 'fn' and s.args[0] == 'permute':
    s = s.args[1][0]
  if s.op == 'lit' and s.args and all(x.op == 'c' and x.sort == 'int' for x in s.args):
    return [cval(x) for x in s.args]
  return None


def atom_hi(a):
  """A known exclusive upper bound (term) of an integer atom, or None."""
  if a.sort == 'bool':
    return const(2)
  if a.op == 'at':
    s = const_elems(a.args[0])
    if s is not None:
      return const(max(s) + 1)
  if a.op in ('sym', 'at'):
    return sym_facts(a).get('hi')
  if a.op == 'fd' and gcd_of(a.args[1], a.args[0]) and nonneg(a.args[0]):
    return add(a.args[0], const(1))
  if a.op == 'first':
    m = first_bound(a)
    return None if m is None else add(m, const(1))
  if a.op == 'fn' and a.args[0] in ('rand', 'prng') and len(a.args[1]) >= (3 if a.args[0] == 'rand' else 5):
    kind = cval(a.args[1][0])
    k = 2 if a.args[0] == 'rand' else 3
    if kind == 'index':
      return a.args[1][k]
    if kind == 'int':
      return a.args[1][k + 1]
  return None


_FIRST_BOUND = {}


def first_bound(a):
  """A natural at which the body of a search is certainly true."""
  if a in _FIRST_BOUND:
    return _FIRST_BOUND[a]
  _FIRST_BOUND[a] = None
  body = a.args[0]
  todo = [body]
  out = None
  while todo and out is None:
    b = todo.pop()
    if b.op != 'ite':
      continue
    todo.extend(b.args[1:])
    c = b.args[0]
    if c.op != 'gt0':
      continue
    q = c.args[0]
    r = subst_bv(q, (const(0),))
    k = sub(subst_bv(q, (const(1),)), r)
    if k is const(1) or k is const(-1):
      if sub(q, add(shift(r, 1), mul(k, bv(0)))) is not const(0):
        continue
      m = sub(const(1), r) if k is const(1) else r
      if nonneg(m) and subst_bv(body, (m,)) is TRUE:
        out = m
  _FIRST_BOUND[a] = out
  return out


def gcd_of(g, x):
  """g is gcd(.., x, ..)"""
  return g.op == 'fn' and g.args[0] == 'gcd' and any(x is y for y in g.args[1])


def prime_residue(t):
  """t is M mod p, p prime and M a product of numbers in 1..p-1: not zero."""
  d = to_poly(t)
  for mo, c in d.items():
    if c == -1:
      for a, e in mo:
        if a.op == 'fd' and e == 1 and a.args[1].op == 'sym' and sym_facts(a.args[1]).get('prime'):
          p = a.args[1]
          m = a.args[0]
          if add(t, mul(p, a)) is not m:
            continue
          dm = to_poly(m)
          if len(dm) != 1:
            return False
          (mm, k), = dm.items()
          return k == 1 and all(isinstance(x, int) and x > 0 and positive(y) and
                                positive(sub(p, y)) for y, x in mm)
  return False


_nn_stack = []


def nonneg(t, depth=0):
  """Proves t >= 0 (integers)."""
  tick()
  if t.sort == 'bool':
    return True
  if t.sort != 'int':
    return False
  if t.op == 'c':
    return cval(t) >= 0
  if t.op == 'ite':
    return nonneg(t.args[1], depth) and nonneg(t.args[2], depth)
  if (t, depth) in _nn_stack or len(_nn_stack) > 12:
    return False
  top = not _nn_stack
  if top:
    key = (t, depth, _GE[0])
    r = _NN.get(key)
    if r is not None:
      return r
    _nn_work[0] = 0
  else:
    _nn_work[0] += 1
    if _nn_work[0] > 600:
      return False
  _nn_stack.append((t, depth))
  if top:
    try:
      r = _nonneg_ge(t, depth)
    finally:
      _nn_stack.pop()
    _NN[key] = r
    return r
  try:
    return _nonneg_ge(t, depth)
  finally:
    _nn_stack.pop()


_NN = {}
_nn_work = [0]


def _nonneg_ge(t, depth):
  if True:
    if _nonneg(t, depth):
      return True
    ge = _GE[0]
    if ge and depth <= 1:
      atoms = _lin_atoms(t)
      near = [f for f in ge if not atoms.isdisjoint(_lin_atoms(f))]
      for f in near:
        if _nonneg(sub(t, f), 3):
          return True
      if len(near) <= 10:
        for k, f in enumerate(near):
          u = sub(t, f)
          for g in near[k:]:
            if _nonneg(sub(u, g), 4):
              return True
    return False


def _lin_atoms(t):
  return {a for m in to_poly(t) for a, _ in m}


def _nonneg(t, depth):
  d = to_poly(t)
  # rewrite atoms with positive lower bound lo as lo + a'
  # and atoms with negative coefficients using their upper bound
  # first: e - m*floor(e/m) is a remainder
  for mo, c in list(d.items()):
    if len(mo) >= 1 and c < 0:
      for a, x in mo:
        if a.op == 'fd' and x == 1 and nonneg(a.args[1]):
          # t contains -m*fd(e,m): t = (e - m*fd(e,m)) + rest
          m_ = a.args[1]
          md = to_poly(m_)
          k = -c // next(iter(md.values())) if len(md) == 1 else 1
          if k >= 1 and from_poly({mo: c}, 'int') is mul(const(-k), mul(m_, a)):
            rest = sub(add(t, mul(const(k), mul(m_, a))), mul(const(k), a.args[0]))
            if nonneg(rest, depth + 1):
              return True
    elif len(mo) >= 1 and c > 0:
      for a, x in mo:
        if a.op == 'fd' and x == 1:
          # t contains m*fd(e,m): m - 1 - (e - m*fd(e,m)) is nonnegative when m > 0
          m_ = a.args[1]
          if from_poly({mo: c}, 'int') is mul(m_, a):
            rest = sub(t, sub(sub(add(m_, mul(m_, a)), const(1)), a.args[0]))
            if rest.size < t.size + 8 and nonneg(rest, depth + 1) and \
                nonneg(sub(m_, const(1)), depth + 1):
              return True
  # k - floor(e/m) >= 0 exactly when e < (k+1)*m, k + floor(e/m) >= 0 exactly when e >= -k*m
  if depth < 3:
    for mo, c in d.items():
      if len(mo) == 1 and mo[0][1] == 1 and abs(c) == 1 and mo[0][0].op == 'fd' and len(d) <= 3:
        e_, m_ = mo[0][0].args
        if e_.sort != 'int' or not positive(m_):
          continue
        if c < 0:
          rest = add(t, mo[0][0])
          y = sub(sub(mul(add(rest, const(1)), m_), const(1)), e_)
        else:
          rest = sub(t, mo[0][0])
          y = add(e_, mul(rest, m_))
        if y.size < 3 * t.size + 30 and nonneg(y, depth + 1):
          return True
  subst = {}
  res = {}
  for mo, c in d.items():
    cur = {(): c}
    for a, x in mo:
      if not isinstance(x, int):
        # symbolic power of a nonnegative base, opaque but >= 0 (>= 1 if base >= 1)
        lo = atom_lo(a)
        if lo is None or lo < 0:
          return False
        if lo >= 1 and nonneg(x):
          cur = poly_mul(cur, {(): 1, ((mk('pw', (a, x), 'int'), 1),): 1})
        else:
          cur = poly_mul(cur, {((mk('pw0', (a, x), 'int'), 1),): 1})
        continue
      if x < 0:
        return False
      lo = atom_lo(a)
      base = None
      if lo is not None and lo != 0:
        base = {(): lo, ((mk('above', (a,), 'int'), 1),): 1}
      elif lo == 0:
        base = {((a, 1),): 1}
      else:
        base = {((a, 1),): 1}
        if x % 2 == 1:
          hi = atom_hi(a)
          if hi is None:
            pass
      for _ in range(x):
        cur = poly_mul(cur, base)
    res = poly_add(res, cur)
  def okatom(a):
    if a.op in ('above', 'pw', 'pw0'):
      return True
    lo = atom_lo(a)
    return lo is not None and lo >= 0
  bad = []
  for mo, c in res.items():
    if c > 0:
      for a, x in mo:
        if x % 2 == 1 and not okatom(a):
          return False
    elif c < 0 and mo:
      bad.append((mo, c))
  if not bad:
    return res.get((), 0) >= 0
  if depth > 4:
    return False
  # eliminate an atom occurring with a negative coefficient through its upper bound
  for mo, c in bad:
    for a, x in mo:
      hi = atom_hi(a.args[0] if a.op == 'above' else a)
      if hi is None or x != 1:
        continue
      orig = a.args[0] if a.op == 'above' else a
      # orig = hi - 1 - a'
      fresh = mk('below', (orig,), 'int')
      repl = sub(sub(hi, const(1)), fresh)
      FACT_BELOW[fresh] = True
      new = subst_atom(t, orig, repl)
      if new is not t and nonneg2(new, depth + 1):
        return True
  return False


FACT_BELOW = {}


def nonneg2(t, depth):
  return nonneg(t, depth)


_old_atom_lo = atom_lo


def atom_lo(a):  # noqa: F811
  if a.op in ('below', 'above', 'pw', 'pw0'):
    return 0
  return _old_atom_lo(a)


def positive(t):
  if t.op == 'p' and prime_residue(t):
    return True
  return nonneg(sub(t, const(1)))


def in_range(t, m):
  """Proves 0 <= t < m."""
  if t.op == 'ite':
    return in_range(t.args[1], m) and in_range(t.args[2], m)
  try:
    return nonneg(t) and positive(sub(m, t))
  except Unsupported:
    return False


# ----------------------------------------------------------------------
# booleans

def truth(b):
  return TRUE if b else FALSE


def _single_gate(d):
  """const + k*gate(c, constant, constant): the gate's condition and the two alternatives"""
  vs = [m for m in d if m]
  if len(vs) != 1 or len(d) > 2 or len(vs[0]) != 1 or vs[0][0][1] != 1:
    return None
  a = vs[0][0][0]
  if a.op != 'ite' or a.sort != 'int':
    return None
  k, c = d[vs[0]], d.get((), 0)
  arm = lambda x: add(mul(const(k), x), const(c))
  return a.args[0], arm(a.args[1]), arm(a.args[2])


def decided(t, fuel=12):
  """An integer whose choices all end in constants, as a tree of choices; None for others."""
  if t.op == 'c':
    return t
  if fuel <= 0 or t.sort != 'int':
    return None
  if t.op == 'ite':
    c, x, y = t.args
    x, y = decided(_under(x, c, True), fuel - 1), decided(_under(y, c, False), fuel - 1)
    return None if x is None or y is None else ite(c, x, y)
  if t.op != 'p':
    return None
  d = to_poly(t)
  a = None
  for m in d:
    for x, e in m:
      if x.op != 'ite' or x.sort != 'int' or not isinstance(e, int):
        return None
      a = a or x
  if a is None:
    return None
  c = a.args[0]
  arms = []
  for k, val in ((1, True), (2, False)):
    r = const(0)
    for m, co in d.items():
      q = const(co)
      for x, e in m:
        x = x.args[k] if x is a else _under(x, c, val)
        q = mul(q, ipow(x, e))
      r = add(r, q)
    r = decided(r, fuel - 1)
    if r is None:
      return None
    arms.append(r)
  return ite(c, arms[0], arms[1])


def is_zero(t):
  """The proposition t == 0 for an arithmetic term."""
  if t.sort == 'bool':
    return bnot(t)
  if t.op == 'ite':
    return ite(t.args[0], is_zero(t.args[1]), is_zero(t.args[2]))
  d = to_poly(t)
  if not d:
    return TRUE
  if ROOTS and t.sort == 'ring':
    k = 0
    for c in d.values():
      k = math.gcd(k, c)
    k = k & -k
    if k > 1:       # the characteristic is odd
      return is_zero(from_poly({m: c // k for m, c in d.items()}, 'ring'))
    if len(d) == 2 and set(map(abs, d.values())) == {1}:
      m1, m2 = d
      q = dict(mono_mul(m1, tuple((a, -e if isinstance(e, int) else neg(e)) for a, e in m2)))
      if len(q) == 1:
        (a, e), = q.items()
        n = ROOTS.get(a.args[0]) if a.op == 'sym' else None
        if n is not None and isinstance(e, int) and e % (n // 2):
          if all(x.op == 'sym' and x.args[0] in ROOTS for m in d for x, _ in m):
            return FALSE
  if t.sort == 'int':
    g = _single_gate(d)
    if g is not None:
      return ite(g[0], is_zero(g[1]), is_zero(g[2]))
  if t.op == 'c':
    v = cval(t)
    if t.sort == 'int' or v in (1, -1):
      return truth(v == 0)
    return mk('z', (const(abs(v), t.sort),), 'bool')
  if t.sort == 'int' and len(d) > 2 and abs(d.get((), 0)) == 1:
    # a residue modulo 2 is 1 exactly when it is not 0
    for mo, c in d.items():
      if abs(c) == 2 and len(mo) == 1 and mo[0][0].op == 'fd' and mo[0][1] == 1:
        r = sub(const(1), t) if d[()] == 1 else add(t, const(1))
        if in_range(r, const(2)):
          return bnot(is_zero(r))
        break
  if len(d) == 1 and t.sort in ('int', 'ring', 'poly'):
    (m, c), = d.items()
    if t.sort == 'int' or c in (1, -1):
      out = FALSE
      for a, e in m:
        if isinstance(e, int) and e < 0:
          continue
        if a.op == 'c' and cval(a) != 0:
          if t.sort == 'int':
            continue
        if a.sort == 'int' and t.sort != 'int':
          pass    # a nonzero integer may vanish in the field
        elif sym_facts(a).get('nz'):
          continue
        lo = atom_lo(a) if a.sort == 'int' and t.sort == 'int' else None
        if lo is not None and lo >= 1:
          continue
        if not isinstance(e, int) or a.sort == 'int' and t.sort != 'int' and not _is_bit(a):
          out = bor(out, mk('z', (from_poly({((a, e if not isinstance(e, int) else 1),): 1}, t.sort),), 'bool'))
          continue
        if a.op == 'par':
          out = bor(out, is_zero(a.args[0]))
        elif a.op == 'ite':
          out = bor(out, is_zero(a))
        elif a.sort == 'bool':
          out = bor(out, bnot(a))
        else:
          out = bor(out, mk('z', (a,), 'bool'))
      return out
  sort = t.sort
  if sort in ('ring', 'poly') and any(isinstance(e, int) and e < 0 and a.sort != 'poly' for m in d for a, e in m):
    n = _cleared(d)
    if n is not None:
      return is_zero(from_poly(n[0], sort))
  if sort == 'ring':
    fs = ring_factors(t)
    if fs is not None:
      out = FALSE
      for f, _ in fs:
        out = bor(out, is_zero(from_poly(f, 'ring')))
      return out
  items = sorted(d.items(), key=_mono_key)
  if sort == 'int':
    g = 0
    for _, c in items:
      g = math.gcd(g, c)
    # common powers of a known nonzero atom
    common = None
    for m, _ in items:
      mm = {a: e for a, e in m if (a.op == 'c' and cval(a) > 0) or
            (atom_lo(a) or 0) >= 1}
      if common is None:
        common = mm
      else:
        common = {a: e for a, e in common.items() if a in mm and mm[a] == e}
    if common:
      dm = tuple(sorted(common.items(), key=lambda p: p[0].serial))
      items = [(_mono_div(m, dm), c) for m, c in items]
      if all(m is not None for m, _ in items):
        return is_zero(from_poly({m: c // g for m, c in items}, sort))
      items = sorted(d.items(), key=_mono_key)
    if g > 1:
      items = [(m, c // g) for m, c in items]
  if items[0][1] < 0 or (items[0][0] == () and len(items) > 1 and items[1][1] < 0):
    pass
  lead = items[-1][1]
  if lead < 0:
    items = [(m, -c) for m, c in items]
  t2 = from_poly(dict(items), sort)
  if sort == 'int':
    if positive(t2) or positive(neg(t2)):
      return FALSE
    # remainder comparisons:   mod(E, k) == c
    r = _mod_eq(t2)
    if r is not None:
      return r
  return mk('z', (t2,), 'bool')


def _find_mod2(t):
  d = to_poly(t)
  for mo, c in d.items():
    if len(mo) == 1 and mo[0][1] == 1 and mo[0][0].op == 'fd':
      a = mo[0][0]
      m = a.args[1]
      if m.op == 'c' and cval(m) == 2 and abs(c) == 2:
        return a, (1 if c < 0 else -1)
  return None


def _mod_eq(t):
  """t == 0 where t = +-(mod(E,2) - c)."""
  f = _find_mod2(t)
  if f is None:
    return None
  a, s = f
  u = t if s > 0 else neg(t)
  base = mod(a.args[0], const(2))
  r = sub(u, base)
  if r.op != 'c':
    return None
  c = -cval(r)
  if c == 0:
    return mk('z', (_signed(base),), 'bool')
  if c == 1:
    return bnot(mk('z', (_signed(base),), 'bool'))
  return FALSE


def _signed(t):
  items = sorted(to_poly(t).items(), key=_mono_key)
  if items[-1][1] < 0:
    return neg(t)
  return t


def gt0(t):
  """The proposition t > 0 for an integer term."""
  if t.sort == 'bool':
    return t
  if t.op == 'ite':
    return ite(t.args[0], gt0(t.args[1]), gt0(t.args[2]))
  if t.sort != 'int':
    return mk('fn', ('gt0', (t,)), 'bool')
  if t.op == 'c':
    return truth(cval(t) > 0)
  if positive(t):
    return TRUE
  if nonneg(neg(t)):
    return FALSE
  d = to_poly(t)
  g = _single_gate(d)
  if g is not None:
    return ite(g[0], gt0(g[1]), gt0(g[2]))
  g = 0
  for m, c in d.items():
    if m:
      g = math.gcd(g, c)
  k = d.get((), 0)
  if g > 1:
    # g*x + k > 0  <=>  x + ceil(k/g)... : g*x >= 1-k <=> x >= ceil((1-k)/g)
    need = -((k - 1) // g)
    d2 = {m: c // g for m, c in d.items() if m}
    d2[()] = 1 - need
    t = from_poly(d2, 'int')
    d = to_poly(t)
    if positive(t):
      return TRUE
    if nonneg(neg(t)):
      return FALSE
  # orient so that a proposition and its negation share an atom
  items = sorted(((m, c) for m, c in d.items() if m), key=_mono_key)
  if items[-1][1] < 0:
    # t > 0  <=>  not (1 - t > 0)
    return bnot(mk('gt0', (sub(const(1), t),), 'bool'))
  # a nonnegative atom x > 0  <=> x != 0
  f = _find_mod2(t)
  if f is not None and f[1] > 0 and sub(t, mod(f[0].args[0], const(2))) is const(0):
    return bnot(is_zero(t))
  if nonneg(t):
    return bnot(is_zero(t))
  return mk('gt0', (t,), 'bool')


def lt(a, b):
  if is_arith(a) and is_arith(b) and join_sort(a.sort, b.sort) == 'int':
    return gt0(sub(b, a))
  return fn('lt', (a, b), 'bool')


def le(a, b):
  if is_arith(a) and is_arith(b) and join_sort(a.sort, b.sort) == 'int':
    return gt0(add(sub(b, a), const(1)))
  return fn('le', (a, b), 'bool')


def bnot(a):
  if a is TRUE:
    return FALSE
  if a is FALSE:
    return TRUE
  return ite(a, FALSE, TRUE)


def band(a, b):
  return ite(a, b, FALSE)


def bor(a, b):
  return ite(a, TRUE, b)


def conj(lits):
  r = TRUE
  for l in reversed(list(lits)):
    r = ite(l, r, FALSE)
  return r


def join_value_sort(a, b):
  if a == b:
    return a
  if a in ARITH and b in ARITH:
    return a if ARITH[a] >= ARITH[b] else b
  if a in ('none', 'notimpl', 'any') or b in ('none', 'notimpl'):
    return 'any'      # the absent value is none of the other's kind: the two are told apart
  if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'seq':
    if a[1] == 'any':
      return b
    if b[1] == 'any':
      return a
    return ('seq', join_value_sort(a[1], b[1]))
  if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] and a[0] in ('dict', 'set'):
    if a[1] == 'any':
      return b
    if b[1] == 'any':
      return a
    return (a[0], join_value_sort(a[1], b[1]))
  return 'any'


def ite(c, a, b):
  if c is TRUE:
    return a
  if c is FALSE:
    return b
  if a is b:
    return a
  if c.op == 'ite':
    x, y, z = c.args
    if y is FALSE and z is TRUE:
      return ite(x, b, a)
    # normalise conjunctions/disjunctions into nested choices
    if z is FALSE:
      return ite(x, ite(y, a, b), b)
    if y is TRUE:
      return ite(x, a, ite(z, a, b))
    if z is TRUE:
      return ite(x, ite(y, a, b), a)
    if y is FALSE:
      return ite(x, b, ite(z, a, b))
  if a is TRUE and b is FALSE:
    return c
  a = _under(a, c, True)
  b = _under(b, c, False)
  if a is b:
    return a
  if a is TRUE and b is FALSE:
    return c
  if c.op == 'z' and a.op == b.op and a.sort == b.sort and a.op in ('at', 'fn', 'z', 'eqv', 'p'):
    x, k = _pinned(c.args[0])
    if x is not None and subst(b, {x: k}) is a:
      return b
  elif c.op == 'z' and a.sort == b.sort and b.op in ('map', 'slice', 'p') and (is_seq(b) or b.sort == 'int') and b.size < 300:
    x, k = _pinned(c.args[0])
    if x is not None:
      b0 = subst(b, {x: k})
      if b0 is a or (b.sort == 'int' and a.op in ('sym', 'p') and b0 is subst(a, {x: k})) or (is_seq(b) and a.op in ('sym', 'lit') and k is const(0) and b0 is lit(()) and
                     subst(length(a), {x: k}) is k):
        return b
  if c.op == 'z' and c.args[0].sort == 'ring' and c.args[0].op == 'p' and b.sort == 'ring' and a.sort in ARITH and \
      b.op == 'p' and a.op != 'ite' and _vanishes_with(c.args[0], a, b):
    return b
  if c.op == 'gt0' and a.sort == 'int' and b.sort == 'int':
    # the alternatives agree where x == 0, for c the proposition x >= 0
    x = sub(c.args[0], const(1))
    d = sub(a, b)
    if d is x or add(d, x) is const(0):
      ge = _GE[0]
      _GE[0] = ()
      try:
        c = gt0(x)
      finally:
        _GE[0] = ge
      return ite(c, a, b)
  sort = join_value_sort(a.sort, b.sort)
  if sort in ARITH and sort not in ('bool',):
    if a.sort != sort and a.sort in ARITH:
      a = cast(a, sort)
    if b.sort != sort and b.sort in ARITH:
      b = cast(b, sort)
    if a is b:
      return a
  return mk('ite', (c, a, b), sort)


def _vanishes_with(t, a, b):
  """a and b are equal where the ring element t, a multiple of one integer unknown, is zero"""
  d = to_poly(t)
  if len(d) != 1:
    return False
  (m, c), = d.items()
  if c not in (1, -1) or any(not isinstance(e, int) or e < 1 for _, e in m):
    return False
  for m2 in to_poly(sub(cast(b, 'ring'), cast(a, 'ring'))):
    q = dict(m2)
    for x, e in m:
      if not isinstance(q.get(x, 0), int) or q.get(x, 0) < e:
        return False
  return True


def _pinned(t):
  """(symbol, constant) when t == 0 gives an integer symbol a constant value."""
  if t.op == 'sym' and t.sort == 'int':
    return t, const(0)
  if t.op == 'p' and t.sort == 'int':
    d = to_poly(t)
    if len(d) == 2:
      x, k, cx = None, 0, 0
      for m, c in d.items():
        if not m:
          k = c
        elif len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'sym':
          x, cx = m[0][0], c
      if x is not None and k and abs(cx) == 1:
        return x, const(-k * cx)
  return None, None


def _under(t, c, val):
  """Prunes choices on c at the top of t."""
  while t.op == 'ite':
    if t.args[0] is c:
      t = t.args[1] if val else t.args[2]
      continue
    x, y = _under(t.args[1], c, val), _under(t.args[2], c, val)
    if x is t.args[1] and y is t.args[2]:
      return t
    return ite(t.args[0], x, y)
  return t


def is_empty_str(t):
  return t.op == 'c' and t.args == ('str', '')


PYCLASSES = set()    # numbers of the classes defined by the program


def eq(a, b):
  """The proposition a == b."""
  if a is b:
    return TRUE
  if a.op == 'ite':
    return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
  if b.op == 'ite':
    return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
  if is_arith(a) and is_arith(b):
    if a.sort == 'bool' and b.sort == 'bool':
      return ite(a, b, bnot(b))
    return is_zero(sub(a, b))
  if a.sort == 'str' and b.sort == 'str' and (is_empty_str(a) or is_empty_str(b)):
    return is_zero(length(b if is_empty_str(a) else a))
  if a.op == 'c' and b.op == 'c':
    if a.args[0] == b.args[0]:
      return truth(a.args[1] == b.args[1])
    if a.sort != b.sort and not {'int', 'bool', 'float'} >= {a.args[0], b.args[0]}:
      return FALSE
  if a.op == 'tup' and b.op == 'tup':
    if len(a.args) != len(b.args):
      return FALSE
    r = TRUE
    for x, y in zip(reversed(a.args), reversed(b.args)):
      r = band(eq(x, y), r)
    return r
  if a.op == 'inst' and b.op == 'inst':
    if a.args[0] is not b.args[0]:
      return FALSE
    r = TRUE
    for x, y in zip(reversed(a.args[2]), reversed(b.args[2])):
      r = band(eq(x, y), r)
    return r
  if a.op == 'tupof' or b.op == 'tupof':
    xa = a.args[0] if a.op == 'tupof' else lit(a.args) if a.op == 'tup' else None
    xb = b.args[0] if b.op == 'tupof' else lit(b.args) if b.op == 'tup' else None
    if xa is not None and xb is not None:
      return eq(xa, xb)
  if is_seq(a) and is_seq(b) and (a.op in ('lit', 'map', 'cat') or b.op in ('lit', 'map', 'cat')):
    la, lb = length(a), length(b)
    if la is lb and a.op == 'map' and b.op == 'map':
      return sall(la, eq(a.args[1], b.args[1]))
    if eq(la, lb) is FALSE:
      return FALSE
  if a.op == 'lit' and b.op == 'lit':
    if len(a.args) != len(b.args):
      return FALSE
    r = TRUE
    for x, y in zip(reversed(a.args), reversed(b.args)):
      r = band(eq(x, y), r)
    return r
  if a.op == 'py' and b.op == 'py' and a.args[0] in PYCLASSES and b.args[0] in PYCLASSES:
    return FALSE  # two classes of the program
  sa, sb = a.sort, b.sort
  if sa == 'bytes' and sb == 'bytes' and eq(blen(a), blen(b)) is FALSE:
    return FALSE
  if is_dict(a) and is_dict(b):
    return deq(a, b)
  if sa != sb and 'any' not in (sa, sb) and not (sa in ARITH and sb in ARITH):
    if {sa if isinstance(sa, str) else sa[0], sb if isinstance(sb, str) else sb[0]} & {'none', 'bytes', 'str'}:
      if not (isinstance(sa, tuple) and isinstance(sb, tuple)):
        return FALSE
  if a.serial > b.serial:
    a, b = b, a
  return mk('eqv', (a, b), 'bool')


def truthy(t):
  if t.sort == 'bool':
    return t
  if t.op == 'ite':
    return ite(t.args[0], truthy(t.args[1]), truthy(t.args[2]))
  if t.op == 'c':
    return truth(bool(t.args[1])) if t.args[0] not in ('notimpl', 'ellipsis') else TRUE
  if t.sort == 'int':
    return bnot(is_zero(t))
  if isinstance(t.sort, tuple) and t.sort[0] == 'seq':
    return bnot(is_zero(length(t)))
  if t.op == 'tup':
    return truth(len(t.args) > 0)
  return fn('truthy', (t,), 'bool')


# ----------------------------------------------------------------------
# uninterpreted (or externally interpreted) functions

def fn(name, args, sort='any'):
  f = FN_SIMPL.get(name)
  if f is not None:
    r = f(args, sort)
    if r is not None:
      return r
  return mk('fn', (name, tuple(args)), sort)


FN_SIMPL = {}


def _xor(args, sort):
  items = []
  cst = 0
  for a in args:
    if a.op == 'fn' and a.args[0] == 'xor':
      items.extend(a.args[1])
    else:
      items.append(a)
  cnt = {}
  for a in items:
    if a.op == 'c':
      cst ^= int(cval(a))
    else:
      cnt[a] = cnt.get(a, 0) + 1
  rest = sorted((a for a, k in cnt.items() if k % 2), key=lambda a: a.serial)
  if not rest:
    return const(cst)
  for a in rest:
    if a.op == 'ite' and a.args[1].op == 'c' and a.args[2].op == 'c':
      others = [b for b in rest if b is not a] + [const(cst)]
      arm = lambda k: fn('xor', [b.args[k] if b.op == 'ite' and b.args[0] is a.args[0] else b
                                 for b in others + [a]], 'int')
      return ite(a.args[0], arm(1), arm(2))
  if len(rest) == 1 and cst == 0:
    return rest[0]
  if len(rest) == 1 and cst == 1 and rest[0].sort in ('int', 'bool'):
    x = rest[0]
    if _is_bit(x):
      return sub(const(1), x)
    return sub(add(x, const(1)), mul(const(2), mod(x, const(2))))
  if cst in (0, 1) and len(rest) == 2 and all(_is_bit(x) for x in rest):
    x, y = rest
    e = ite(is_zero(sub(x, const(1))), sub(const(1), y), y)
    return sub(const(1), e) if cst else e
  if cst:
    rest = [const(cst)] + rest
  return mk('fn', ('xor', tuple(rest)), 'int')


def _is_bit(x):
  return x.sort == 'bool' or x.sort == 'int' and in_range(x, const(2))


FN_SIMPL['xor'] = _xor


def _gcd(args, sort):
  if len(args) != 2:
    return None
  a, b = args
  if a.op == 'c' and b.op == 'c':
    return const(math.gcd(cval(a), cval(b)))
  for x in (a, b):
    if x.op == 'c' and cval(x) == 1:
      return x
  if a.op == 'ite':
    return ite(a.args[0], fn('gcd', (a.args[1], b), 'int'), fn('gcd', (a.args[2], b), 'int'))
  if b.op == 'ite':
    return ite(b.args[0], fn('gcd', (a, b.args[1]), 'int'), fn('gcd', (a, b.args[2]), 'int'))
  if a.op == 'fd' and b.op == 'fd' and a.args[1] is b.args[1]:
    g = a.args[1]
    if gcd_of(g, a.args[0]) and gcd_of(g, b.args[0]) and positive(g):
      return const(1)
  if a.serial > b.serial:
    return mk('fn', ('gcd', (b, a)), 'int')
  return None


FN_SIMPL['gcd'] = _gcd


def pow2_exp(t):
  """If t is 2**e returns e, else None."""
  if t.op == 'c' and t.args[0] == 'int':
    v = cval(t)
    if v > 0 and v & (v - 1) == 0:
      return const(v.bit_length() - 1)
    return None
  d = to_poly(t)
  if len(d) != 1:
    return None
  (m, c), = d.items()
  if c <= 0 or c & (c - 1):
    return None
  e = const(c.bit_length() - 1)
  for a, x in m:
    if a.op == 'c' and cval(a) == 2:
      e = add(e, const(x) if isinstance(x, int) else x)
    else:
      return None
  return e


def _band_int(args, sort):
  a, b = args
  for x, y in ((a, b), (b, a)):
    if y.op == 'c':
      v = cval(y)
      if v == 0:
        return const(0)
      if v > 0 and v & (v + 1) == 0:
        return mod(x, const(v + 1))
    e = pow2_exp(y)
    if e is not None:
      return mul(y, mod(fdiv(x, y), const(2)))
  if _is_bit(a) and _is_bit(b) and a.sort == b.sort == 'int':
    if a.serial > b.serial:
      a, b = b, a
    return ite(is_zero(sub(a, const(1))), b, const(0))
  return None


FN_SIMPL['and'] = _band_int


def _or_int(args, sort):
  a, b = args
  if a.op == 'c' and cval(a) == 0:
    return b
  if b.op == 'c' and cval(b) == 0:
    return a
  if a is b:
    return a
  if _is_bit(a) and _is_bit(b) and a.sort == b.sort == 'int':
    if a.serial > b.serial:
      a, b = b, a
    return ite(is_zero(sub(a, const(1))), const(1), b)
  if a.serial > b.serial:
    return mk('fn', ('or', (b, a)), sort)
  return None


FN_SIMPL['or'] = _or_int


def _max0(args, sort):
  t, = args
  if nonneg(t):
    return t
  if nonneg(neg(t)):
    return const(0)
  return mk('max0', (t,), 'int')


def max0(t):
  return _max0((t,), 'int')


def minmax(kind, a, b):
  if a is b:
    return a
  if nonneg(sub(b, a)):
    return a if kind == 'min' else b
  if nonneg(sub(a, b)):
    return b if kind == 'min' else a
  c = lt(a, b)
  return ite(c, a, b) if kind == 'min' else ite(c, b, a)


# ----------------------------------------------------------------------
# sequences

def seq_sort(elem):
  return ('seq', elem)


def elem_sort(t):
  s = t.sort
  if isinstance(s, tuple) and s[0] == 'seq':
    return s[1]
  if s == 'bytes':
    return 'int'
  return 'any'


def lit(elems):
  elems = tuple(elems)
  s = 'any'
  if elems:
    s = elems[0].sort
    for e in elems[1:]:
      s = join_value_sort(s, e.sort)
  return mk('lit', elems, ('seq', s))


def is_seq(t):
  return isinstance(t, T) and isinstance(t.sort, tuple) and t.sort[0] == 'seq'


def smap(n, body):
  """[body(i) for i < n]; body has de Bruijn 0 free."""
  if n.op == 'ite':
    return ite(n.args[0], smap(n.args[1], body), smap(n.args[2], body))
  if n.op == 'c':
    k = int(cval(n))
    if k <= 0:
      return lit(())
    if k <= 64:
      return lit([subst_bv(body, (const(j),)) for j in range(k)])
  # eta: map(len s, s[i]) == s
  if body.op == 'at' and body.args[1] is bv(0):
    s = body.args[0]
    if s.mf == 0 or not uses_bv(s, 0):
      s2 = shift(s, -1)
      if length(s2) is n:
        return s2
  return mk('map', (n, body), ('seq', body.sort))


def cat(parts):
  out = []
  for p in parts:
    if p.op == 'cat':
      out.extend(p.args)
    elif p.op == 'lit' and not p.args:
      continue
    else:
      out.append(p)
  merged = []
  for p in out:
    if merged and p.op == 'lit' and merged[-1].op == 'lit':
      merged[-1] = lit(merged[-1].args + p.args)
      continue
    if merged and p.op == 'map' and merged[-1].op == 'map':
      q = merged[-1]
      # [f(i) for i<n] + [f(n+i) for i<m] == [f(i) for i<n+m]
      if shiftbody(q.args[1], q.args[0]) is p.args[1]:
        merged[-1] = smap(add(q.args[0], p.args[0]), q.args[1])
        continue
    if merged and p.op == 'lit' and merged[-1].op == 'map':
      q = merged[-1]
      k = 0
      n = q.args[0]
      while k < len(p.args) and subst_bv(q.args[1], (n,)) is p.args[k]:
        n = add(n, const(1))
        k += 1
      if k:
        merged[-1] = smap(n, q.args[1])
        if k < len(p.args):
          merged.append(lit(p.args[k:]))
        continue
    if merged and p.op == 'map' and merged[-1].op == 'lit':
      q = merged[-1]
      body, n = p.args
      body, n = p.args[1], p.args[0]
      k = 0
      b = body
      while k < len(q.args):
        b2 = shiftbody(b, const(-1))
        if subst_bv(b2, (const(0),)) is q.args[len(q.args) - 1 - k]:
          b = b2
          k += 1
        else:
          break
      if k:
        rest = q.args[:len(q.args) - k]
        merged.pop()
        if rest:
          merged.append(lit(rest))
        merged.append(smap(add(n, const(k)), b))
        continue
    merged.append(p)
  if not merged:
    return lit(())
  if len(merged) == 1:
    return merged[0]
  s = merged[0].sort
  for p in merged[1:]:
    s = join_value_sort(s, p.sort)
  return mk('cat', tuple(merged), s if isinstance(s, tuple) else ('seq', 'any'))


def shiftbody(body, n):
  """body with its bound index replaced by index + n"""
  return subst_under(body, add(bv(0), shift(n, 1)))


def subst_under(body, repl):
  """Replaces bv 0 of body by repl, which may itself mention bv 0."""
  return _subst(body, 0, (repl,), keep=1)


def length(t):
  if t.op == 'lit':
    return const(len(t.args))
  if t.op == 'map':
    return t.args[0]
  if t.op == 'cat':
    r = const(0)
    for p in t.args:
      r = add(r, length(p))
    return r
  if t.op == 'ite':
    return ite(t.args[0], length(t.args[1]), length(t.args[2]))
  if t.op == 'tup':
    return const(len(t.args))
  if t.op == 'upd':
    return length(t.args[0])
  if t.op == 'scat':
    return length(t.args[0])
  if t.op == 'c' and t.args[0] in ('bytes', 'str'):
    return const(len(t.args[1]))
  if t.sort == 'bytes':
    return blen(t)
  if t.op == 'fn' and t.args[0] == 'permute':
    return length(t.args[1][0])
  if t.op == 'fn' and t.args[0] == 'coeffs':
    return fn('degree1', t.args[1], 'int')
  if t.op == 'fn' and t.args[0] == 'bits':
    return t.args[1][1]
  if t.op in ('mu', 'muw'):
    # a state whose update preserves length
    k = t.args[3]
    init = t.args[1][k]
    if is_seq(init):
      try:
        nxt = t.args[2][k]
        ok = _len_preserving(nxt, k)
      except Unsupported:
        ok = False
      if ok:
        return length(init)
  if t.op == 'sym' and t.args[0] in SEQ_LEN:
    return SEQ_LEN[t.args[0]]
  k = _round_length(t)
  if k is not None:
    return mul(max0(t.args[0]), k)
  return mk('len', (t,), 'int')


def _round_length(t):
  """The length of every round of a flattened sequence, when it is the same for all."""
  if t.op == 'flat':
    k = length(t.args[1])
    if not uses_bv(k, 0) and k.op != 'len':
      return shift(k, -1)
  return None


def _len_preserving(t, k):
  if t.op == 'bv':
    return t.args[0] == k
  if t.op == 'upd':
    return _len_preserving(t.args[0], k)
  if t.op == 'ite':
    return _len_preserving(t.args[1], k) and _len_preserving(t.args[2], k)
  return False


def at(t, i):
  if t.op == 'fn' and t.args[0] == 'coeffs' and add(i, const(1)) is fn('degree1', t.args[1], 'int'):
    return fn('leadcoeff', t.args[1], 'ring')
  if t.op == 'ite':
    return ite(t.args[0], at(t.args[1], i), at(t.args[2], i))
  if i.op == 'ite':
    return ite(i.args[0], at(t, i.args[1]), at(t, i.args[2]))
  if i.op == 'c' and cval(i) < 0:
    i = add(length(t), i)
  if t.op == 'c' and t.args[0] == 'str' and i.op == 'c':
    k = int(cval(i))
    if 0 <= k < len(t.args[1]):
      return const(t.args[1][k])
  if t.op in ('lit', 'tup'):
    if i.op == 'c':
      k = int(cval(i))
      if 0 <= k < len(t.args):
        return t.args[k]
      return mk('fn', ('indexerror', (t, i)), elem_sort(t) if t.op == 'lit' else 'any')
    if len(t.args) == 1:
      return t.args[0]
    return mk('at', (t, i), elem_sort(t) if t.op == 'lit' else 'any')
  if t.op == 'map':
    return subst_bv(t.args[1], (i,))
  if t.op == 'cat':
    p0 = t.args[0]
    rest = cat(t.args[1:])
    n0 = length(p0)
    if nonneg(sub(i, n0)):
      return at(rest, sub(i, n0))
    if positive(sub(n0, i)):
      return at(p0, i)
    # try from the end
    last = t.args[-1]
    init = cat(t.args[:-1])
    nl = sub(length(t), length(last))
    if nonneg(sub(i, nl)):
      return at(last, sub(i, nl))
    return ite(lt(i, n0), at(p0, i), at(rest, sub(i, n0)))
  if t.op == 'upd':
    base, j, v = t.args
    d = sub(i, j)
    z = is_zero(d)
    return ite(z, v, at(base, i))
  if t.op == 'flat' and i.sort == 'int':
    k = _round_length(t)
    if k is not None and positive(k):
      return at(subst_bv(t.args[1], (fdiv(i, k),)), mod(i, k))
  if t.op == 'mu' and i.sort == 'int':
    r = _written_once(t, i)
    if r is not None:
      return r
  return mk('at', (t, i), elem_sort(t))


def _written_once(t, i):
  """Element i of a list updated at a different index in every iteration.

  Iteration k writes index c + k or c - k, so index i is written in at most one
  iteration k0; an element that is not written in iteration k0 or later already
  has its final value there."""
  n, inits, nexts, j = t.args
  ns = len(inits)
  nx = nexts[j]
  if nx.op != 'upd' or nx.args[0].op != 'bv' or nx.args[0].args[0] != j:
    return None
  idx, val = nx.args[1], nx.args[2]
  # the index must depend on the iteration only
  if idx.sort != 'int' or any(uses_bv(idx, k) for k in range(ns)):
    return None
  k = sym('k!w', 'int')
  ix = subst_bv(idx, tuple(sym('s!w%d' % q, x.sort) for q, x in enumerate(inits)) + (k,))
  c = sub(ix, k)
  if not mentions(c, {k}):
    step = lambda r: sub(r, c)
  else:
    c = add(ix, k)
    if mentions(c, {k}):
      return None
    step = lambda r: sub(c, r)
  k0 = step(i)
  if nonneg(sub(k0, n)) or positive(neg(k0)):
    return at(inits[j], i)
  if not (nonneg(k0) and positive(sub(n, k0))):
    return None
  # the reads of val
  ss = tuple(mu(k0, inits, nexts, q) if q != j else None for q in range(ns))
  S = sym('s!w', inits[j].sort)
  v = subst_bv(val, tuple(S if q == j else ss[q] for q in range(ns)) + (k0,))
  reads = {}
  todo, seen = [v], set()
  while todo:
    x = todo.pop()
    if isinstance(x, tuple):
      todo.extend(x)
    elif isinstance(x, T) and x not in seen:
      seen.add(x)
      if x.op == 'at' and x.args[0] is S and x.mf == 0:
        reads[x] = x.args[1]
        todo.append(x.args[1])
      elif x is S:
        return None
      else:
        todo.extend(x.args)
  m = {}
  for x, r in reads.items():
    kr = step(r)
    if not (positive(sub(k0, kr)) or nonneg(sub(kr, n))):
      return None
    m[x] = mk('at', (t, r), elem_sort(t))
  return subst(v, m)


def upd(t, i, v):
  if t.op == 'ite':
    return ite(t.args[0], upd(t.args[1], i, v), upd(t.args[2], i, v))
  if i.op == 'c' and cval(i) < 0:
    i = add(length(t), i)
  if t.op == 'lit' and i.op == 'c':
    k = int(cval(i))
    if 0 <= k < len(t.args):
      e = list(t.args)
      e[k] = v
      return lit(e)
  if t.op == 'cat' and i.op == 'c':
    off = 0
    parts = list(t.args)
    for k, p in enumerate(parts):
      if p.op != 'lit':
        break
      if int(cval(i)) < off + len(p.args):
        parts[k] = upd(p, const(int(cval(i)) - off), v)
        return cat(parts)
      off += len(p.args)
  if t.op == 'upd' and t.args[1] is i:
    return upd(t.args[0], i, v)
  s = t.sort
  if is_seq(t):
    s = ('seq', join_value_sort(t.sort[1], v.sort))
  return mk('upd', (t, i, v), s)


def slice_(t, lo, hi, step):
  """Python slice with terms or None."""
  if t.op == 'ite':
    return ite(t.args[0], slice_(t.args[1], lo, hi, step), slice_(t.args[2], lo, hi, step))
  if t.sort == 'bytes':
    return bslice(t, lo, hi, step)
  if t.op == 'lit':
    for x in (lo, hi):
      if x is not None and x.op != 'c':
        x2 = decided(x)
        g = x2.args if x2 is not None and x2.op == 'ite' else None
        if x2 is not None and x2.op == 'c':
          return slice_(t, x2 if x is lo else lo, x2 if x is hi else hi, step)
        if g is not None:
          y = [slice_(t, v if x is lo else lo, v if x is hi else hi, step) for v in g[1:]]
          return ite(g[0], y[0], y[1])
  n = length(t)
  st = 1 if step is None else (int(cval(step)) if step.op == 'c' else None)
  if t.op in ('lit', 'tup') and all(x is None or x.op == 'c' for x in (lo, hi, step)):
    s = slice(*[None if x is None else int(cval(x)) for x in (lo, hi, step)])
    if t.op == 'tup':
      return mk('tup', t.args[s], 'tup')
    return lit(t.args[s])
  if st is None or st == 0:
    return mk('slice', (t, lo or NONE, hi or NONE, step or NONE), t.sort)
  def clampidx(x):
    # returns a term provably within [0, n] or None
    if x.op == 'c' and cval(x) < 0:
      y = add(n, x)
      return y if nonneg(y) else None
    if nonneg(x) and nonneg(sub(n, x)):
      return x
    return None
  if st > 0:
    a = const(0) if lo is None else clampidx(lo)
    b = n if hi is None else clampidx(hi)
    if a is not None and b is not None:
      cnt = sub(b, a)
      if st != 1:
        cnt = fdiv(add(cnt, const(st - 1)), const(st))
      cnt = max0(cnt)
      if a is const(0) and cnt is n and st == 1:
        return t
      if st == 1 and t.op == 'cat':
        r = _slice_cat(t, a, cnt)
        if r is not None:
          return r
      j = fresh_index(cnt)
      body = at(t, add(a, mul(const(st), j)))
      return smap(cnt, close(body, [j]))
  elif st == -1 and lo is None and hi is None:
    j = fresh_index(n)
    return smap(n, close(at(t, sub(sub(n, const(1)), j)), [j]))
  elif st == -1 and lo is None and hi is not None:
    b = clampidx(hi)
    if b is not None:
      cnt = max0(sub(sub(n, const(1)), b))
      j = fresh_index(cnt)
      return smap(cnt, close(at(t, sub(sub(n, const(1)), j)), [j]))
  return mk('slice', (t, lo or NONE, hi or NONE, step or NONE), t.sort)


def _slice_cat(t, a, cnt):
  """Drops whole parts / literal prefixes and suffixes of a concatenation."""
  parts = list(t.args)
  out = []
  pos = const(0)
  end = add(a, cnt)
  total = length(t)
  for p in parts:
    np_ = length(p)
    lo = sub(a, pos)          # slice start relative to p
    hi = sub(end, pos)
    pos = add(pos, np_)
    if nonneg(sub(lo, np_)) or nonneg(neg(hi)):
      continue
    s_lo = const(0) if nonneg(neg(lo)) else (lo if nonneg(sub(np_, lo)) and nonneg(lo) else None)
    s_hi = np_ if nonneg(sub(hi, np_)) else (hi if nonneg(hi) and nonneg(sub(np_, hi)) else None)
    if s_lo is None or s_hi is None:
      return None
    if s_lo is const(0) and s_hi is np_:
      out.append(p)
    elif p.op == 'cat':
      return None
    else:
      out.append(slice_(p, s_lo, s_hi, None))
  return cat(out)


_fresh = [0]


def fresh(prefix='v', sort='int', **kw):
  _fresh[0] += 1
  return sym('%s#%d' % (prefix, _fresh[0]), sort, **kw)


def fresh_index(n):
  if n.op == 'max0':
    n = n.args[0]    # an index below max(0, e) is below e
  return fresh('i', 'int', lo=0, hi=n)


# sums, products, quantifiers ------------------------------------------------

def ssum(n, body, sort=None):
  """sum of body(i) for i < n"""
  sort = sort or ('int' if body.sort == 'bool' else body.sort)
  if n.op == 'c':
    r = const(0, sort)
    for j in range(int(cval(n))):
      if j > 64:
        break
      r = add(r, subst_bv(body, (const(j),)))
    else:
      return r
  d = to_poly(body) if is_arith(body) else None
  if d is None:
    raise Unsupported('sum of %s' % (body.sort,))
  if body.op == 'ite':
    c = body.args[0]
    if not uses_bv(c, 0):
      return ite(shift(c, -1), ssum(n, body.args[1], sort), ssum(n, body.args[2], sort))
  out = const(0, sort)
  for m, c in d.items():
    outer, inner = [], []
    for a, e in m:
      if uses_bv(a, 0) or (isinstance(e, T) and uses_bv(e, 0)):
        # split symbolic exponents: x**(i+k) = x**i * x**k when x is independent of i
        if not uses_bv(a, 0) and isinstance(e, T):
          ed = to_poly(e)
          ei = {mm: cc for mm, cc in ed.items() if _mono_uses(mm, 0)}
          eo = {mm: cc for mm, cc in ed.items() if not _mono_uses(mm, 0)}
          if eo:
            x = _as_exp(from_poly(eo, 'int'))
            outer.append((shift(a, -1), x if isinstance(x, int) else shift(x, -1)))
            e = _as_exp(from_poly(ei, 'int'))
        inner.append((a, e))
      else:
        outer.append((shift(a, -1), e if isinstance(e, int) else shift(e, -1)))
    outer.sort(key=lambda p: p[0].serial)
    coeff = from_poly({tuple(outer): c}, sort)
    if not inner:
      out = add(out, mul(coeff, cast(n, sort) if sort != 'int' else n))
      continue
    inner.sort(key=lambda p: p[0].serial)
    ib = from_poly({tuple(inner): 1}, sort)
    if ib is bv(0) and sort == 'int':
      # triangular number, kept as an atom to stay integral
      pass
    out = add(out, mul(coeff, mk('sum', (n, ib), sort)))
  return out


def _mono_uses(m, k):
  return any(uses_bv(a, k) or (isinstance(e, T) and uses_bv(e, k)) for a, e in m)


def sprod(n, body, sort=None):
  sort = sort or ('int' if body.sort == 'bool' else body.sort)
  if not uses_bv(body, 0):
    return power(shift(body, -1), n)
  if n.op == 'c' and cval(n) <= 16:
    r = const(1, sort)
    for j in range(int(cval(n))):
      r = mul(r, subst_bv(body, (const(j),)))
    return r
  return mk('prod', (n, body), sort)


def sall(n, body):
  """for all i < n: body(i)"""
  if body is TRUE:
    return TRUE
  if n.op == 'c':
    k = int(cval(n))
    if k <= 0:
      return TRUE
    if k <= 16:
      r = TRUE
      for j in reversed(range(k)):
        r = band(subst_bv(body, (const(j),)), r)
      return r
  if not uses_bv(body, 0):
    return bor(is_zero(n), shift(body, -1))
  # a conjunction is quantified conjunct by conjunct
  if body.op == 'ite' and body.args[2] is FALSE:
    return band(sall(n, body.args[0]), sall(n, body.args[1]))
  if body.op == 'ite' and body.args[1] is FALSE and body.args[2] is not TRUE:
    return band(sall(n, bnot(body.args[0])), sall(n, body.args[2]))
  x = _excluded_index(n, body)
  if x is not None:
    return FALSE
  return mk('all', (n, body), 'bool')


def _excluded_index(n, body):
  """t in 0..n-1 when body(i) says i != t."""
  if body.op != 'ite' or body.args[1] is not FALSE or body.args[2] is not TRUE or body.args[0].op != 'z':
    return None
  d = to_poly(body.args[0].args[0])
  for mo, c in d.items():
    if len(mo) == 1 and mo[0][1] == 1 and mo[0][0].op == 'bv' and mo[0][0].args[0] == 0 and c in (1, -1):
      rest = from_poly({m: -c * k for m, k in d.items() if m is not mo and m != mo}, 'int')
      if uses_bv(rest, 0):
        return None
      t = shift(rest, -1)
      return t if in_range(t, n) else None
  return None


def sany(n, body):
  return bnot(sall(n, bnot(body)))


# ----------------------------------------------------------------------
# dictionaries and sets (a set is a dictionary of truth values)

def dempty(kind='dict'):
  return mk('dempty', (), (kind, 'any'))


def _dkeyeq(a, b):
  return eq(a, b)


def dset(d, k, v):
  if d.op == 'ite':
    return ite(d.args[0], dset(d.args[1], k, v), dset(d.args[2], k, v))
  s = (d.sort[0], v.sort if d.sort[1] == 'any' else join_value_sort(d.sort[1], v.sort))
  # overwrite in place (keeps insertion order) when later keys are known distinct
  x, later = d, []
  while x.op == 'dset':
    e = _dkeyeq(k, x.args[1])
    if e is TRUE:
      r = mk('dset', (x.args[0], x.args[1], v), s)
      for kk, vv in reversed(later):
        r = mk('dset', (r, kk, vv), s)
      return r
    if e is not FALSE:
      break
    later.append((x.args[1], x.args[2]))
    x = x.args[0]
  return mk('dset', (d, k, v), s)


def dget(d, k):
  if d.op == 'ite':
    return ite(d.args[0], dget(d.args[1], k), dget(d.args[2], k))
  if d.op == 'dset':
    e = _dkeyeq(k, d.args[1])
    if e is TRUE:
      return d.args[2]
    if e is FALSE:
      return dget(d.args[0], k)
    rest = dget(d.args[0], k)
    if rest.op == 'fn' and rest.args[0] == 'keyerror':
      return d.args[2]  # every use is guarded by the presence of the key
    return ite(e, d.args[2], rest)
  if d.op == 'dempty':
    return mk('fn', ('keyerror', ()), 'any')
  if d.op == 'ddel':
    return dget(d.args[0], k)
  return mk('dget', (d, k), d.sort[1])


def dhas(d, k):
  if d.op == 'ite':
    return ite(d.args[0], dhas(d.args[1], k), dhas(d.args[2], k))
  if d.op == 'dset':
    return bor(_dkeyeq(k, d.args[1]), dhas(d.args[0], k))
  if d.op == 'dempty':
    return FALSE
  if d.op == 'ddel':
    return band(bnot(_dkeyeq(k, d.args[1])), dhas(d.args[0], k))
  return mk('dhas', (d, k), 'bool')


def ddel(d, k):
  if d.op == 'dset':
    e = _dkeyeq(k, d.args[1])
    if e is TRUE:
      return d.args[0]
    if e is FALSE:
      r = ddel(d.args[0], k)
      return mk('dset', (r, d.args[1], d.args[2]), d.sort)
  if d.op == 'dempty':
    return d
  return mk('ddel', (d, k), d.sort)


def dkeys(d):
  if d.op == 'ite':
    return ite(d.args[0], dkeys(d.args[1]), dkeys(d.args[2]))
  if d.op == 'dset':
    ks = dkeys(d.args[0])
    return ite(dhas(d.args[0], d.args[1]), ks, cat([ks, lit([d.args[1]])]))
  if d.op == 'dempty':
    return lit(())
  return mk('dkeys', (d,), ('seq', 'any'))


def keyset(d):
  if d.op == 'ite':
    return ite(d.args[0], keyset(d.args[1]), keyset(d.args[2]))
  items = dchain(d)
  if items is None:
    return mk('keyset', (d,), ('set', 'bool'))
  r = dempty('set')
  for k, _ in items:
    r = dset(r, k, TRUE)
  return r


def setof(s):
  if s.op == 'ite':
    return ite(s.args[0], setof(s.args[1]), setof(s.args[2]))
  if s.op == 'lit':
    d = dempty('set')
    for e in s.args:
      d = dset(d, e, TRUE)
    return d
  if s.op == 'dkeys' and s.args[0].sort[0] == 'set':
    return s.args[0]
  return mk('fn', ('setof', (s,)), ('set', 'bool'))


def setop(name, d, o):
  """setunion, setinter, setdiff, setxor"""
  if d.op == 'ite':
    return ite(d.args[0], setop(name, d.args[1], o), setop(name, d.args[2], o))
  if o.op == 'ite':
    return ite(o.args[0], setop(name, d, o.args[1]), setop(name, d, o.args[2]))
  a, b = dchain(d), dchain(o)
  if a is not None and b is not None:
    if name == 'setunion':
      for k, _ in b:
        d = dset(d, k, TRUE)
      return d
    parts = [(a, o, name == 'setinter')]
    if name == 'setxor':
      parts.append((b, d, False))
    r = dempty('set')
    for items, other, want in parts:
      for k, _ in items:
        h = dhas(other, k)
        r = ite(h if want else bnot(h), dset(r, k, TRUE), r)
    return r
  return mk('fn', (name, (d, o)), ('set', 'bool'))


def dupdate(d, o):
  items = dchain(o)
  if items is None:
    return mk('dupdate', (d, o), d.sort)
  for k, v in items:
    d = dset(d, k, v)
  return d


def dchain(d):
  """The insertions of a dictionary built from an empty one, or None."""
  out = []
  while d.op == 'dset':
    out.append((d.args[1], d.args[2]))
    d = d.args[0]
  if d.op != 'dempty':
    return None
  return out[::-1]


def dconst_items(d):
  """The items when every key is pairwise decided, in order, or None."""
  items = dchain(d)
  if items is None:
    return None
  for i, (k, _) in enumerate(items):
    for k2, _ in items[:i]:
      if _dkeyeq(k, k2) is not FALSE:
        return None
  return items


def deq(a, b):
  """Equality of dictionaries or sets."""
  if a is b:
    return TRUE
  if a.op == 'ite':
    return ite(a.args[0], deq(a.args[1], b), deq(a.args[2], b))
  if b.op == 'ite':
    return ite(b.args[0], deq(a, b.args[1]), deq(a, b.args[2]))
  ia, ib = dconst_items(a), dconst_items(b)
  if ia is not None and ib is not None:
    if len(ia) != len(ib):
      return FALSE
    r = TRUE
    for k, v in ia:
      h = dhas(b, k)
      if h is FALSE:
        return FALSE
      r = band(r, band(h, eq(v, dget(b, k))))
    return r
  if a.serial > b.serial:
    a, b = b, a
  return mk('eqv', (a, b), 'bool')


def is_dict(t):
  return isinstance(t.sort, tuple) and t.sort[0] in ('dict', 'set')


_unb = {}


def has_unbound(t):
  """An unbound alternative at the gates of t."""
  r = _unb.get(t)
  if r is None:
    if t.op == 'fn' and t.args[0] == 'unbound':
      r = True
    elif t.op == 'ite':
      r = has_unbound(t.args[1]) or has_unbound(t.args[2])
    else:
      r = False
    _unb[t] = r
  return r


def fld(t, name):
  if t.op == 'inst':
    return t.args[2][t.args[1].index(name)] if name in t.args[1] else None
  if t.op == 'at' and t.args[0].op in ('lit', 'tup') and t.args[0].args[0]:
    # one alternative of a literal sequence, the field being common to all of them
    vs = [fld(x, name) if x.op == 'inst' else None for x in t.args[0].args]
    return vs[0] if vs[0] is not None and all(v is vs[0] for v in vs) else None
  if t.op == 'ite':
    a, b = fld(t.args[1], name), fld(t.args[2], name)
    return ite(t.args[0], a, b) if a is not None and b is not None else None
  return None


def least(n, body):
  """The least i < n with body(i), or n."""
  if body is FALSE:
    return n
  if body is TRUE:
    return ite(gt0(n), const(0), n)
  if n.op == 'c' and cval(n) <= 0:
    return n
  if n.op == 'c' and cval(n) <= 16:
    r = n
    for j in reversed(range(int(cval(n)))):
      r = ite(subst_bv(body, (const(j),)), const(j), r)
    return r
  return mk('least', (n, body), 'int')


def _found(b):
  """b is what another search was for, at the place where it stopped."""
  seen = set()
  todo = [b]
  while todo:
    x = todo.pop()
    if isinstance(x, tuple):
      todo.extend(x)
    elif isinstance(x, T) and x not in seen:
      seen.add(x)
      if x.op == 'first' and x.mf == 0 and subst_bv(x.args[0], (x,)) is b:
        return True
      if x.op not in ('mu', 'sum', 'prod', 'least', 'map', 'all', 'muw', 'flat'):
        todo.extend(x.args)
  return False


def first(body):
  """The least natural i with body(i)."""
  if body is TRUE:
    return const(0)
  for j in range(3):
    b = subst_bv(body, (const(j),))
    if b is TRUE:
      return const(j)
    if b is not FALSE:
      break
  n = _count(body)
  if n is not None:
    return n
  bs = []
  for j in range(5):
    b = subst_bv(body, (const(j),))
    bs.append(b)
    if j == 0 and _found(b):
      return const(0)
    if b is TRUE:       # one of finitely many
      r = const(j)
      for k in reversed(range(j)):
        r = ite(bs[k], const(k), r)
      return r
  return mk('first', (body,), 'int')


def _count(body):
  """first i with not (a - b*i > 0) for a loop-invariant and b > 0"""
  if body.op != 'ite' or body.args[1] is not FALSE or body.args[2] is not TRUE:
    c, neg_ = body, False
  else:
    c, neg_ = body.args[0], True
  i = fresh('k', 'int', lo=0)
  if not neg_:
    # gt0(x) with x rising: not(1 - x > 0)
    if c.op == 'gt0':
      t = subst_bv(sub(const(1), c.args[0]), (i,))
    elif c.op == 'z':
      t = subst_bv(c.args[0], (i,))
      a, b = _linear(t, i)
      if b == 1 and a is not None:
        a, b = neg(a), -1
      if b == -1 and nonneg(a):
        return a
      return None
    else:
      return None
  else:
    if c.op != 'gt0':
      return None
    t = subst_bv(c.args[0], (i,))
  a, b = _linear(t, i)
  if a is None or b >= 0:
    return None
  # least i with a - |b| i <= 0
  b = -b
  m = max0(a)
  return m if b == 1 else fdiv(add(m, const(b - 1)), const(b))


def _linear(t, i):
  """t = a + b*i with constant b, a free of i; (None, None) otherwise"""
  if t.sort != 'int':
    return None, None
  d = to_poly(t)
  b = d.pop(((i, 1),), 0)
  a = from_poly(d, 'int')
  if occurs(a, lambda x: x is i):
    return None, None
  return a, b


def flat(n, body):
  """concatenation of the sequences body(i), i < n"""
  if n.op == 'c' and cval(n) <= 64:
    return cat([subst_bv(body, (const(j),)) for j in range(int(cval(n)))])
  if body.op == 'lit' and len(body.args) == 1:
    return smap(n, body.args[0])
  if body.op == 'lit' and not body.args:
    return body
  if body.op == 'lit' and len(body.args) <= 8:
    # k elements per round: element j of the result is element j mod k of round j div k
    k = const(len(body.args))
    r = mod(bv(0), k)
    e = None
    for j, x in reversed(list(enumerate(body.args))):
      y = subst_under(x, fdiv(bv(0), k))
      e = y if e is None else ite(is_zero(sub(r, const(j))), y, e)
    return smap(mul(k, max0(n)), e)
  return mk('flat', (n, body), body.sort)


def muw(cond, inits, nexts, j, sort=None):
  """Value of state j when cond first fails (while loop)."""
  return mk('muw', (cond, inits, nexts, j), sort or inits[j].sort)


# ----------------------------------------------------------------------
# bytes

def blen(t):
  if t.op == 'c':
    return const(len(cval(t)))
  if t.op == 'bcat':
    r = const(0)
    for p in t.args:
      r = add(r, blen(p))
    return r
  if t.op == 'bjoin':
    s = t.args[0]
    if s.op == 'map':
      l = blen(s.args[1])
      if l.op == 'c':
        return mul(l, s.args[0])
      return ssum(s.args[0], l)
  if t.op == 'tobytes':
    return t.args[1]
  if t.op == 'fn' and t.args[0] in FIXED_BYTES:
    return const(FIXED_BYTES[t.args[0]])
  if t.op == 'ite':
    return ite(t.args[0], blen(t.args[1]), blen(t.args[2]))
  if t.op == 'sym' and t.args[0] in BYTES_LEN:
    return BYTES_LEN[t.args[0]]
  if t.op == 'at' and t.args[0].op == 'sym' and t.args[0].args[0] in ELEM_LEN:
    return ELEM_LEN[t.args[0].args[0]]
  if t.op == 'at' and isinstance(sym_facts(t).get('blen'), T):
    return sym_facts(t)['blen']
  if t.op == 'slice' and all(x is NONE or x.op == 'c' for x in t.args[1:]):
    n = blen(t.args[0])
    if n.op == 'c':
      return const(len(range(cval(n))[slice(*[None if x is NONE else cval(x) for x in t.args[1:]])]))
  return mk('blen', (t,), 'int')


FIXED_BYTES = {'blake': 32, 'sha256': 32}


def bcat(parts):
  out = []
  for p in parts:
    if p.op == 'bcat':
      out.extend(p.args)
    elif p.op == 'c' and cval(p) == b'':
      continue
    elif p.op == 'c' and out and out[-1].op == 'c':
      out[-1] = const(cval(out[-1]) + cval(p))
    else:
      out.append(p)
  if not out:
    return const(b'')
  if len(out) == 1:
    return out[0]
  return mk('bcat', tuple(out), 'bytes')


def bjoin(sep, s):
  if sep.op == 'c' and cval(sep) == b'':
    if s.op == 'lit':
      return bcat(s.args)
    if s.op == 'cat':
      return bcat([bjoin(sep, p) for p in s.args])
    if s.op == 'ite':
      return ite(s.args[0], bjoin(sep, s.args[1]), bjoin(sep, s.args[2]))
    if s.op == 'sym' and s.args[0] in SEQ_LEN:
      s = mk('map', (SEQ_LEN[s.args[0]], mk('at', (s, bv(0)), 'bytes')), s.sort)
    return mk('bjoin', (s,), 'bytes')
  return fn('join', (sep, s), 'bytes')


def bslice(t, lo, hi, step=None):
  if step is not None and not (step.op == 'c' and cval(step) == 1):
    return mk('slice', (t, lo or NONE, hi or NONE, step), 'bytes')
  if t.op == 'c' and all(x is None or x.op == 'c' for x in (lo, hi)):
    return const(cval(t)[None if lo is None else cval(lo):None if hi is None else cval(hi)])
  lo0 = const(0) if lo is None else lo
  n = blen(t)
  hi0 = n if hi is None else hi
  if lo0.op == 'c' and cval(lo0) < 0:
    y = add(n, lo0)
    if nonneg(y):
      lo0 = y
    elif nonneg(neg(y)):
      lo0 = const(0)
  if hi0.op == 'c' and cval(hi0) < 0:
    y = add(n, hi0)
    if nonneg(y):
      hi0 = y
    elif nonneg(neg(y)):
      hi0 = const(0)
  if lo0 is const(0) and hi0 is n:
    return t
  w = sub(hi0, lo0)
  # one chunk of a concatenation of equally long chunks
  if t.op == 'bjoin' and t.args[0].op == 'map':
    m = t.args[0]
    l = blen(m.args[1])
    if l.op == 'c' and w is l:
      q = fdiv(lo0, l)
      if mul(q, l) is lo0 and nonneg(q) and positive(sub(m.args[0], q)):
        return subst_bv(m.args[1], (q,))
  if t.op == 'bcat':
    pos = const(0)
    outp = []
    ok = True
    for p in t.args:
      pl = blen(p)
      a, b = sub(lo0, pos), sub(hi0, pos)
      pos = add(pos, pl)
      if nonneg(sub(a, pl)) or nonneg(neg(b)):
        continue
      if nonneg(neg(a)) and nonneg(sub(b, pl)):
        outp.append(p)
      elif nonneg(a) and nonneg(sub(pl, b)) and not outp:
        outp.append(bslice(p, a, b))
      else:
        ok = False
        break
    if ok:
      return bcat(outp)
  return mk('slice', (t, lo or NONE, hi or NONE, NONE), 'bytes')


def tobytes(n, width, order):
  if n.op == 'c' and width.op == 'c' and n.sort == 'int' and order in ('big', 'little') and 0 <= cval(width) < 4096:
    if 0 <= cval(n) < 1 << 8 * cval(width):
      return const(cval(n).to_bytes(cval(width), order))
  return mk('tobytes', (n, width, order), 'bytes')


def frombytes(b, order):
  if b.op == 'tobytes' and b.args[2] == order:
    return b.args[0]
  if b.op == 'c' and order in ('big', 'little'):
    return const(int.from_bytes(cval(b), order))
  if b.op == 'ite':
    return ite(b.args[0], frombytes(b.args[1], order), frombytes(b.args[2], order))
  return mk('fn', ('frombytes', (b, const(order))), 'int')


# ----------------------------------------------------------------------
# substitution

def uses_bv(x, k):
  if isinstance(x, T):
    if x.mf <= k:
      return False
    if x.op == 'bv':
      return x.args[0] == k
    bs = binders(x.op, x.args)
    return any(uses_bv(a, k + b) for a, b in zip(x.args, bs))
  if isinstance(x, tuple):
    return any(uses_bv(y, k) for y in x)
  return False


def shift(t, d, cutoff=0):
  if isinstance(t, T):
    if t.mf <= cutoff or d == 0:
      return t
    if t.op == 'bv':
      return bv(t.args[0] + d, t.sort) if t.args[0] >= cutoff else t
    bs = binders(t.op, t.args)
    return rebuild(t, tuple(shift(a, d, cutoff + b) for a, b in zip(t.args, bs)))
  if isinstance(t, tuple):
    return tuple(shift(y, d, cutoff) for y in t)
  return t


def _subst(t, k, vals, keep=0, memo=None):
  """Replaces bv(k..k+len(vals)-1) by vals (shifted by k); larger indices drop."""
  if memo is None:
    memo = {}
  if isinstance(t, T):
    if t.mf <= k:
      return t
    key = (t, k)
    if key in memo:
      return memo[key]
    if t.op == 'bv':
      i = t.args[0]
      if i < k:
        r = t
      elif i < k + len(vals):
        r = shift(vals[i - k], k)
      else:
        r = bv(i - len(vals) + keep, t.sort)
    else:
      bs = binders(t.op, t.args)
      r = rebuild(t, tuple(_subst(a, k + b, vals, keep, memo)
                           for a, b in zip(t.args, bs)))
    memo[key] = r
    return r
  if isinstance(t, tuple):
    return tuple(_subst(y, k, vals, keep, memo) for y in t)
  return t


def subst_bv(body, vals):
  return _subst(body, 0, tuple(vals))


def close(t, syms):
  """Abstracts named symbols into de Bruijn 0..k-1."""
  memo = {}
  index = {s: j for j, s in enumerate(syms)}
  k = len(syms)

  def go(x, depth):
    if isinstance(x, T):
      key = (x, depth)
      if key in memo:
        return memo[key]
      if x in index:
        r = bv(index[x] + depth, x.sort)
      elif x.op == 'bv':
        r = bv(x.args[0] + k, x.sort) if x.args[0] >= depth else x
      elif x.op in ('c', 'sym'):
        r = x
      else:
        bs = binders(x.op, x.args)
        r = rebuild(x, tuple(go(a, depth + b) for a, b in zip(x.args, bs)))
      memo[key] = r
      return r
    if isinstance(x, tuple):
      return tuple(go(y, depth) for y in x)
    return x

  return go(t, 0)


def subst(t, mapping):
  """Replaces subterms (closed) by terms, rebuilding in normal form."""
  memo = {}

  def go(x, depth):
    if isinstance(x, T):
      key = (x, depth)
      if key in memo:
        return memo[key]
      if x in mapping:
        r = shift(mapping[x], depth)
      elif x.op in ('c', 'sym', 'bv'):
        r = x
      else:
        bs = binders(x.op, x.args)
        new = tuple(go(a, depth + b) for a, b in zip(x.args, bs))
        r = x if new == x.args else rebuild(x, new)
      memo[key] = r
      return r
    if isinstance(x, tuple):
      return tuple(go(y, depth) for y in x)
    return x

  return go(t, 0)


def subst_atom(t, a, r):
  return subst(t, {a: r})


def occurs(x, pred):
  seen = set()

  def go(x):
    if isinstance(x, T):
      if x in seen:
        return False
      seen.add(x)
      if pred(x):
        return True
      return any(go(a) for a in x.args)
    if isinstance(x, tuple):
      return any(go(y) for y in x)
    return False

  return go(x)


def mentions(t, symset):
  return occurs(t, lambda x: x in symset)


def rebuild(t, args):
  tick()
  if args == t.args:
    return t
  op = t.op
  if op == 'p':
    d = {}
    res = None
    for m, c in args[0]:
      if t.sort == 'int':
        # a coefficient with negative powers of constants, as in 8*2**-i
        for a, e in m:
          n = e if isinstance(e, int) else cval(e) if isinstance(e, T) and e.op == 'c' else 0
          if n < 0 and isinstance(a, T) and a.op == 'c' and isinstance(c, int) and c % cval(a)**-n == 0:
            c //= cval(a)**-n
            m = tuple(x for x in m if x != (a, e))
      term = const(c, t.sort)
      for a, e in m:
        term = mul(term, power_any(a, e, t.sort))
      res = term if res is None else add(res, term)
    if res is None:
      return const(0, t.sort)
    return cast(res, t.sort) if res.sort != t.sort and res.sort in ARITH and t.sort in ARITH and ARITH[t.sort] > ARITH[res.sort] else res
  f = REBUILD.get(op)
  if f is not None:
    return f(t, args)
  return mk(op, args, t.sort)


def power_any(a, e, sort):
  if a.op == 'par':
    a = a.args[0]
  if isinstance(e, int):
    if e >= 0:
      return power(a, const(e))
    return inv(power(a, const(-e)))
  if a.op == 'c':
    return _const_pow(a, e, a.sort) if e.op != 'c' else power(a, e)
  return power(a, e)


_RN = {}


def renorm(t):
  """t rebuilt with the range facts of its bound indices."""
  key = (t, _GE[0])
  r = _RN.get(key)
  if r is not None:
    return r
  memo = {}

  def go(x):
    if isinstance(x, tuple):
      return tuple(go(y) for y in x)
    if not isinstance(x, T) or x.op in ('c', 'sym', 'bv', 'ref', 'py'):
      return x
    r = memo.get(x)
    if r is not None:
      return r
    op = x.op
    if op in ('map', 'sum', 'prod', 'all', 'flat', 'least'):
      n = go(x.args[0])
      i = fresh_index(n)
      b = go(subst_bv(x.args[1], (i,)))
      r = rebuild(x, (n, close(b, [i])))
    elif op == 'first':
      i = fresh('k', 'int', lo=0)
      b = go(subst_bv(x.args[0], (i,)))
      r = rebuild(x, (close(b, [i]),))
    elif op == 'mu':
      n, inits, nexts, j = x.args
      n = go(n)
      inits = go(inits)
      i = fresh_index(n)
      ss = [fresh('phi', y.sort if y.sort != 'bool' else 'bool') for y in inits]
      nx = tuple(close(go(subst_bv(y, tuple(ss) + (i,))), ss + [i]) for y in nexts)
      r = rebuild(x, (n, inits, nx, j))
    elif any(binders(op, x.args)):
      r = x
    else:
      r = rebuild(x, tuple(go(a) for a in x.args))
    memo[x] = r
    return r
  r = go(t)
  _RN[key] = r
  return r


def _resort(t, r):
  if r.sort == 'any' and t.sort != 'any' and r.op in ('at', 'fn'):
    return mk(r.op, r.args, t.sort)
  return r


REBUILD = {
    'par': lambda t, a: a[0],
    'fd': lambda t, a: fdiv(a[0], a[1]),
    'max0': lambda t, a: max0(a[0]),
    'z': lambda t, a: is_zero(a[0]),
    'gt0': lambda t, a: gt0(a[0]),
    'eqv': lambda t, a: eq(a[0], a[1]),
    'ite': lambda t, a: ite(*a),
    'fn': lambda t, a: fn(a[0], a[1], t.sort),
    'lit': lambda t, a: lit(a),
    'cat': lambda t, a: cat(a),
    'map': lambda t, a: smap(a[0], a[1]),
    'len': lambda t, a: length(a[0]),
    'at': lambda t, a: _resort(t, at(a[0], a[1])),
    'upd': lambda t, a: upd(*a),
    'sum': lambda t, a: ssum(a[0], a[1], t.sort),
    'prod': lambda t, a: sprod(a[0], a[1], t.sort),
    'all': lambda t, a: sall(a[0], a[1]),
    'blen': lambda t, a: blen(a[0]),
    'bcat': lambda t, a: bcat(a),
    'bjoin': lambda t, a: bjoin(const(b''), a[0]),
    'tobytes': lambda t, a: tobytes(*a),
    'slice': lambda t, a: slice_(a[0], *[None if x is NONE else x for x in a[1:]]),
    'mu': lambda t, a: mu(*a, sort=t.sort),
    'muw': lambda t, a: muw(*a, sort=t.sort),
    'least': lambda t, a: least(*a),
    'first': lambda t, a: first(*a),
    'flat': lambda t, a: flat(*a),
    'dset': lambda t, a: dset(*a),
    'dget': lambda t, a: dget(*a),
    'dhas': lambda t, a: dhas(*a),
    'ddel': lambda t, a: ddel(*a),
    'dkeys': lambda t, a: dkeys(*a),
    'keyset': lambda t, a: keyset(*a),
    'dupdate': lambda t, a: dupdate(*a),
    'tupof': lambda t, a: mk('tup', a[0].args, 'tup') if a[0].op == 'lit' else mk('tupof', a, 'tup'),
    'fld': lambda t, a: fld(a[0], a[1]) or mk('fld', a, t.sort),
    'inst': lambda t, a: mk('inst', a, t.sort),
}


def mu(n, inits, nexts, j, sort=None):
  """Value of state j after n steps of a recurrence."""
  if n.op == 'c' and cval(n) == 0:
    return inits[j]
  return mk('mu', (n, inits, nexts, j), sort or inits[j].sort)


# ----------------------------------------------------------------------
# printing

def show(t, depth=0):
  if isinstance(t, int):
    return str(t)
  if isinstance(t, str):
    return t
  if isinstance(t, tuple):
    return '(' + ', '.join(show(x, depth) for x in t) + ')'
  if not isinstance(t, T):
    return repr(t)
  if depth > 12:
    return '...'
  d = depth + 1
  o, a = t.op, t.args
  if o == 'c':
    return repr(a[1])
  if o == 'sym':
    return a[0]
  if o == 'bv':
    return '$%d' % a[0]
  if o == 'p':
    parts = []
    for m, c in a[0][:12]:
      fs = ['%s' % show(x, d) if e == 1 else '%s^%s' % (show(x, d), show(e, d)) for x, e in m]
      if c != 1 or not fs:
        fs.insert(0, str(c))
      parts.append('*'.join(fs))
    if len(a[0]) > 12:
      parts.append('...[%d terms]' % len(a[0]))
    return '(' + ' + '.join(parts) + ')'
  if o == 'fd':
    return 'floor(%s / %s)' % (show(a[0], d), show(a[1], d))
  if o == 'ite':
    return 'ite(%s, %s, %s)' % tuple(show(x, d) for x in a)
  if o == 'z':
    return '[%s == 0]' % show(a[0], d)
  if o == 'gt0':
    return '[%s > 0]' % show(a[0], d)
  if o == 'eqv':
    return '[%s == %s]' % (show(a[0], d), show(a[1], d))
  if o == 'inst':
    return 'obj%d{%s}' % (a[0].args[0], ', '.join('%s=%s' % (n, show(x, d)) for n, x in zip(a[1], a[2])))
  if o == 'fn':
    return '%s(%s)' % (a[0], ', '.join(show(x, d) for x in a[1]))
  if o == 'at':
    return '%s[%s]' % (show(a[0], d), show(a[1], d))
  if o == 'lit':
    return '[' + ', '.join(show(x, d) for x in a[:10]) + (', ...' if len(a) > 10 else '') + ']'
  if o == 'tup':
    return '(' + ', '.join(show(x, d) for x in a) + ',)'
  return '%s(%s)' % (o, ', '.join(show(x, d) for x in a))


FN_SIMPL['setof'] = lambda a, s: None if a[0].op not in ('ite', 'lit') else setof(a[0])
for _n in ('setunion', 'setinter', 'setdiff', 'setxor'):
  FN_SIMPL[_n] = lambda a, s, _n=_n: None if any(dchain(x) is None and x.op != 'ite' for x in a) else setop(_n, *a)


def is_const_key(t):
  if t.op == 'c':
    return True
  return t.op == 'tup' and all(is_const_key(x) for x in t.args)


def const_key(t):
  if t.op == 'c':
    return cval(t)
  return tuple(const_key(x) for x in t.args)


def _sorted(args, sort):
  s, = args
  if s.op == 'ite':
    return ite(s.args[0], fn('sorted', (s.args[1],), sort), fn('sorted', (s.args[2],), sort))
  if s.op == 'lit' and all(is_const_key(x) for x in s.args):
    try:
      return lit(sorted(s.args, key=const_key))
    except TypeError:
      return None
  if s.op == 'lit' and all(x.op == 'tup' and x.args and is_const_key(x.args[0]) for x in s.args):
    # tuples whose first components are distinct constants
    ks = [const_key(x.args[0]) for x in s.args]
    try:
      if len(set(ks)) == len(ks):
        return lit(sorted(s.args, key=lambda x: const_key(x.args[0])))
    except TypeError:
      return None
  if s.op == 'lit' and len(s.args) < 2:
    return s
  if s.op == 'lit' and len(s.args) <= 3 and all(x.sort == 'int' for x in s.args):
    xs = list(s.args)
    for i, j in ((0, 1), (1, 2), (0, 1))[:1 if len(xs) == 2 else 3]:
      c = gt0(sub(xs[i], xs[j]))
      xs[i], xs[j] = ite(c, xs[j], xs[i]), ite(c, xs[i], xs[j])
    return lit(xs)
  if s.op == 'fn' and s.args[0] == 'permute':
    return fn('sorted', (s.args[1][0],), sort)
  if s.op == 'map' and elem_sort(s) == 'int':
    i = fresh_index(s.args[0])
    if nonneg(sub(subst_bv(s.args[1], (add(i, const(1)),)), subst_bv(s.args[1], (i,)))):
      return s
  return None


FN_SIMPL['sorted'] = _sorted


def xsum(t):
  """(n, function giving coefficient i) when t is the sum of body(i)*X**i over i < n"""
  if t.op != 'sum' or t.sort != 'poly':
    return None
  n = t.args[0]

  def coef(i):
    x = subst_bv(t.args[1], (i,))
    d = {}
    for mo, c in to_poly(x).items():
      rest, found = [], False
      for a, e in mo:
        if a.sort == 'poly':
          if a.op == 'sym' and a.args[0] == 'X' and (e is i or i.op == 'c' and e == cval(i)):
            found = True
            continue
          return None
        rest.append((a, e))
      if not found and i is not const(0):
        return None
      d[tuple(rest)] = d.get(tuple(rest), 0) + c
    return from_poly(d, 'ring')
  i = fresh_index(n)
  return (n, coef) if coef(i) is not None else None


def _sumlead(a, pick):
  """pick(n, last coefficient) for a sum over powers of X whose last coefficient is not zero"""
  r = xsum(a[0])
  if r is None or not positive(r[0]):
    return None
  # the last coefficient, the power being symbolic
  i = fresh_index(r[0])
  c = r[1](i)
  last = subst(c, {i: sub(r[0], const(1))})
  if is_zero(last) is not FALSE:
    return None
  return pick(r[0], last)


FN_SIMPL['degree1'] = lambda a, s: _sumlead(a, lambda n, c: n) or _xlead(a, lambda cs, k: const(k))
FN_SIMPL['coeffs'] = lambda a, s: _xlead(a, lambda cs, k: lit(cs[:k]))
FN_SIMPL['leadcoeff'] = lambda a, s: _sumlead(a, lambda n, c: c) or (
    _xlead(a, lambda cs, k: cs[k - 1]) if a[0].op == 'p' else None)
