"""Abstract semantics of Python's builtin types and functions, and of the parts of
the standard library the analysed code uses."""
import ast
import builtins
import math

from . import terms as T
from .terms import Unsupported, const, TRUE, FALSE, NONE, NOTIMPL, mk, band, bor, bnot
from . import interp as IP
from .interp import BType, Builtin, Model, Module, BoundName, PathDead

EXC_BASES = {
    'Exception': ('BaseException',), 'BaseException': (),
    'ArithmeticError': ('Exception',), 'ZeroDivisionError': ('ArithmeticError',),
    'OverflowError': ('ArithmeticError',), 'LookupError': ('Exception',),
    'IndexError': ('LookupError',), 'KeyError': ('LookupError',), 'TypeError': ('Exception',),
    'ValueError': ('Exception',), 'AttributeError': ('Exception',), 'NameError': ('Exception',),
    'UnboundLocalError': ('NameError',), 'RuntimeError': ('Exception',),
    'NotImplementedError': ('RuntimeError',), 'RecursionError': ('RuntimeError',),
    'AssertionError': ('Exception',), 'StopIteration': ('Exception',), 'ImportError': ('Exception',),
    'ModuleNotFoundError': ('ImportError',), 'OSError': ('Exception',), 'IOError': ('OSError',),
    'UnicodeDecodeError': ('ValueError',), 'KeyboardInterrupt': ('BaseException',),
}

DUNDER = IP.DUNDER
RDUNDER = {k: '__r' + v[2:] for k, v in DUNDER.items()}


class Super(Model):
  kind = 'model'
  name = 'super'

  def __init__(self, cls, self_):
    self.cls, self.self_ = cls, self_

  def find(self, I, st, name):
    ct = I.pyobj(self.cls)
    inst_cls = I.inst_class(st, self.self_)
    mro = I.mro(inst_cls) if inst_cls is not None else I.mro(ct)
    k = mro.index(ct) if ct in mro else -1
    for c in mro[k + 1:]:
      o = I.obj(c)
      if o.kind == 'class' and name in o.ns:
        return o.ns[name]
    return None

  def get(self, I, st, name):
    a = self.find(I, st, name)
    if a is None:
      return None
    return I.bind_attr(st, a, self.self_, I.inst_class(st, self.self_))

  def method(self, I, st, name, args, kw):
    a = self.get(I, st, name)
    if a is None:
      if name == '__init__':
        return NONE
      I.raise_(st, 'AttributeError')
    return I.call(st, a, args, kw)


class FieldModel(Model):
  """A field: elements are terms of sort ring.

  Stands for any class satisfying the field properties (C05, C06): the laws of
  higher layers are decided relative to them."""
  name = 'field'

  def __init__(self, I, prefix='', char2=False, prime=True):
    self.prime = prime
    self.p = T.sym('p', 'int', lo=2)
    self.attrs = {
        'p': self.p, 'm': const(1) if prime else T.sym('m', 'int', lo=1),
        'operatorPrecedence': const(1 if prime else 3),
        '__name__': const('Z/p' if prime else 'F_q'),
    }
    self.attrs['field_size'] = self.p if prime else T.power(self.p, self.attrs['m'])

  def get(self, I, st, name):
    if name in self.attrs:
      return self.attrs[name]
    if name == '__class__':
      return I.btypes['type']
    if name in ('inverse', 'to_bytes', '__init__', '__add__', '__mul__', '__sub__', '__neg__',
                '__truediv__', '__pow__', '__eq__'):
      return I.pyobj(BoundName(I.pyobj(self), name))
    return None

  def method(self, I, st, name, args, kw):
    if name == 'factory':
      I.raise_(st, 'AttributeError')
    if name == '__iter__':
      seq = T.smap(self.attrs['field_size'], T.cast(T.bv(0), 'ring')) if self.prime else \
          T.mk('sym', ('fieldelems',), ('seq', 'ring'))
      return I.alloc(st, ('iter', seq, const(0)))
    a = self.attrs.get(name)
    if a is not None:
      return I.call(st, a, args, kw)
    if args and args[0].sort == 'ring':
      return method(I, st, args[0], name, args[1:], kw)
    I.raise_(st, 'AttributeError')

  def call(self, I, st, args, kw):
    x, = args
    if I.is_ite(x):
      return I.split(st, x, lambda s, y: self.call(I, s, [y], kw))
    if x.sort in ('int', 'bool', 'ring'):
      return T.cast(x, 'ring')
    if x.sort == 'bytes':
      return from_felt(x)
    k = I.kind(st, x)
    if k in ('list', 'tuple') and not self.prime:
      return T.fn('felt_of_list', (I.freeze(st, I.seq_of(st, x)),), 'ring')
    if k == 'float':
      return T.cast(int_of(I, st, x), 'ring')
    I.raise_(st, 'TypeError')


def from_felt(x):
  if x.op == 'fn' and x.args[0] == 'felt':
    return x.args[1][0]
  if x.op == 'ite':
    return T.ite(x.args[0], from_felt(x.args[1]), from_felt(x.args[2]))
  return T.fn('unfelt', (x,), 'ring')


T.FIXED_BYTES['felt'] = 32


class PolyFactory(Model):
  """polynomials_over(F): the model polynomial ring F[X]; elements are poly terms."""
  name = 'polynomials'

  def __init__(self, I, field):
    self.field = field
    self.X = T.sym('X', 'poly')

  def get(self, I, st, name):
    if name == 'factory':
      return I.pyobj(self)
    if name == 'ring':
      return I.pyobj(self.field)
    if name == 'operatorPrecedence':
      return const(2)
    if name == '__name__':
      return const('(F)[x]')
    return None

  def method(self, I, st, name, args, kw):
    if name == 'factory':
      return self.call(I, st, args, kw)
    a = self.get(I, st, name)
    if a is None:
      I.raise_(st, 'AttributeError')
    return I.call(st, a, args, kw)

  def call(self, I, st, args, kw):
    x, = args
    if I.is_ite(x):
      return I.split(st, x, lambda s, y: self.call(I, s, [y], kw))
    if x.sort in T.ARITH:
      return T.cast(x, 'poly')
    k = I.kind(st, x)
    if k in ('list', 'tuple', 'iter'):
      return poly_of_seq(I.freeze(st, I.iter_seq(st, x)), self.X)
    if x.sort == 'bytes':
      n = T.blen(x)
      I.raise_if(st, bnot(T.eq(T.mod(n, const(32)), const(0))), 'ValueError')
      i = T.fresh_index(T.fdiv(n, const(32)))
      b = T.bslice(x, T.mul(const(32), i), T.add(T.mul(const(32), i), const(32)))
      return poly_of_seq(T.smap(T.fdiv(n, const(32)), T.close(from_felt(b), [i])), self.X)
    raise Unsupported('polynomial from %s' % k)


def poly_of_seq(seq, X):
  """sum of seq[i] * X**i"""
  if seq.op == 'ite':
    return T.ite(seq.args[0], poly_of_seq(seq.args[1], X), poly_of_seq(seq.args[2], X))
  if seq.op == 'lit':
    r = const(0, 'poly')
    for i, a in enumerate(seq.args):
      if a.sort == 'bytes':
        a = from_felt(a)
      r = T.add(r, T.mul(T.cast(a, 'poly'), T.power(X, const(i))))
    return r
  if seq.op == 'fn' and seq.args[0] == 'coeffs':
    return seq.args[1][0]
  n = T.length(seq)
  i = T.fresh_index(n)
  return T.ssum(n, T.close(T.mul(T.cast(T.at(seq, i), 'poly'), T.power(X, i)), [i]), 'poly')


def poly_call(I, st, f, args):
  """Evaluation of a model polynomial: substitution for X."""
  x, = args
  X = T.sym('X', 'poly')
  if x.sort not in T.ARITH:
    raise Unsupported('polynomial at %s' % (x.sort,))
  return poly_eval(f, x, X)


def poly_eval(f, x, X):
  if x.sort == 'poly':
    return T.fn('compose', (f, x), 'poly')
  return T.fn('polyeval', (f, T.cast(x, 'ring')), 'ring')


def _compose(args, sort):
  return _polyeval(args, 'poly')


def _polyeval(args, sort):
  """Pushes evaluation through sums, products and powers when nothing is opaque."""
  f, x = args
  to = 'poly' if sort == 'poly' else 'ring'
  X = T.sym('X', 'poly')

  class Opaque(Exception):
    pass

  def go(t):
    if t.sort != 'poly':
      return T.cast(t, to)
    if t is X:
      return x
    if t.op == 'c':
      return const(T.cval(t), to)
    if t.op == 'p':
      r = const(0, to)
      for m, c in t.args[0]:
        term = const(c, to)
        for a, e in m:
          term = T.mul(term, T.power_any(go(a), e, to))
        r = T.add(r, term)
      return r
    if t.op == 'par':
      return go(t.args[0])
    if t.op == 'ite':
      return T.ite(t.args[0], go(t.args[1]), go(t.args[2]))
    if t.op == 'sum' and not T.uses_bv(t.args[1], 1):
      j = T.fresh_index(t.args[0])
      b = go(T.subst_bv(t.args[1], (j,)))
      return T.ssum(t.args[0], T.close(b, [j]), to)
    if t.op == 'fn' and t.args[0] == 'compose':
      inner = _polyeval((t.args[1][1], x), to)
      return _polyeval((t.args[1][0], inner), to)
    if to == 'poly':
      return t if x is X else T.mk('fn', ('compose', (t, x)), 'poly')
    return T.mk('fn', ('polyeval', (t, x)), 'ring')

  return go(f)


T.FN_SIMPL['compose'] = _compose
T.FN_SIMPL['polyeval'] = lambda a, s: _polyeval(a, s) if (a[0].op != 'fn' or a[0].args[0] == 'compose') and (a[0].op not in ('sym', 'fd', 'at', 'bv', 'mu', 'muw', 'fld')) else None


# ----------------------------------------------------------------------

def rng_cell(I):
  if not hasattr(I, '_rng'):
    I.ncell += 1
    I.base[I.ncell] = ('iter', const(0), const(0))
    I._rng = mk('ref', (I.ncell,), 'ref')
  return I._rng


def tick(I, st):
  """The position on the tape of nondeterministic choices."""
  ref = rng_cell(I)
  p = I.cell(st, ref)
  I.put(st, ref, ('iter', p[1], T.add(p[2], const(1))))
  return p[2]


def reseed(I, st, arg):
  ref = rng_cell(I)
  p = I.cell(st, ref)
  I.put(st, ref, ('iter', T.add(p[1], const(1)), p[2]))


def rand(I, st, name, args, sort='int', **facts):
  pos = tick(I, st)
  return T.fn('rand', (const(name), pos) + tuple(I.freeze(st, a) for a in args), sort)


def install(I):
  I.btypes = {}
  I.builtins = {}
  obj = BType('object')
  I.btypes['object'] = I.pyobj(obj)
  for n in ('int', 'float', 'str', 'bytes', 'list', 'tuple', 'dict', 'set', 'type', 'function',
            'NoneType', 'NotImplementedType', 'range', 'enumerate', 'zip', 'map', 'filter', 'iterator',
            'bytearray', 'frozenset', 'complex', 'slice', 'module', 'reversed', 'generator', 'Fraction'):
    I.btypes[n] = I.pyobj(BType(n, (I.btypes['object'],)))
  I.btypes['bool'] = I.pyobj(BType('bool', (I.btypes['int'],)))
  for n in EXC_BASES:
    I.btypes[n] = I.pyobj(BType(n, ()))
  for n, b in EXC_BASES.items():
    I.obj(I.btypes[n]).bases = tuple(I.btypes[x] for x in b)
  for n in ('object', 'int', 'float', 'str', 'bytes', 'list', 'tuple', 'dict', 'set', 'type', 'range',
            'enumerate', 'zip', 'map', 'filter', 'bool', 'bytearray', 'frozenset', 'complex', 'slice',
            'reversed') + tuple(EXC_BASES):
    I.builtins[n] = I.btypes[n]
  for n, f in BUILTINS.items():
    I.builtins[n] = I.pyobj(Builtin(n, f))
  I.builtins['NotImplemented'] = NOTIMPL
  I.builtins['Ellipsis'] = const(Ellipsis)
  I.builtins['__debug__'] = TRUE


def B(name, fn):
  return Builtin(name, fn)


# ----------------------------------------------------------------------
# classes of values

def class_of(I, st, v):
  if I.is_ite(v):
    return I.split(st, v, lambda s, x: class_of(I, s, x))
  c = I.inst_class(st, v)
  if c is not None:
    return c
  k = I.kind(st, v)
  if k == 'ring':
    return I.pyobj(I.field)
  if k == 'poly':
    return I.pyobj(I.polys) if getattr(I, 'polys', None) else I.pyobj(BType('Polynomial'))
  m = {'none': 'NoneType', 'notimpl': 'NotImplementedType', 'iter': 'iterator', 'func': 'function',
       'bound': 'function', 'builtin': 'function', 'boundname': 'function', 'class': 'type',
       'btype': 'type', 'module': 'module'}
  n = m.get(k, k)
  if n in I.btypes:
    return I.btypes[n]
  if k == 'model':
    return I.btypes['type']
  if isinstance(v.sort, tuple) and v.sort[0] == 'opaque':
    return opaque_class(I, v.sort[1])
  if k == 'exc':
    return I.btypes.get(v.args[0], I.btypes['Exception'])
  if isinstance(v.sort, tuple) and v.sort[0] == 'fun':
    return I.btypes['function']
  raise Unsupported('type of a %s value' % (k,))


def opaque_class(I, name):
  d = I.__dict__.setdefault('_opaque', {})
  if name not in d:
    d[name] = I.pyobj(BType(name, (I.btypes['object'],)))
  return d[name]


def isinstance_(I, st, v, c):
  if I.is_ite(v):
    return I.split(st, v, lambda s, x: isinstance_(I, s, x, c))
  if c.op == 'tup':
    r = FALSE
    for x in c.args:
      r = bor(r, isinstance_(I, st, v, x))
    return r
  if I.is_ite(c):
    return I.split(st, c, lambda s, x: isinstance_(I, s, v, x))
  o = I.obj(c)
  if o is None:
    raise Unsupported('isinstance with a non-class')
  if o.kind == 'model':
    if isinstance(o, FieldModel):
      return T.truth(v.sort == 'ring')
    if isinstance(o, PolyFactory):
      return T.truth(v.sort == 'poly')
    return FALSE
  if v.sort == 'any':
    raise Unsupported('isinstance of an unknown value')
  if v.sort in ('ring', 'poly') and o.kind == 'class':
    if o.name in ('FieldElement', 'DomainElement'):
      return T.truth(v.sort == 'ring' or o.name == 'DomainElement')
    if o.name == 'Poly':
      return T.truth(v.sort == 'poly')
    if o.name == '_Modular':
      return T.truth(v.sort == 'ring' and I.field is not None and I.field.prime)
    return FALSE
  cls = class_of(I, st, v)
  return T.truth(c in I.mro(cls) or c is I.btypes['object'])


# ----------------------------------------------------------------------
# truth, identity, comparison

def truth(I, st, v):
  s = v.sort
  if v.op == 'py':
    return TRUE
  if v.op in ('c',) and s in ('none',):
    return FALSE
  if s == 'notimpl':
    return TRUE
  c = I.inst_class(st, v)
  if c is not None:
    f = I.class_attr(c, '__bool__')
    if f is not None:
      return I.truth(st, I.call(st, f, [v], {}))
    f = I.class_attr(c, '__len__')
    if f is not None:
      return I.truth(st, I.call(st, f, [v], {}))
    return TRUE
  if s == 'int':
    return bnot(T.is_zero(v))
  if s == 'ring':
    return TRUE      # field elements define neither __bool__ nor __len__
  if s == 'poly':
    return bnot(T.is_zero(v))
  if s == 'float':
    return fl(I, 'ne', v, const(0.0)) if v.op != 'c' else T.truth(bool(T.cval(v)))
  k = I.kind(st, v)
  if k in ('list', 'tuple', 'dict', 'set'):
    return bnot(T.is_zero(T.length(I.seq_of(st, v))))
  if s in ('bytes', 'str'):
    return bnot(T.is_zero(T.length(v)))
  if k == 'iter':
    return TRUE
  return T.fn('truthy', (I.freeze(st, v),), 'bool')


DEFINITE = ('int', 'bool', 'ring', 'poly', 'bytes', 'str', 'tup', 'float', 'py', 'ref')


def same_object(a, b):
  """Equal numbers and strings are one object only where the language keeps one: small integers, literals, the empty
  string. Elsewhere two equal ones may or may not be one object."""
  equal = T.eq(a, b)
  if equal is FALSE or a.op == 'c' and b.op == 'c' and a.sort == 'str':
    return equal
  x, y = sorted((a, b), key=lambda t: t.serial)
  one = T.fn('one_object', (x, y), 'bool')
  if a.sort == 'int':
    for t in (a, b):
      if t.op == 'c':
        return equal if -5 <= t.args[1] <= 256 else band(equal, one)
    return band(equal, bor(band(T.le(const(-5), a), T.le(a, const(256))), one))
  return band(equal, one)


def is_(I, st, a, b):
  if a is b:
    return TRUE
  if I.is_ite(a):
    return T.ite(a.args[0], is_(I, st, a.args[1], b), is_(I, st, a.args[2], b))
  if I.is_ite(b):
    return T.ite(b.args[0], is_(I, st, a, b.args[1]), is_(I, st, a, b.args[2]))
  for x, y in ((a, b), (b, a)):
    if x.op == 'c' and x.sort in ('none', 'notimpl'):
      if y.sort in DEFINITE or isinstance(y.sort, tuple) or y.op == 'c':
        return FALSE
      return T.eq(x, y)
  if a.op == 'py' and b.op == 'py':
    return FALSE
  if a.op == 'py' or b.op == 'py':
    if a.sort != 'any' and b.sort != 'any':
      return FALSE
  if a.op == 'ref' and b.op == 'ref':
    return FALSE
  if a.sort == 'bool' and b.sort == 'bool':
    return T.eq(a, b)
  if a.sort == b.sort and a.sort in ('int', 'str', 'bytes'):
    return same_object(a, b)
  if a.sort in ('bool',) and b.sort != 'any' or b.sort == 'bool' and a.sort != 'any':
    return FALSE
  return T.fn('is', (I.freeze(st, a), I.freeze(st, b)), 'bool')


PLAIN = ('int', 'bool', 'ring', 'poly', 'bytes', 'str', 'none')


def plain_sort(s):
  if s in PLAIN:
    return True
  if isinstance(s, tuple) and s[0] in ('seq', 'dict'):
    return plain_sort(s[1])
  return False


def eq_values(I, st, a, b):
  """a == b as a proposition."""
  if I.is_ite(a):
    return I.split(st, a, lambda s, x: eq_values(I, s, x, b))
  if I.is_ite(b):
    return I.split(st, b, lambda s, x: eq_values(I, s, a, x))
  ca, cb = I.inst_class(st, a), I.inst_class(st, b)
  if ca is not None or cb is not None:
    for x, y, c in ((a, b, ca), (b, a, cb)):
      if c is not None:
        f = I.class_attr(c, '__eq__')
        if f is not None:
          r = I.call(st, f, [x, y], {})
          if r is NOTIMPL:
            continue
          if contains_notimpl(r):
            r = I.split(st, r, lambda s, z: eq_identity(I, s, a, b) if z is NOTIMPL else z)
          return I.truth(st, r)
    return eq_identity(I, st, a, b)
  if T.is_arith(a) and T.is_arith(b):
    return T.eq(a, b)
  if a.sort == 'float' or b.sort == 'float':
    if (a.sort == 'float' or T.is_arith(a)) and (b.sort == 'float' or T.is_arith(b)):
      return fl(I, 'eq', a, b)
    return FALSE
  if a.op == 'py' or b.op == 'py':
    if a is b:
      return TRUE
    return FALSE if a.sort != 'any' and b.sort != 'any' else T.eq(a, b)
  ka, kb = I.kind(st, a), I.kind(st, b)
  if ka in ('list', 'tuple') and kb in ('list', 'tuple'):
    if ka != kb:
      return FALSE
    sa, sb = I.seq_of(st, a), I.seq_of(st, b)
    return eq_seqs(I, st, sa, sb)
  if ka in ('dict', 'set') and kb in ('dict', 'set'):
    if ka != kb:
      return FALSE
    return T.deq(I.freeze(st, I.dict_of(st, a)), I.freeze(st, I.dict_of(st, b)))
  if ka in ('list', 'tuple', 'dict', 'set') or kb in ('list', 'tuple', 'dict', 'set'):
    if 'any' not in (ka, kb):
      return FALSE
  return T.eq(I.freeze(st, a), I.freeze(st, b))


def eq_seqs(I, st, sa, sb):
  if sa is sb:
    return TRUE
  if sa.op == 'ite':
    return I.branch(st, sa.args[0], lambda s: eq_seqs(I, s, sa.args[1], sb),
                    lambda s: eq_seqs(I, s, sa.args[2], sb))
  if sb.op == 'ite':
    return I.branch(st, sb.args[0], lambda s: eq_seqs(I, s, sa, sb.args[1]),
                    lambda s: eq_seqs(I, s, sa, sb.args[2]))
  le = T.eq(T.length(sa), T.length(sb))
  if le is FALSE:
    return FALSE
  if sa.op == 'lit' and sb.op == 'lit':
    r = TRUE
    for x, y in reversed(list(zip(sa.args, sb.args))):
      r = band(eq_values(I, st, x, y), r)
    return r
  fa, fb = I.freeze(st, sa), I.freeze(st, sb)
  if fa is fb:
    return TRUE
  if plain_sort(T.elem_sort(fa)) and plain_sort(T.elem_sort(fb)):
    r = T.eq(fa, fb)
    if r.op != 'eqv' or sa.op in ('sym', 'bv') or sb.op in ('sym', 'bv'):
      return r
    return r
  if T.elem_sort(fa) in ('any', 'tup') or T.elem_sort(fb) in ('any', 'tup'):
    return T.eq(fa, fb)
  n = T.length(fa)
  def both(s):
    i = T.fresh_index(n)
    return T.sall(n, T.close(eq_values(I, s, T.at(fa, i), T.at(fb, i)), [i]))
  return I.branch(st, le, both, lambda s: FALSE)


def eq_identity(I, st, a, b):
  if a is b:
    return TRUE
  if a.op == 'ref' and b.op == 'ref':
    return FALSE
  if a.sort != b.sort:
    return FALSE
  return T.fn('is', (I.freeze(st, a), I.freeze(st, b)), 'bool')


def contains_notimpl(r):
  return r is NOTIMPL or (r.op == 'ite' and (contains_notimpl(r.args[1]) or contains_notimpl(r.args[2])))


def compare(I, st, op, a, b):
  if isinstance(op, ast.Eq):
    return eq_values(I, st, a, b)
  if isinstance(op, ast.NotEq):
    for x, y in ((a, b), (b, a)):
      c = I.inst_class(st, x)
      if c is not None:
        f = I.class_attr(c, '__ne__')
        if f is not None:
          r = I.call(st, f, [x, y], {})
          if r is NOTIMPL:
            continue
          if contains_notimpl(r):
            r = I.split(st, r, lambda s, z: bnot(eq_identity(I, s, a, b)) if z is NOTIMPL else z)
          return r if r.sort == 'bool' else r
    return bnot(eq_values(I, st, a, b))
  names = {ast.Lt: ('__lt__', '__gt__'), ast.Gt: ('__gt__', '__lt__'), ast.LtE: ('__le__', '__ge__'),
           ast.GtE: ('__ge__', '__le__')}[type(op)]
  ca, cb = I.inst_class(st, a), I.inst_class(st, b)
  if ca is not None or cb is not None:
    for x, y, c, n in ((a, b, ca, names[0]), (b, a, cb, names[1])):
      if c is not None:
        f = I.class_attr(c, n)
        if f is not None:
          r = I.call(st, f, [x, y], {})
          if r is not NOTIMPL:
            return r
    I.raise_(st, 'TypeError')
  if a.sort in ('int', 'bool') and b.sort in ('int', 'bool'):
    if isinstance(op, ast.Lt):
      return T.lt(a, b)
    if isinstance(op, ast.Gt):
      return T.lt(b, a)
    if isinstance(op, ast.LtE):
      return T.le(a, b)
    return T.le(b, a)
  if a.sort in ('int', 'bool', 'float') and b.sort in ('int', 'bool', 'float'):
    return fl(I, {ast.Lt: 'lt', ast.Gt: 'gt', ast.LtE: 'le', ast.GtE: 'ge'}[type(op)], a, b)
  if a.sort in ('ring', 'poly', 'none') or b.sort in ('ring', 'poly', 'none'):
    I.raise_(st, 'TypeError')
  fa, fb = I.freeze(st, a), I.freeze(st, b)
  if fa.op == 'c' and fb.op == 'c' and fa.sort == fb.sort:
    x, y = T.cval(fa), T.cval(fb)
    return T.truth({ast.Lt: x < y, ast.Gt: x > y, ast.LtE: x <= y, ast.GtE: x >= y}[type(op)])
  if isinstance(op, ast.Lt):
    return T.fn('lt', (fa, fb), 'bool')
  if isinstance(op, ast.Gt):
    return T.fn('lt', (fb, fa), 'bool')
  if isinstance(op, ast.LtE):
    return bnot(T.fn('lt', (fb, fa), 'bool'))
  return bnot(T.fn('lt', (fa, fb), 'bool'))


def fl(I, op, *args):
  """Floating point operation."""
  if all(a.op == 'c' for a in args):
    vals = [T.cval(a) for a in args]
    try:
      r = {'add': lambda: vals[0] + vals[1], 'sub': lambda: vals[0] - vals[1],
           'mul': lambda: vals[0] * vals[1], 'truediv': lambda: vals[0] / vals[1],
           'neg': lambda: -vals[0], 'lt': lambda: vals[0] < vals[1], 'gt': lambda: vals[0] > vals[1],
           'le': lambda: vals[0] <= vals[1], 'ge': lambda: vals[0] >= vals[1],
           'eq': lambda: vals[0] == vals[1], 'ne': lambda: vals[0] != vals[1],
           'pow': lambda: vals[0]**vals[1], 'mod': lambda: vals[0] % vals[1],
           'fdiv': lambda: vals[0] // vals[1]}[op]()
      return const(r)
    except (ArithmeticError, KeyError):
      pass
  sort = 'bool' if op in ('lt', 'gt', 'le', 'ge', 'eq', 'ne') else 'float'
  if op == 'gt':
    return fl(I, 'lt', args[1], args[0])
  if op == 'ge':
    return fl(I, 'le', args[1], args[0])
  if op == 'ne':
    return bnot(fl(I, 'eq', *args))
  return T.fn('f.' + op, tuple(args), sort)


def contains(I, st, c, x):
  if I.is_ite(c):
    return I.split(st, c, lambda s, y: contains(I, s, y, x))
  k = I.kind(st, c)
  if k == 'inst':
    f = I.find_attr(st, c, '__contains__')
    if f is not None:
      return I.truth(st, I.call(st, f, [c, x], {}))
    seq = iter_seq(I, st, c)
    return seq_contains(I, st, seq, x)
  if k in ('dict', 'set'):
    return T.dhas(I.dict_of(st, c), I.key(st, x))
  if k in ('list', 'tuple', 'iter'):
    return seq_contains(I, st, I.seq_of(st, c), x)
  if k == 'str' or k == 'bytes':
    if c.op == 'c' and x.op == 'c':
      return T.truth(T.cval(x) in T.cval(c))
    return T.fn('substr', (x, c), 'bool')
  raise Unsupported('in %s' % (k,))


def seq_contains(I, st, seq, x):
  if seq.op == 'lit':
    r = FALSE
    for e in reversed(seq.args):
      r = bor(eq_values(I, st, e, x), r)
    return r
  n = T.length(seq)
  i = T.fresh_index(n)
  e = eq_values(I, st, T.at(seq, i), x)
  return T.sany(n, T.close(e, [i]))


# ----------------------------------------------------------------------
# binary operators

def binop(I, st, op, a, b):
  ta = type(op)
  if T.is_arith(a) and T.is_arith(b):
    return arith(I, st, ta, a, b)
  ca, cb = I.inst_class(st, a), I.inst_class(st, b)
  if ca is not None or cb is not None:
    return dunder_binop(I, st, op, a, b, ca, cb)
  if (a.sort == 'float' or b.sort == 'float') and a.sort in ('int', 'bool', 'float') and \
      b.sort in ('int', 'bool', 'float'):
    n = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.Pow: 'pow',
         ast.Mod: 'mod', ast.FloorDiv: 'fdiv'}.get(ta)
    if n is None:
      I.raise_(st, 'TypeError')
    return fl(I, n, a, b)
  if a.sort == 'str':
    if ta is ast.Mod:
      return T.fn('strformat', (a, I.freeze(st, b)), 'str')
    if ta is ast.Add:
      if b.sort != 'str':
        I.raise_(st, 'TypeError')
      return str_cat([a, b])
    if ta is ast.Mult and b.sort in ('int', 'bool'):
      if a.op == 'c' and b.op == 'c':
        return const(T.cval(a) * T.cval(b))
      return T.fn('strrep', (a, b), 'str')
  if b.sort == 'str' and ta is ast.Mult and a.sort in ('int', 'bool'):
    return binop(I, st, op, b, a)
  if a.sort == 'bytes' and b.sort == 'bytes' and ta is ast.Add:
    return T.bcat([a, b])
  if a.sort == 'bytes' and ta is ast.Mult and b.sort in ('int', 'bool'):
    if a.op == 'c' and b.op == 'c':
      return const(T.cval(a) * T.cval(b))
    return T.bjoin(const(b''), T.smap(b, T.shift(a, 1)))
  if a.sort == 'bytes' and ta is ast.Mod:
    return T.fn('bytesformat', (a, I.freeze(st, b)), 'bytes')
  for x in (a, b):
    if x.op == 'py' and I.obj(x).kind in ('btype', 'class', 'builtin', 'model'):
      if ta is ast.BitOr:
        return I.btypes['object']
      I.raise_(st, 'TypeError')
  ka, kb = I.kind(st, a), I.kind(st, b)
  if ka in ('list', 'tuple') and ta is ast.Add:
    if ka != kb:
      I.raise_(st, 'TypeError')
    sa, sb = I.seq_of(st, a), I.seq_of(st, b)
    s = T.cat([sa, sb])
    if s.op != 'lit' and IP.has_ref(s):
      s = I.freeze(st, s)
    return I.alloc(st, ('list', s)) if ka == 'list' else I.mktuple(st, s)
  if ka in ('list', 'tuple') and ta is ast.Mult and b.sort in ('int', 'bool'):
    s = repeat(I, st, I.seq_of(st, a), b)
    return I.alloc(st, ('list', s)) if ka == 'list' else I.mktuple(st, s)
  if kb in ('list', 'tuple') and ta is ast.Mult and a.sort in ('int', 'bool'):
    return binop(I, st, op, b, a)
  if ka == 'set' and kb == 'set':
    m = {ast.BitOr: 'union', ast.BitAnd: 'intersection', ast.Sub: 'difference',
         ast.BitXor: 'symmetric_difference'}.get(ta)
    if m:
      return method(I, st, a, m, [b], {})
  if ka == 'dict' and kb == 'dict' and ta is ast.BitOr:
    return I.alloc(st, ('dict', T.dupdate(I.dict_of(st, a), I.dict_of(st, b))))
  if 'any' in (ka, kb):
    for x, y in ((a, b), (b, a)):
      # an entry beyond the end of a literal sequence, under conditions that exclude each other
      if y.sort in T.ARITH:
        sort = 'int' if y.sort == 'bool' else y.sort
        if x.op == 'fn' and x.args[0] == 'indexerror':
          return T.fn('indexerror', x.args[1], sort)
        if x.op == 'at' and x.args[0].op == 'lit' and not x.args[0].args:
          return T.fn('indexerror', x.args, sort)
    raise Unsupported('operator on an unknown value')
  I.raise_(st, 'TypeError')


def repeat(I, st, s, n):
  if n.op == 'c':
    k = max(0, int(T.cval(n)))
    if k <= 64 or s.op == 'lit' and not s.args:
      return T.cat([s] * k)
  n = T.max0(n)
  if s.op == 'lit' and len(s.args) == 1:
    e = s.args[0]
    if IP.has_ref(e):
      raise Unsupported('repetition of a shared object')
    return T.smap(n, T.shift(e, 1))
  return T.flat(n, T.shift(I.freeze(st, s), 1))


def arith(I, st, ta, a, b):
  s = T.join_sort(a.sort, b.sort)
  if ta is ast.Add:
    return T.add(a, b)
  if ta is ast.Sub:
    return T.sub(a, b)
  if ta is ast.Mult:
    return T.mul(a, b)
  if s == 'int':
    if a.sort == 'bool' and b.sort == 'bool' and ta in (ast.BitAnd, ast.BitOr, ast.BitXor):
      if ta is ast.BitAnd:
        return band(a, b)
      if ta is ast.BitOr:
        return bor(a, b)
      return T.ite(a, bnot(b), b)
    if a.sort == 'bool':
      a = T.cast(a, 'int')
    if b.sort == 'bool':
      b = T.cast(b, 'int')
    if ta is ast.Div:
      I.primitive_error(st, T.is_zero(b), 'ZeroDivisionError')
      if a.op == 'c' and b.op == 'c' and T.cval(b):
        return const(T.cval(a) / T.cval(b))
      return T.fn('f.truediv', (a, b), 'float')
    if ta is ast.FloorDiv or ta is ast.Mod:
      I.primitive_error(st, T.is_zero(b), 'ZeroDivisionError')
      I.oblige(st, bnot(T.is_zero(b)), 'ZeroDivisionError')
      return T.fdiv(a, b) if ta is ast.FloorDiv else T.mod(a, b)
    if ta is ast.Pow:
      if not T.nonneg(b):
        if b.op == 'c' and T.cval(b) < 0:
          return T.fn('f.pow', (a, b), 'float')
        if not (a.op == 'c' and False):
          return T.power(a, b)
      return T.power(a, b)
    if ta is ast.LShift:
      return T.mul(a, T.power(const(2), b))
    if ta is ast.RShift:
      return T.fdiv(a, T.power(const(2), b))
    if ta is ast.BitAnd:
      return T.fn('and', (a, b), 'int')
    if ta is ast.BitOr:
      return T.fn('or', (a, b), 'int')
    if ta is ast.BitXor:
      return T.fn('xor', (a, b), 'int')
  if s == 'ring':
    if ta is ast.Div:
      bb = T.cast(b, 'ring')
      I.primitive_error(st, T.is_zero(bb), 'ZeroDivisionError')
      I.oblige(st, bnot(T.is_zero(bb)), 'ZeroDivisionError')
      return T.mul(T.cast(a, 'ring'), T.inv(bb))
    if ta is ast.Pow:
      if b.sort not in ('int', 'bool'):
        I.raise_(st, 'TypeError')
      return T.power(a, b)
  if s == 'poly':
    if ta is ast.Div or ta is ast.FloorDiv:
      return T.fdiv(T.cast(a, 'poly'), T.cast(b, 'poly'))
    if ta is ast.Mod:
      return T.mod(T.cast(a, 'poly'), T.cast(b, 'poly'))
    if ta is ast.Pow and b.sort in ('int', 'bool'):
      return T.power(a, b)
  I.raise_(st, 'TypeError')


def precedence(I, st, v):
  c = class_of(I, st, v)
  o = I.obj(c)
  if o.kind == 'class':
    return I.class_attr(c, 'operatorPrecedence')
  if o.kind == 'model':
    return o.attrs.get('operatorPrecedence') if hasattr(o, 'attrs') else o.get(I, st, 'operatorPrecedence')
  return None


def dunder_binop(I, st, op, a, b, ca, cb):
  n, rn = DUNDER[type(op)], RDUNDER[type(op)]

  def reflected(s):
    if cb is not None:
      f = I.class_attr(cb, rn)
      if f is not None:
        r = I.call(s, f, [b, a], {})
        if r is NOTIMPL:
          I.raise_(s, 'TypeError')
        if contains_notimpl(r):
          return I.split(s, r, lambda q, z: I.raise_(q, 'TypeError') if z is NOTIMPL else z)
        return r
    if T.is_arith(b) and ca is not None and b.sort in ('ring', 'poly'):
      return model_reflected(I, s, op, a, b)
    I.raise_(s, 'TypeError')

  if ca is not None:
    f = I.class_attr(ca, n)
    if f is not None:
      r = I.call(st, f, [a, b], {})
      if r is NOTIMPL:
        return reflected(st)
      if contains_notimpl(r):
        return I.split(st, r, lambda s, z: reflected(s) if z is NOTIMPL else z)
      return r
    return reflected(st)
  if a.sort in ('ring', 'poly'):
    # a model element: converts lower precedence operands, defers to higher ones
    pb = precedence(I, st, b)
    pa = precedence(I, st, a)
    if pb is not None and pa is not None:
      return I.branch(st, T.lt(pa, pb), reflected, lambda s: I.raise_(s, 'TypeError'))
    I.raise_(st, 'TypeError')
  return reflected(st)


def model_reflected(I, st, op, a, b):
  I.raise_(st, 'TypeError')


# ----------------------------------------------------------------------
# subscripts

def norm_index(I, st, n, i, what):
  """An index in [0, n), with Python's negative convention."""
  if i.op == 'c':
    k = int(T.cval(i))
    if k < 0:
      return T.add(n, i)
    return i
  if T.nonneg(i):
    return i
  if T.positive(T.neg(i)):
    return T.add(n, i)
  return T.ite(T.gt0(T.neg(i)), T.add(n, i), i)


def in_bounds(I, st, n, j):
  return band(T.le(const(0), j), T.lt(j, n))


def getitem(I, st, obj, key):
  k = I.kind(st, obj)
  if k == 'inst':
    return I.call_dunder(st, obj, '__getitem__', [slice_value(I, st, key)])
  if k in ('dict',):
    d = I.dict_of(st, obj)
    kk = I.key(st, key)
    I.primitive_error(st, bnot(T.dhas(d, kk)), 'KeyError')
    v = T.dget(d, kk)
    return I.interior(st, obj if obj.op in ('ref', 'iref') else None, kk, v)
  if obj.op == 'py':
    o = I.obj(obj)
    if hasattr(o, 'getitem'):
      return o.getitem(I, st, key)
    return obj
  if isinstance(key, tuple) and key[0] == 'slice':
    lo, hi, step = key[1:]
    none = lambda x: None if x is None or x is NONE else x
    lo, hi, step = none(lo), none(hi), none(step)
    if obj.sort in ('bytes',):
      return T.bslice(obj, lo, hi, step)
    if obj.sort == 'str':
      return str_slice(obj, lo, hi, step)
    if k in ('list', 'tuple'):
      s = T.slice_(I.seq_of(st, obj), lo, hi, step)
      if s.op != 'lit' and IP.has_ref(s):
        s = I.freeze(st, s)
      return I.alloc(st, ('list', s)) if k == 'list' else I.mktuple(st, s)
    raise Unsupported('slice of %s' % (k,))
  if key.sort == 'bool':
    key = T.cast(key, 'int')
  if key.sort == 'float':
    I.raise_(st, 'TypeError')
  if obj.sort == 'str':
    return str_at(I, st, obj, key)
  if obj.sort == 'bytes':
    if obj.op == 'c' and key.op == 'c':
      try:
        return const(T.cval(obj)[T.cval(key)])
      except IndexError:
        I.raise_(st, 'IndexError')
    return T.fn('byteat', (obj, key), 'int')
  if k in ('list', 'tuple'):
    if key.sort != 'int':
      if key.sort == 'any':
        raise Unsupported('index of unknown type')
      I.raise_(st, 'TypeError')
    seq = I.seq_of(st, obj)
    n = T.length(seq)
    j = norm_index(I, st, n, key, obj)
    ok = in_bounds(I, st, n, j)
    if ok is not TRUE:
      I.primitive_error(st, bnot(ok), 'IndexError')
      I.oblige(st, ok, 'IndexError')
    if seq.op in ('lit', 'tup') and j.op != 'c' and IP.has_ref(seq):
      if len(seq.args) > 16:
        raise Unsupported('choice among many objects')
      v = seq.args[-1]
      for m in range(len(seq.args) - 2, -1, -1):
        v = T.ite(T.eq(j, const(m)), seq.args[m], v)
      return v
    v = T.at(seq, j)
    if k == 'tuple':
      return v
    return I.interior(st, obj if obj.op in ('ref', 'iref') else None, j, v)
  if k == 'any' or obj.sort in ('any', 'ref'):
    raise Unsupported('subscript of an unknown value')
  I.raise_(st, 'TypeError')


def slice_value(I, st, key):
  if isinstance(key, tuple):
    raise Unsupported('slice object')
  return key


def setitem(I, st, obj, key, v):
  k = I.kind(st, obj)
  if k == 'inst':
    return I.call_dunder(st, obj, '__setitem__', [key, v])
  if k == 'dict':
    d = I.dict_of(st, obj)
    if IP.has_ref(v) and (d.op not in ('dempty', 'dset', 'ite')):
      v = I.freeze(st, v)
    I.store_dict(st, obj, T.dset(d, I.key(st, key), v))
    return NONE
  if k == 'list':
    seq = I.seq_of(st, obj)
    if isinstance(key, tuple):
      lo, hi, step = key[1:]
      if step is not None:
        raise Unsupported('extended slice assignment')
      new = I.freeze(st, I.iter_seq(st, v))
      n = T.length(seq)
      pre = T.slice_(seq, None, lo, None) if lo is not None else T.lit(())
      post = T.slice_(seq, hi, None, None) if hi is not None else T.lit(())
      I.store_seq(st, obj, T.cat([pre, new, post]))
      return NONE
    n = T.length(seq)
    if key.sort == 'bool':
      key = T.cast(key, 'int')
    if key.sort != 'int':
      I.raise_(st, 'TypeError')
    j = norm_index(I, st, n, key, obj)
    ok = in_bounds(I, st, n, j)
    if ok is not TRUE:
      I.primitive_error(st, bnot(ok), 'IndexError')
      I.oblige(st, ok, 'IndexError')
    if not (seq.op == 'lit' and j.op == 'c') and IP.has_ref(v):
      v = I.freeze(st, v)
    if not (seq.op == 'lit' and j.op == 'c') and IP.has_ref(seq):
      seq = I.freeze(st, seq)
    I.store_seq(st, obj, T.upd(seq, j, v))
    return NONE
  I.raise_(st, 'TypeError')


# ----------------------------------------------------------------------
# lists

def list_append(I, st, ref, v):
  def one(s, r):
    seq = I.seq_of(s, r)
    x = v
    if seq.op != 'lit' or len(seq.args) > 4096:
      x = I.freeze(s, x)
      if IP.has_ref(seq):
        seq = I.freeze(s, seq)
    I.store_seq(s, r, T.cat([seq, T.lit([x])]))
    return NONE
  if I.is_ite(ref):
    return I.split(st, ref, one)
  return one(st, ref)


def list_extend(I, st, ref, v):
  new = I.iter_seq(st, v)
  seq = I.seq_of(st, ref)
  if seq.op != 'lit' or new.op != 'lit':
    new, seq = I.freeze(st, new), I.freeze(st, seq)
  I.store_seq(st, ref, T.cat([seq, new]))
  return NONE


def iter_seq(I, st, v):
  if I.is_ite(v):
    c, a, b = v.args
    # evaluated for its sequence only
    return I.branch(st, c, lambda s: iter_seq(I, s, a), lambda s: iter_seq(I, s, b))
  k = I.kind(st, v)
  if k in ('list', 'tuple', 'dict', 'set'):
    return I.seq_of(st, v)
  if k == 'iter':
    p = I.cell(st, v)
    s = T.slice_(p[1], p[2], None, None)
    I.put(st, v, ('iter', p[1], T.length(p[1])))
    return s
  if k == 'inst':
    f = I.find_attr(st, v, '__iter__')
    if f is not None:
      return iter_seq(I, st, I.call(st, f, [v], {}))
    f = I.find_attr(st, v, '__getitem__')
    I.raise_(st, 'TypeError')
  if k == 'str':
    if v.op == 'c':
      return T.lit([const(x) for x in T.cval(v)])
    n = T.length(v)
    i = T.fresh_index(n)
    return T.smap(n, T.close(T.fn('strat', (v, i), 'str'), [i]))
  if k == 'bytes':
    if v.op == 'c':
      return T.lit([const(x) for x in T.cval(v)])
    n = T.blen(v)
    i = T.fresh_index(n)
    return T.smap(n, T.close(T.fn('byteat', (v, i), 'int'), [i]))
  if k == 'model':
    o = I.obj(v)
    if hasattr(o, 'iter_seq'):
      return o.iter_seq(I, st)
    I.raise_(st, 'TypeError')
  if k == 'poly':
    return T.fn('coeffs', (v,), ('seq', 'ring'))
  if k == 'any':
    raise Unsupported('iteration over an unknown value')
  I.raise_(st, 'TypeError')


# ----------------------------------------------------------------------
# strings

def str_cat(parts):
  out = []
  for p in parts:
    if p.op == 'fn' and p.args[0] == 'strcat':
      out.extend(p.args[1])
    else:
      out.append(p)
  m = []
  for p in out:
    if p.op == 'c' and T.cval(p) == '':
      continue
    if m and p.op == 'c' and m[-1].op == 'c':
      m[-1] = const(T.cval(m[-1]) + T.cval(p))
    else:
      m.append(p)
  if not m:
    return const('')
  if len(m) == 1:
    return m[0]
  return mk('fn', ('strcat', tuple(m)), 'str')


def _strcat(args, sort):
  return str_cat(list(args))


T.FN_SIMPL['strcat'] = _strcat


def _parseint(args, sort):
  x, base = args
  if base.op != 'c' or not 2 <= T.cval(base) <= 10 or x.sort != 'str':
    return None
  b = T.cval(base)
  r = const(0)
  for p in (x.args[1] if x.op == 'fn' and x.args[0] == 'strcat' else (x,)):
    if p.op == 'c' and T.cval(p) and all(c.isascii() and c.isdigit() and int(c) < b for c in T.cval(p)):
      k = len(T.cval(p))
      r = T.add(T.mul(r, const(b**k)), const(int(T.cval(p), b)))
    elif p.op == 'fn' and p.args[0] == 'str' and p.args[1][0].sort == 'int' and T.in_range(p.args[1][0], base):
      r = T.add(T.mul(r, base), p.args[1][0])
    else:
      return None
  return r


T.FN_SIMPL['parseint'] = _parseint


def bit_of(m, k, i):
  """binary digit i, the highest first, of the natural m written with k digits"""
  return T.mod(T.fdiv(m, T.power(const(2), T.sub(T.sub(k, const(1)), i))), const(2))


def _zfill(args, sort):
  """bin(m)[2:].zfill(k) for a natural m below 2**k"""
  s, k = args
  if s.op == 'fn' and s.args[0] == 'strslice':
    b, lo, hi, step = s.args[1]
    if b.op == 'fn' and b.args[0] == 'bin' and lo is const(2) and hi is NONE and step is NONE:
      m = b.args[1][0]
      if T.positive(k) and T.in_range(m, T.power(const(2), k)):
        return T.fn('bits', (m, k), 'str')
  return None


def _strat(args, sort):
  s, i = args
  if s.op == 'fn' and s.args[0] == 'bits':
    m, k = s.args[1]
    if T.nonneg(i) and T.positive(T.sub(k, i)):
      return T.fn('str', (bit_of(m, k, i),), 'str')
  return None


def _joinint(args, sort):
  """the number whose binary digits are joined"""
  r = _parseint(args, sort)
  if r is not None:
    return r
  x, base = args
  if x.op == 'fn' and x.args[0] == 'bits' and base is const(2):
    return x.args[1][0]
  if x.op != 'fn' or x.args[0] != 'strjoin' or base is not const(2) or x.args[1][0] is not const(''):
    return None
  s = x.args[1][1]
  if s.op != 'map' or not (s.args[1].op == 'fn' and s.args[1].args[0] == 'str'):
    return None
  k = s.args[0]
  if not T.positive(k):
    return None
  i = T.fresh_index(k)
  d = T.subst_bv(s.args[1], (i,)).args[1][0]
  # the last digit gives the number
  last = T.subst_bv(s.args[1], (T.sub(k, const(1)),)).args[1][0]
  for y in list(T.to_poly(last)):
    if len(y) == 1 and y[0][1] == 1:
      z = y[0][0]
      m = z.args[0] if z.op == 'fd' and z.args[1] is const(2) else z
      if m.sort == 'int' and T.nonneg(m) and d is bit_of(m, k, i):
        return T.mod(m, T.power(const(2), k))
  return None


T.FN_SIMPL['str.zfill'] = _zfill
T.FN_SIMPL['strat'] = _strat
T.FN_SIMPL['parseint'] = _joinint


def _strformat(args, sort):
  f, v = args
  if f.op == 'c':
    vs = v.args if v.op == 'tup' else (v,)
    if all(x.op == 'c' for x in vs):
      try:
        return const(T.cval(f) % tuple(T.cval(x) for x in vs))
      except (TypeError, ValueError):
        return None
    # %s with strings and %d with integers become concatenations
    parts = []
    rest = T.cval(f)
    k = 0
    while True:
      j = rest.find('%')
      if j < 0:
        break
      spec = rest[j + 1:j + 2]
      if spec not in ('s', 'd') or k >= len(vs):
        return None
      parts.append(const(rest[:j]))
      x = vs[k]
      if spec == 's' and x.sort == 'str':
        parts.append(x)
      elif x.sort == 'int':
        parts.append(T.fn('str', (x,), 'str'))
      else:
        return None
      k += 1
      rest = rest[j + 2:]
    if k != len(vs):
      return None
    parts.append(const(rest))
    return str_cat(parts)
  return None


T.FN_SIMPL['strformat'] = _strformat


def _bytesformat(args, sort):
  f, v = args
  if f.op != 'c':
    return None
  b = T.cval(f)
  vs = v.args if v.op == 'tup' else (v,)
  if all(x.op == 'c' for x in vs):
    try:
      return const(b % tuple(T.cval(x) for x in vs))
    except (TypeError, ValueError):
      return None
  specs = [b[j + 1:j + 2] for j in range(len(b)) if b[j:j + 1] == b'%']
  if len(specs) != len(vs) or not b.isascii():
    return None
  if all(s == b'd' and x.sort in ('int', 'bool') for s, x in zip(specs, vs)):
    return T.fn('encode', (T.fn('strformat', (const(b.decode('ascii')), v), 'str'),), 'bytes')
  if all(s in (b's', b'b') and x.sort == 'bytes' for s, x in zip(specs, vs)):
    parts = []
    for x in vs:
      j = b.index(b'%')
      parts += [const(b[:j]), x]
      b = b[j + 2:]
    return T.bcat(parts + [const(b)])
  return None


T.FN_SIMPL['bytesformat'] = _bytesformat


def _str_of(args, sort):
  x, = args
  if x.op == 'c' and x.sort in ('int', 'str', 'bool', 'none', 'float', 'bytes'):
    return const(str(T.cval(x)))
  if x.sort == 'str':
    return x
  return None


T.FN_SIMPL['str'] = _str_of


def to_str(I, st, v, conv=-1, spec=None):
  if spec is not None or conv not in (-1, 115):
    return T.fn('format', (I.freeze(st, v), spec if spec is not None else NONE, const(conv)), 'str')
  if v.sort == 'str':
    return v
  c = I.inst_class(st, v)
  if c is not None:
    for n in ('__str__', '__repr__'):
      f = I.class_attr(c, n)
      if f is not None:
        return I.call(st, f, [v], {})
  return T.fn('str', (I.freeze(st, v),), 'str')


def str_slice(s, lo, hi, step):
  if s.op == 'c' and all(x is None or x.op == 'c' for x in (lo, hi, step)):
    return const(T.cval(s)[slice(*[None if x is None else T.cval(x) for x in (lo, hi, step)])])
  return T.fn('strslice', (s, lo or NONE, hi or NONE, step or NONE), 'str')


def str_at(I, st, s, i):
  if s.op == 'c' and i.op == 'c':
    try:
      return const(T.cval(s)[T.cval(i)])
    except IndexError:
      I.raise_(st, 'IndexError')
  return T.fn('strat', (s, i), 'str')


# ----------------------------------------------------------------------
# attributes and methods of builtin values

def value_attr(I, st, v, name):
  if v.sort == 'ring':
    if name == 'field' or name == '__class__':
      return I.pyobj(I.field)
    if name in I.field.attrs and name != '__name__':
      return I.field.attrs[name]
    if name == 'n' and I.field.prime:
      return T.fn('toint', (v,), 'int')
    return None
  if v.sort == 'poly':
    if name == 'coefficients':
      return I.alloc(st, ('list', T.fn('coeffs', (v,), ('seq', 'ring'))))
    if name == 'ring':
      return I.pyobj(I.field)
    return None
  if isinstance(v.sort, tuple) and v.sort[0] == 'opaque' and name in I.opaque_attrs.get(v.sort[1], {}):
    return I.opaque_attrs[v.sort[1]][name]
  if isinstance(v.sort, tuple) and v.sort[0] == 'fun' and name == '__name__':
    return const('f')
  return None


METHODS = {
    'list': {'append', 'extend', 'insert', 'pop', 'remove', 'index', 'count', 'reverse', 'sort', 'copy',
             'clear', '__iter__', '__len__', '__getitem__', '__contains__', '__setitem__', '__add__', '__mul__', '__eq__'},
    'tuple': {'index', 'count', '__iter__', '__len__', '__getitem__', '__add__', '__eq__', '__hash__'},
    'dict': {'keys', 'values', 'items', 'get', 'setdefault', 'update', 'pop', 'copy', 'clear', '__iter__',
             '__len__', '__contains__', '__getitem__', 'popitem'},
    'set': {'add', 'union', 'update', 'remove', 'discard', 'intersection', 'difference', 'copy', '__iter__',
            '__len__', 'issubset', 'pop'},
    'str': {'join', 'format', 'encode', 'split', 'strip', 'zfill', 'find', 'replace', 'startswith', 'endswith',
            'isdigit', 'upper', 'lower', '__iter__', '__len__', 'rstrip', 'lstrip', 'count', 'index', 'rjust', 'ljust'},
    'bytes': {'join', 'hex', 'decode', '__iter__', '__len__', 'find', 'startswith', 'endswith', 'rjust', 'ljust'},
    'int': {'to_bytes', 'bit_length', '__add__', '__mul__', '__int__', '__hash__', 'from_bytes', 'bit_count'},
    'float': {'is_integer'},
    'iter': {'__next__', '__iter__'},
    'ring': {'inverse', 'to_bytes', '__add__', '__sub__', '__mul__', '__truediv__', '__neg__', '__pow__',
             '__eq__', '__ne__', '__int__', '__hash__', '__str__', '__repr__'},
    'poly': {'degree', 'is_zero', 'to_bytes', 'leading_coefficient', '__iter__', '__len__', 'powmod', '__call__'},
}


def has_method(I, st, v, name):
  k = I.kind(st, v)
  return name in METHODS.get(k, ()) or name in METHODS.get({'bool': 'int'}.get(k), ())


REAL = {'list': list, 'tuple': tuple, 'dict': dict, 'set': set, 'str': str, 'bytes': bytes, 'int': int,
        'bool': bool, 'float': float, 'iter': type(iter([])), 'none': type(None)}


def known_attr(I, st, v, name):
  """An attribute the real type has but the model lacks leaves the analysis undecided."""
  k = I.kind(st, v)
  if k not in REAL and k not in ('ring', 'poly') or k == 'any':
    raise Unsupported('attribute %s of a %s value' % (name, k))
  if k in REAL and hasattr(REAL[k], name) or k in ('ring', 'poly') and (
      name.startswith('__') or name in ('coefficients', 'field', 'ring', 'n', 'poly', 'p', 'm', 'powmod', 'inverse')):
    raise Unsupported('attribute %s of a %s value' % (name, k))


def arg(args, kw, k, name, default=None):
  if len(args) > k:
    return args[k]
  return kw.get(name, default)


def method(I, st, v, name, args, kw):
  k = I.kind(st, v)
  if k == 'bool':
    k = 'int'
  f = globals().get('m_%s_%s' % (k, name))
  if f is not None:
    return f(I, st, v, args, kw)
  if name == '__len__':
    return b_len(I, st, [v], {})
  if name == '__iter__':
    return b_iter(I, st, [v], {})
  if name == '__contains__':
    return contains(I, st, v, args[0])
  if name == '__getitem__':
    return I.getitem(st, v, args[0])
  if name == '__setitem__':
    return I.setitem(st, v, args[0], args[1])
  if name == '__hash__':
    return b_hash(I, st, [v], {})
  if name in ('__eq__', '__ne__'):
    r = eq_values(I, st, v, args[0])
    return r if name == '__eq__' else bnot(r)
  for o, n in DUNDER.items():
    if n == name:
      return I.binop(st, o(), v, args[0])
    if RDUNDER[o] == name:
      return I.binop(st, o(), args[0], v)
  if k == 'str':
    return str_method(I, st, v, name, args, kw)
  if k == 'any':
    raise Unsupported('method %s of an unknown value' % name)
  x = value_attr(I, st, v, name)
  if x is not None:
    return I.call(st, x, args, kw)
  if name in METHODS.get(k, ()):
    raise Unsupported('method %s.%s' % (k, name))
  if v.sort in ('ring', 'poly'):
    return I.call(st, I.bind_attr(st, I.enclosing_attr(name), v, None), args, kw)
  known_attr(I, st, v, name)
  I.raise_(st, 'AttributeError')


def m_list_append(I, st, v, args, kw):
  list_append(I, st, v, args[0])
  return NONE


def m_list_extend(I, st, v, args, kw):
  list_extend(I, st, v, args[0])
  return NONE


def m_list_insert(I, st, v, args, kw):
  i, x = args
  seq = I.seq_of(st, v)
  if not (seq.op == 'lit' and i.op == 'c'):
    x, seq = I.freeze(st, x), I.freeze(st, seq)
  if i.op == 'c' and T.cval(i) == 0:
    new = T.cat([T.lit([x]), seq])
  else:
    new = T.cat([T.slice_(seq, None, i, None), T.lit([x]), T.slice_(seq, i, None, None)])
  I.store_seq(st, v, new)
  return NONE


def m_list_pop(I, st, v, args, kw):
  seq = I.seq_of(st, v)
  n = T.length(seq)
  i = args[0] if args else const(-1)
  ok = bnot(T.is_zero(n))
  I.primitive_error(st, bnot(ok), 'IndexError')
  I.oblige(st, ok, 'IndexError')
  if i.op == 'c' and T.cval(i) == -1:
    x = T.at(seq, T.sub(n, const(1)))
    I.store_seq(st, v, T.slice_(seq, None, const(-1), None))
    return x
  x = T.at(seq, i)
  if i.op == 'c' and T.cval(i) == 0:
    I.store_seq(st, v, T.slice_(seq, const(1), None, None))
    return x
  I.store_seq(st, v, T.cat([T.slice_(seq, None, i, None), T.slice_(seq, T.add(i, const(1)), None, None)]))
  return x


def m_list_copy(I, st, v, args, kw):
  return I.alloc(st, ('list', I.seq_of(st, v)))


def m_list_clear(I, st, v, args, kw):
  I.store_seq(st, v, T.lit(()))
  return NONE


def m_list_reverse(I, st, v, args, kw):
  I.store_seq(st, v, T.slice_(I.seq_of(st, v), None, None, const(-1)))
  return NONE


def m_list_sort(I, st, v, args, kw):
  I.store_seq(st, v, sorted_seq(I, st, I.seq_of(st, v), kw))
  return NONE


def seq_find(I, st, seq, x):
  n = T.length(seq)
  if seq.op == 'lit':
    r = n
    for j in reversed(range(len(seq.args))):
      r = T.ite(eq_values(I, st, seq.args[j], x), const(j), r)
    return r, n
  i = T.fresh_index(n)
  e = T.close(eq_values(I, st, T.at(seq, i), x), [i])
  return T.least(n, e), n


def m_list_index(I, st, v, args, kw):
  if len(args) > 1:
    raise Unsupported('index with bounds')
  r, n = seq_find(I, st, I.seq_of(st, v), args[0])
  I.primitive_error(st, T.eq(r, n), 'ValueError')
  I.oblige(st, bnot(T.eq(r, n)), 'ValueError')
  return r


m_tuple_index = m_list_index


def m_list_remove(I, st, v, args, kw):
  seq = I.seq_of(st, v)
  r, n = seq_find(I, st, seq, args[0])
  I.primitive_error(st, T.eq(r, n), 'ValueError')
  I.store_seq(st, v, T.cat([T.slice_(seq, None, r, None), T.slice_(seq, T.add(r, const(1)), None, None)]))
  return NONE


def m_list_count(I, st, v, args, kw):
  seq = I.seq_of(st, v)
  n = T.length(seq)
  i = T.fresh_index(n)
  e = T.close(eq_values(I, st, T.at(seq, i), args[0]), [i])
  return T.ssum(n, T.ite(e, const(1), const(0)))


m_tuple_count = m_list_count


def m_dict_keys(I, st, v, args, kw):
  d = I.dict_of(st, v)
  return I.alloc(st, ('set', d)) if False else I.pyobj_keys(st, d)


def m_dict_values(I, st, v, args, kw):
  d = I.dict_of(st, v)
  items = T.dconst_items(d)
  if items is not None:
    return I.alloc(st, ('list', T.lit([x for _, x in items])))
  return dict_pairs(d, pair=lambda k, x: x)


def m_dict_items(I, st, v, args, kw):
  d = I.dict_of(st, v)
  items = T.dconst_items(d)
  if items is not None:
    return I.alloc(st, ('list', T.lit([mk('tup', (k, x), 'tup') for k, x in items])))
  return dict_pairs(d)


def dict_pairs(d, ks=None, pair=lambda k, x: mk('tup', (k, x), 'tup')):
  """The (key, value) pairs of a dictionary, in order."""
  if d.op == 'ite' and ks is None:
    return T.ite(d.args[0], dict_pairs(d.args[1], None, pair), dict_pairs(d.args[2], None, pair))
  if ks is None:
    ks = T.dkeys(d)
  if ks.op == 'ite':
    return T.ite(ks.args[0], dict_pairs(d, ks.args[1], pair), dict_pairs(d, ks.args[2], pair))
  if ks.op == 'lit':
    return T.lit([pair(k, T.dget(d, k)) for k in ks.args])
  n = T.length(ks)
  i = T.fresh_index(n)
  return T.smap(n, T.close(pair(T.at(ks, i), T.dget(d, T.at(ks, i))), [i]))


def m_dict_get(I, st, v, args, kw):
  d = I.dict_of(st, v)
  k = I.key(st, args[0])
  dflt = args[1] if len(args) > 1 else NONE
  h = I.simp(st, T.dhas(d, k))
  if h is TRUE:
    return T.dget(d, k)
  if h is FALSE:
    return dflt
  return I.mval(st, h, T.dget(d, k), dflt)


def m_dict_setdefault(I, st, v, args, kw):
  d = I.dict_of(st, v)
  k = I.key(st, args[0])
  dflt = args[1] if len(args) > 1 else NONE

  def absent(s):
    setitem(I, s, v, args[0], dflt)
    return dflt
  return I.branch(st, T.dhas(d, k), lambda s: getitem(I, s, v, args[0]), absent)


def m_dict_update(I, st, v, args, kw):
  d = I.dict_of(st, v)
  if args:
    a = args[0]
    if I.kind(st, a) == 'dict':
      d = T.dupdate(d, I.dict_of(st, a))
    else:
      seq = I.iter_seq(st, a)
      if seq.op != 'lit':
        raise Unsupported('dict.update')
      for e in seq.args:
        kk, vv = I.iter_elems(st, e, 2)
        d = T.dset(d, I.key(st, kk), vv)
  for n, x in kw.items():
    d = T.dset(d, const(n), x)
  I.store_dict(st, v, d)
  return NONE


def m_dict_pop(I, st, v, args, kw):
  d = I.dict_of(st, v)
  k = I.key(st, args[0])
  h = T.dhas(d, k)
  if len(args) > 1:
    r = T.ite(h, T.dget(d, k), args[1])
  else:
    I.primitive_error(st, bnot(h), 'KeyError')
    r = T.dget(d, k)
  I.store_dict(st, v, T.ddel(d, k))
  return r


def m_dict___delitem__(I, st, v, args, kw):
  d = I.dict_of(st, v)
  k = I.key(st, args[0])
  I.primitive_error(st, bnot(T.dhas(d, k)), 'KeyError')
  I.store_dict(st, v, T.ddel(d, k))
  return NONE


def m_list___delitem__(I, st, v, args, kw):
  m_list_pop(I, st, v, args, kw)
  return NONE


def m_dict_copy(I, st, v, args, kw):
  return I.alloc(st, ('dict', I.dict_of(st, v)))


def m_dict_clear(I, st, v, args, kw):
  I.store_dict(st, v, T.dempty())
  return NONE


def m_set_add(I, st, v, args, kw):
  I.store_dict(st, v, T.dset(I.dict_of(st, v), I.key(st, args[0]), TRUE))
  return NONE


def set_of(I, st, x):
  k = I.kind(st, x)
  if k in ('set', 'dict'):
    return I.dict_of(st, x)
  s = I.freeze(st, I.iter_seq(st, x))
  return set_of_seq(s)


set_of_seq = T.setof


def m_set_union(I, st, v, args, kw):
  d = I.dict_of(st, v)
  for a in args:
    d = T.setop('setunion', T.keyset(d), T.keyset(set_of(I, st, a)))
  return I.alloc(st, ('set', d))


def m_set_update(I, st, v, args, kw):
  r = m_set_union(I, st, v, args, kw)
  I.store_dict(st, v, I.dict_of(st, r))
  return NONE


def _setop(name):
  def f(I, st, v, args, kw):
    d, o = I.dict_of(st, v), set_of(I, st, args[0])
    return I.alloc(st, ('set', T.setop(name, T.keyset(d), T.keyset(o))))
  return f


m_set_intersection = _setop('setinter')
m_set_difference = _setop('setdiff')
m_set_symmetric_difference = _setop('setxor')


def m_set_issubset(I, st, v, args, kw):
  return T.fn('subset', (I.dict_of(st, v), set_of(I, st, args[0])), 'bool')


def m_set_discard(I, st, v, args, kw):
  I.store_dict(st, v, T.ddel(I.dict_of(st, v), I.key(st, args[0])))
  return NONE


m_set_remove = m_set_discard


def m_set_copy(I, st, v, args, kw):
  return I.alloc(st, ('set', I.dict_of(st, v)))


def m_int_to_bytes(I, st, v, args, kw):
  ln = arg(args, kw, 0, 'length', const(1))
  order = arg(args, kw, 1, 'byteorder', const('big'))
  if order.op != 'c':
    raise Unsupported('byte order')
  if v.sort == 'bool':
    v = T.cast(v, 'int')
  fits = band(T.le(const(0), v), T.lt(v, T.power(const(256), ln)))
  I.primitive_error(st, bnot(fits), 'OverflowError')
  if v.op == 'c' and ln.op == 'c':
    try:
      return const(T.cval(v).to_bytes(T.cval(ln), T.cval(order)))
    except OverflowError:
      I.raise_(st, 'OverflowError')
  return T.tobytes(v, ln, T.cval(order))


def m_int_bit_length(I, st, v, args, kw):
  if v.op == 'c':
    return const(int(T.cval(v)).bit_length())
  return T.fn('bitlen', (v,), 'int')


def m_int___int__(I, st, v, args, kw):
  return T.cast(v, 'int')


def m_iter___next__(I, st, v, args, kw):
  return b_next(I, st, [v], {})


def m_iter___iter__(I, st, v, args, kw):
  return v


def m_bytes_join(I, st, v, args, kw):
  s = I.freeze(st, I.iter_seq(st, args[0]))
  return T.bjoin(v, s)


def m_bytes_startswith(I, st, v, args, kw):
  p = args[0]
  if len(args) != 1 or p.sort != 'bytes':
    raise Unsupported('startswith')
  return T.eq(T.bslice(v, None, T.blen(p)), p)


def m_bytes_endswith(I, st, v, args, kw):
  p = args[0]
  n, k = T.blen(v), T.blen(args[0]) if len(args) == 1 and args[0].sort == 'bytes' else None
  if k is None or n.op != 'c' or k.op != 'c':
    raise Unsupported('endswith')
  return T.eq(T.bslice(v, const(max(0, T.cval(n) - T.cval(k))), None), p)


def m_bytes_hex(I, st, v, args, kw):
  return T.fn('hex', (v,), 'str')


def m_bytes_decode(I, st, v, args, kw):
  if v.op == 'c':
    return const(T.cval(v).decode())
  if v.op == 'fn' and v.args[0] == 'encode':
    return v.args[1][0]
  return T.fn('decode', (v,), 'str')


def m_ring_inverse(I, st, v, args, kw):
  I.primitive_error(st, T.is_zero(v), 'ZeroDivisionError')
  I.oblige(st, bnot(T.is_zero(v)), 'ZeroDivisionError')
  return T.inv(v)


def m_ring_to_bytes(I, st, v, args, kw):
  if args:
    I.raise_(st, 'TypeError')
  return felt(v)


def felt(v):
  if v.op == 'ite':
    return T.ite(v.args[0], felt(v.args[1]), felt(v.args[2]))
  return T.fn('felt', (v,), 'bytes')


T.FN_SIMPL['felt'] = lambda a, s: felt(a[0]) if a[0].op == 'ite' else (
    a[0].args[1][0] if a[0].op == 'fn' and a[0].args[0] == 'unfelt' and False else None)
T.FN_SIMPL['unfelt'] = lambda a, s: from_felt(a[0]) if (a[0].op == 'ite' or a[0].op == 'fn' and a[0].args[0] == 'felt') else None


def m_ring___int__(I, st, v, args, kw):
  return T.fn('toint', (v,), 'int')


def m_poly_degree(I, st, v, args, kw):
  return T.sub(T.fn('degree1', (v,), 'int'), const(1))


def m_poly_is_zero(I, st, v, args, kw):
  return T.is_zero(v)


def m_poly_to_bytes(I, st, v, args, kw):
  return T.fn('polybytes', (v,), 'bytes')


def m_poly_leading_coefficient(I, st, v, args, kw):
  return T.fn('leadcoeff', (v,), 'ring')


def m_poly___call__(I, st, v, args, kw):
  return poly_call(I, st, v, args)


def m_poly_powmod(I, st, v, args, kw):
  return T.mod(T.power(v, args[0]), args[1])


def str_method(I, st, v, name, args, kw):
  if name == 'join':
    s = I.freeze(st, I.iter_seq(st, args[0]))
    if s.op == 'lit':
      parts = []
      for k, x in enumerate(s.args):
        if k:
          parts.append(v)
        parts.append(x)
      return str_cat(parts)
    return T.fn('strjoin', (v, s), 'str')
  if name == 'format':
    if v.op == 'c':
      f = T.cval(v)
      pieces = f.split('{}')
      if len(pieces) == len(args) + 1 and '{' not in ''.join(pieces) and not kw:
        parts = [const(pieces[0])]
        for x, p in zip(args, pieces[1:]):
          parts.append(to_str(I, st, x))
          parts.append(const(p))
        return str_cat(parts)
    return T.fn('str.format', (v,) + tuple(I.freeze(st, a) for a in args), 'str')
  fa = [I.freeze(st, a) for a in args]
  if v.op == 'c' and all(a.op == 'c' for a in fa):
    try:
      r = getattr(T.cval(v), name)(*[T.cval(a) for a in fa])
      if isinstance(r, list):
        return I.alloc(st, ('list', T.lit([const(x) for x in r])))
      return const(r)
    except (ValueError, TypeError, AttributeError):
      pass
  if name == 'encode':
    return T.fn('encode', (v,), 'bytes')
  sort = {'find': 'int', 'index': 'int', 'count': 'int', 'isdigit': 'bool', 'startswith': 'bool',
          'endswith': 'bool', 'split': ('seq', 'str')}.get(name, 'str')
  r = T.fn('str.' + name, (v,) + tuple(fa), sort)
  if name == 'split':
    return I.alloc(st, ('list', r))
  return r


# ----------------------------------------------------------------------
# type constructors

def type_method(I, st, o, name, args, kw):
  if o.name == 'int' and name == 'from_bytes':
    b = args[0]
    order = arg(args, kw, 1, 'byteorder', const('big'))
    if I.is_ite(b):
      return I.split(st, b, lambda s, x: type_method(I, s, o, name, [x] + list(args[1:]), kw))
    if b.sort != 'bytes':
      if T.is_seq(b) or I.kind(st, b) == 'list':
        raise Unsupported('from_bytes of a list')
      I.raise_(st, 'TypeError')
    if b.op == 'c':
      return const(int.from_bytes(T.cval(b), T.cval(order)))
    return T.frombytes(b, T.cval(order))
  if o.name == 'dict' and name == 'fromkeys':
    seq = I.freeze(st, I.iter_seq(st, args[0]))
    if seq.op != 'lit':
      raise Unsupported('dict.fromkeys')
    d = T.dempty()
    for e in seq.args:
      d = T.dset(d, e, args[1] if len(args) > 1 else NONE)
    return I.alloc(st, ('dict', d))
  if o.name == 'bytes' and name == 'fromhex':
    return T.fn('unhex', (args[0],), 'bytes')
  if name == '__name__':
    return const(o.name)
  if o.name == 'object' and name in ('__init__',):
    return NONE
  if o.name in ('int', 'str', 'list', 'dict', 'tuple', 'set', 'bytes', 'float'):
    return I.call_method(st, args[0], name, args[1:], kw)
  if o.name == 'Fraction':
    raise Unsupported('Fraction')
  raise Unsupported('%s.%s' % (o.name, name))


def int_of(I, st, x, base=None):
  if I.is_ite(x):
    return I.split(st, x, lambda s, y: int_of(I, s, y, base))
  s = x.sort
  if s in ('int', 'bool'):
    return T.cast(x, 'int')
  if s == 'ring':
    return T.fn('toint', (x,), 'int')
  if s == 'float':
    if x.op == 'c':
      return const(int(T.cval(x)))
    if x.op == 'fn' and x.args[0] == 'f.truediv' and T.nonneg(x.args[1][0]) and T.positive(x.args[1][1]) and \
        all(y.sort == 'int' for y in x.args[1]):
      # truncation of an integer quotient (exact below 2**53)
      if getattr(I, 'exact_float_quotients', True):
        return T.fdiv(*x.args[1])
    return T.fn('trunc', (x,), 'int')
  if s == 'str':
    if x.op == 'c':
      try:
        return const(int(T.cval(x), T.cval(base) if base is not None else 10))
      except ValueError:
        I.raise_(st, 'ValueError')
    return T.fn('parseint', (x, base if base is not None else const(10)), 'int')
  if s == 'bytes':
    return T.fn('parseint', (x, const(10)), 'int')
  c = I.inst_class(st, x)
  if c is not None:
    for n in ('__int__', '__index__', '__trunc__'):
      f = I.class_attr(c, n)
      if f is not None:
        return I.call(st, f, [x], {})
    I.raise_(st, 'TypeError')
  if isinstance(s, tuple) and s[0] == 'opaque':
    if s[1] == 'IntLike':
      return T.fn('toint', (x,), 'int')
    I.raise_(st, 'TypeError')
  if s == 'any':
    raise Unsupported('int() of an unknown value')
  I.raise_(st, 'TypeError')


def call_type(I, st, o, args, kw):
  n = o.name
  if n in EXC_BASES:
    return mk('exc', (n,), 'exc')
  if args and I.is_ite(args[0]) and n not in ('type',):
    return I.split(st, args[0], lambda s, x: call_type(I, s, o, [x] + list(args[1:]), kw))
  if n == 'int':
    if not args:
      return const(0)
    return int_of(I, st, args[0], arg(args, kw, 1, 'base'))
  if n == 'bool':
    return I.truth(st, args[0]) if args else FALSE
  if n == 'str':
    return to_str(I, st, args[0]) if args else const('')
  if n == 'float':
    x = args[0]
    if x.sort == 'float':
      return x
    if x.op == 'c' and x.sort in ('int', 'bool', 'str'):
      try:
        return const(float(T.cval(x)))
      except ValueError:
        I.raise_(st, 'ValueError')
    return T.fn('float', (I.freeze(st, x),), 'float')
  if n == 'list':
    return I.alloc(st, ('list', I.iter_seq(st, args[0]) if args else T.lit(())))
  if n == 'tuple':
    if args and I.kind(st, args[0]) == 'tuple':
      return args[0]
    return I.mktuple(st, I.iter_seq(st, args[0])) if args else mk('tup', (), 'tup')
  if n in ('set', 'frozenset'):
    return I.alloc(st, ('set', set_of(I, st, args[0]) if args else T.dempty('set')))
  if n == 'dict':
    d = T.dempty()
    if args:
      a = args[0]
      if I.kind(st, a) == 'dict':
        d = I.dict_of(st, a)
      else:
        seq = I.iter_seq(st, a)
        if seq.op == 'lit':
          for e in seq.args:
            kk, vv = I.iter_elems(st, e, 2)
            d = T.dset(d, I.key(st, kk), vv)
        else:
          d = T.fn('dictof', (I.freeze(st, seq),), ('dict', 'any'))
    for k, v in kw.items():
      d = T.dset(d, const(k), v)
    return I.alloc(st, ('dict', d))
  if n == 'bytes':
    if not args:
      return const(b'')
    x = args[0]
    if x.sort == 'bytes':
      return x
    if x.sort == 'str':
      return T.fn('encode', (x,), 'bytes')
    if x.sort == 'int':
      return T.tobytes(const(0), x, 'big') if x.op != 'c' else const(bytes(T.cval(x)))
    s = I.freeze(st, I.iter_seq(st, x))
    if s.op == 'lit' and all(e.op == 'c' for e in s.args):
      return const(bytes(T.cval(e) for e in s.args))
    return T.fn('bytesof', (s,), 'bytes')
  if n == 'range':
    return b_range(I, st, args, kw)
  if n == 'enumerate':
    s = I.iter_seq(st, args[0])
    start = arg(args, kw, 1, 'start', const(0))
    return I.alloc(st, ('iter', enum_seq(I, st, s, start), const(0)))
  if n == 'zip':
    return I.alloc(st, ('iter', zip_seq(I, st, args, kw), const(0)))
  if n == 'map':
    if len(args) == 2:
      return I.alloc(st, ('iter', map_fn(I, st, args[0], I.iter_seq(st, args[1])), const(0)))
    z = zip_seq(I, st, args[1:], {})
    f = args[0]
    return I.alloc(st, ('iter', map_py(I, st, z, lambda s, x: I.call(s, f, list(x.args), {})), const(0)))
  if n == 'filter':
    from . import loops
    return I.alloc(st, ('iter', loops.filter_seq(I, st, args[0], I.iter_seq(st, args[1])), const(0)))
  if n == 'reversed':
    return I.alloc(st, ('iter', T.slice_(I.iter_seq(st, args[0]), None, None, const(-1)), const(0)))
  if n == 'type':
    if len(args) == 1:
      return class_of(I, st, args[0])
    raise Unsupported('type() with three arguments')
  if n == 'object':
    return I.alloc(st, ('inst', I.pyobj(o), {}))
  if n == 'bytearray':
    raise Unsupported('bytearray')
  raise Unsupported('%s()' % n)


def map_py(I, st, seq, f):
  """[f(x) for x in seq] with a Python-level function."""
  from . import loops
  return loops.map_seq(I, st, seq, f)


def map_fn(I, st, f, seq):
  return map_py(I, st, seq, lambda s, x: I.call(s, f, [x], {}))


def enum_seq(I, st, s, start):
  if s.op == 'ite':
    return T.ite(s.args[0], enum_seq(I, st, s.args[1], start), enum_seq(I, st, s.args[2], start))
  if s.op == 'lit':
    return T.lit([mk('tup', (T.add(start, const(k)), x), 'tup') for k, x in enumerate(s.args)])
  s = I.freeze(st, s)
  n = T.length(s)
  i = T.fresh_index(n)
  return T.smap(n, T.close(mk('tup', (T.add(start, i), T.at(s, i)), 'tup'), [i]))


def zip_seq(I, st, args, kw):
  if len(args) == 1 and isinstance(args[0], tuple):
    return unzip(I, st, args[0][1])
  if any(isinstance(a, tuple) for a in args):
    raise Unsupported('zip of a symbolic *')
  seqs = [I.iter_seq(st, a) for a in args]
  if not seqs:
    return T.lit(())
  if all(s.op == 'lit' for s in seqs):
    return T.lit([mk('tup', t, 'tup') for t in zip(*[s.args for s in seqs])])
  lens = [T.length(s) for s in seqs]
  n = lens[0]
  for m in lens[1:]:
    n = T.minmax('min', n, m)
  if n.op == 'c':
    return T.lit([mk('tup', tuple(T.at(s, const(k)) for s in seqs), 'tup') for k in range(int(T.cval(n)))])
  seqs = [I.freeze(st, s) for s in seqs]
  i = T.fresh_index(n)
  return T.smap(n, T.close(mk('tup', tuple(T.at(s, i) for s in seqs), 'tup'), [i]))


def unzip(I, st, S):
  """zip(*S) for a symbolic sequence of sequences S"""
  S = I.freeze(st, S)
  m = T.length(S)
  k = T.fresh_index(m)
  row = T.at(S, k)
  rs = row
  if row.op in ('tup', 'tupof'):
    rs = I.seq_of(st, row)
  ln = T.length(rs)
  if T.occurs(ln, lambda x: x is k):
    n = T.fn('minlen', (S,), 'int')
  else:
    n = ln
  i = T.fresh_index(n)
  col = T.smap(m, T.close(T.at(rs, i), [k]))
  return T.smap(n, T.close(mk('tupof', (col,), 'tup') if col.op != 'lit' else mk('tup', col.args, 'tup'), [i]))


# ----------------------------------------------------------------------
# builtin functions

def b_len(I, st, args, kw):
  v, = args
  if I.is_ite(v):
    return I.split(st, v, lambda s, x: b_len(I, s, [x], kw))
  c = I.inst_class(st, v)
  if c is not None:
    return I.call_dunder(st, v, '__len__', [])
  k = I.kind(st, v)
  if k in ('list', 'tuple', 'dict', 'set'):
    return T.length(I.seq_of(st, v))
  if k in ('str', 'bytes'):
    return T.length(v)
  if k == 'poly':
    return T.fn('degree1', (v,), 'int')
  if k == 'any':
    raise Unsupported('len of an unknown value')
  I.raise_(st, 'TypeError')


def b_range(I, st, args, kw):
  for a in args:
    if a.sort not in ('int', 'bool'):
      if a.sort == 'any':
        raise Unsupported('range of an unknown value')
      I.raise_(st, 'TypeError')
  if len(args) == 1:
    lo, hi, step = const(0), args[0], const(1)
  elif len(args) == 2:
    lo, hi, step = args[0], args[1], const(1)
  else:
    lo, hi, step = args
  if hi.sort == 'bool':
    hi = T.cast(hi, 'int')
  if hi.op == 'ite':
    return I.branch(st, hi.args[0], lambda s: b_range(I, s, [lo, hi.args[1], step], {}),
                    lambda s: b_range(I, s, [lo, hi.args[2], step], {}))
  return I.alloc(st, ('list', range_seq(lo, hi, step)))


def range_seq(lo, hi, step):
  if step.op != 'c':
    if T.positive(step):
      cnt = T.max0(T.fdiv(T.add(T.sub(hi, lo), T.sub(step, const(1))), step))
    else:
      raise Unsupported('range step of unknown sign')
  else:
    k = int(T.cval(step))
    if k > 0:
      cnt = T.sub(hi, lo)
      if k != 1:
        cnt = T.fdiv(T.add(cnt, const(k - 1)), const(k))
    else:
      cnt = T.sub(lo, hi)
      if k != -1:
        cnt = T.fdiv(T.add(cnt, const(-k - 1)), const(-k))
    cnt = T.max0(cnt)
  if cnt.op == 'c' and int(T.cval(cnt)) <= 64:
    return T.lit([T.add(lo, T.mul(step, const(j))) for j in range(int(T.cval(cnt)))])
  return T.smap(cnt, T.add(T.shift(lo, 1), T.mul(T.shift(step, 1), T.bv(0))))


def b_print(I, st, args, kw):
  return NONE


def b_isinstance(I, st, args, kw):
  return isinstance_(I, st, args[0], args[1])


def b_issubclass(I, st, args, kw):
  cs = args[1].args if args[1].op == 'tup' else (args[1],)
  return T.truth(any(c in I.mro(args[0]) for c in cs))


PYTYPES = {'NoneType': type(None), 'function': type(lambda: 0), 'NotImplementedType': type(NotImplemented),
           'builtin_function_or_method': type(len)}


def b_hasattr(I, st, args, kw):
  v, n = args
  if I.is_ite(v):
    return I.split(st, v, lambda s, x: b_hasattr(I, s, [x, n], kw))
  name = T.cval(n)
  c = I.inst_class(st, v)
  if c is not None:
    return T.truth(I.inst_field(st, v, name) is not None or I.class_attr(c, name) is not None)
  if v.op == 'py':
    o = I.obj(v)
    if o.kind == 'class':
      return T.truth(I.class_attr(v, name) is not None)
    if o.kind == 'model':
      return T.truth(o.get(I, st, name) is not None)
    if o.kind == 'btype':
      if name == '__iter__':
        return T.truth(o.name in ('list', 'tuple', 'dict', 'set', 'str', 'bytes', 'range'))
      real = PYTYPES.get(o.name) or getattr(builtins, o.name, None)
      if isinstance(real, type):
        return T.truth(hasattr(real, name))
      return T.truth(name in METHODS.get(o.name, ()))
    if o.kind == 'func':
      return T.truth(name in o.attrs or name == '__name__')
    return FALSE
  if isinstance(v.sort, tuple) and v.sort[0] == 'opaque':
    return T.truth(name in I.opaque_attrs.get(v.sort[1], {}))
  if v.sort == 'any':
    raise Unsupported('hasattr of an unknown value')
  return T.truth(has_method(I, st, v, name) or value_attr(I, st, v, name) is not None)


def b_getattr(I, st, args, kw):
  return I.getattr(st, args[0], T.cval(args[1]), args[2] if len(args) > 2 else None)


def b_setattr(I, st, args, kw):
  I.setattr(st, args[0], T.cval(args[1]), args[2])
  return NONE


def b_callable(I, st, args, kw):
  v = args[0]
  return T.truth(v.op == 'py' or (isinstance(v.sort, tuple) and v.sort[0] == 'fun') or
                 I.find_attr(st, v, '__call__') is not None)


def b_abs(I, st, args, kw):
  v, = args
  if I.is_ite(v):
    return I.split(st, v, lambda s, x: b_abs(I, s, [x], kw))
  if v.sort in ('int', 'bool'):
    if T.nonneg(v):
      return v
    if T.nonneg(T.neg(v)):
      return T.neg(v)
    return I.branch(st, T.gt0(T.neg(v)), lambda s: T.neg(v), lambda s: v)
  if v.sort == 'float':
    return T.fn('f.abs', (v,), 'float')
  if v.sort == 'poly':
    return T.fn('degree1', (v,), 'int')
  if I.inst_class(st, v) is not None:
    return I.call_dunder(st, v, '__abs__', [])
  I.raise_(st, 'TypeError')


def b_divmod(I, st, args, kw):
  a, b = args
  if I.is_ite(a):
    return I.split(st, a, lambda s, x: b_divmod(I, s, [x, b], kw))
  if I.is_ite(b):
    return I.split(st, b, lambda s, x: b_divmod(I, s, [a, x], kw))
  if T.is_arith(a) and T.is_arith(b):
    if 'ring' in (a.sort, b.sort):
      raise Unsupported('divmod of field elements')
    q = arith(I, st, ast.FloorDiv, a, b)
    return mk('tup', (q, T.sub(a, T.mul(b, q))), 'tup')
  if I.inst_class(st, a) is not None:
    r = I.call_dunder(st, a, '__divmod__', [b])
    if r is NOTIMPL:
      I.raise_(st, 'TypeError')
    return r
  I.raise_(st, 'TypeError')


def b_pow(I, st, args, kw):
  if len(args) == 3:
    b, e, m = args
    if not all(x.sort in ('int', 'bool') for x in args):
      raise Unsupported('three-argument pow')
    return T.fn('powmod', (T.cast(b, 'int'), T.cast(e, 'int'), T.cast(m, 'int')), 'int')
  return I.binop(st, ast.Pow(), args[0], args[1])


def _powmod(args, sort):
  b, e, m = args
  if all(x.op == 'c' for x in args):
    try:
      return const(pow(T.cval(b), T.cval(e), T.cval(m)))
    except (ValueError, ZeroDivisionError):
      return None
  if e.op == 'c' and 0 <= T.cval(e) <= 16:
    return T.mod(T.power(b, e), m)
  r = T.mod(b, m)
  if b.op != 'c' and r is not b and b.size < 2000:
    pass
  return None


T.FN_SIMPL['powmod'] = _powmod


def b_sum(I, st, args, kw):
  seq = I.iter_seq(st, args[0])
  start = arg(args, kw, 1, 'start', const(0))
  return sum_seq(I, st, seq, start)


def sum_seq(I, st, seq, start):
  if seq.op == 'ite':
    return I.branch(st, seq.args[0], lambda s: sum_seq(I, s, seq.args[1], start),
                    lambda s: sum_seq(I, s, seq.args[2], start))
  if seq.op == 'lit':
    acc = start
    for x in seq.args:
      acc = I.binop(st, ast.Add(), acc, x)
    return acc
  es = T.elem_sort(seq)
  if es in T.ARITH and T.is_arith(start):
    n = T.length(seq)
    i = T.fresh_index(n)
    return T.add(start, T.ssum(n, T.close(T.at(seq, i), [i])))
  from . import loops
  return loops.fold(I, st, seq, start, lambda s, acc, x: I.binop(s, ast.Add(), acc, x))


def b_minmax(kind):
  def pick(I, st, items, key):
    keyed = [(x, I.call(st, key, [x], {}) if key is not None else x) for x in items]
    r, rk = keyed[0]
    for x, xk in keyed[1:]:
      if key is None and r.sort in ('int', 'bool') and x.sort in ('int', 'bool'):
        r = rk = T.minmax(kind, r, x)
      elif key is None and r.sort in ('float', 'int') and x.sort in ('float', 'int'):
        r = rk = T.fn('f.' + kind, (r, x), 'float')
      else:
        c = I.truth(st, I.compare(st, ast.Lt() if kind == 'min' else ast.Gt(), xk, rk))
        r, rk = I.mval(st, c, x, r), I.mval(st, c, xk, rk)
    return r

  def f(I, st, args, kw):
    key = kw.get('key')
    if key is NONE:
      key = None
    if len(args) > 1:
      return pick(I, st, list(args), key)

    def go(s, seq):
      if seq.op == 'ite':
        return I.branch(s, seq.args[0], lambda q: go(q, seq.args[1]), lambda q: go(q, seq.args[2]))
      if seq.op == 'lit':
        if seq.args:
          return pick(I, s, list(seq.args), key)
        if 'default' in kw:
          return kw['default']
        I.raise_(s, 'ValueError')
      if key is not None:
        raise Unsupported('%s with key' % kind)
      if 'default' in kw:
        return I.branch(s, T.is_zero(T.length(seq)), lambda q: kw['default'],
                        lambda q: T.fn(kind, (I.freeze(q, seq),), T.elem_sort(seq)))
      I.primitive_error(s, T.is_zero(T.length(seq)), 'ValueError')
      return T.fn(kind, (I.freeze(s, seq),), T.elem_sort(seq))
    return go(st, I.iter_seq(st, args[0]))
  return f


def b_anyall(kind):
  def f(I, st, args, kw):
    seq = I.iter_seq(st, args[0])

    def go(s, seq):
      if seq.op == 'ite':
        return I.branch(s, seq.args[0], lambda q: go(q, seq.args[1]), lambda q: go(q, seq.args[2]))
      if seq.op == 'lit':
        r = TRUE if kind == 'all' else FALSE
        for x in reversed(seq.args):
          c = I.truth(s, x)
          r = band(c, r) if kind == 'all' else bor(c, r)
        return r
      n = T.length(seq)
      i = T.fresh_index(n)
      c = I.truth(s, T.at(seq, i))
      c = T.close(c, [i])
      return T.sall(n, c) if kind == 'all' else T.sany(n, c)
    return go(st, seq)
  return f


def sorted_seq(I, st, seq, kw):
  rev = kw.get('reverse')
  if 'key' in kw and kw['key'] is not NONE:
    raise Unsupported('sorted with key')
  s = I.freeze(st, seq)
  r = T.fn('sorted', (s,), s.sort)
  if rev is not None and T.truthy(rev) is TRUE:
    r = T.slice_(r, None, None, const(-1))
  return r


def b_sorted(I, st, args, kw):
  return I.alloc(st, ('list', sorted_seq(I, st, I.iter_seq(st, args[0]), kw)))


def b_iter(I, st, args, kw):
  v, = args
  if I.is_ite(v):
    return I.split(st, v, lambda s, x: b_iter(I, s, [x], kw))
  if I.kind(st, v) == 'iter':
    return v
  if I.inst_class(st, v) is not None:
    return I.call_dunder(st, v, '__iter__', [])
  return I.alloc(st, ('iter', I.iter_seq(st, v), const(0)))


def b_next(I, st, args, kw):
  v = args[0]
  if I.is_ite(v):
    return I.split(st, v, lambda s, x: b_next(I, s, [x] + list(args[1:]), kw))
  if I.kind(st, v) != 'iter':
    c = I.inst_class(st, v)
    if c is not None:
      return I.call_dunder(st, v, '__next__', [])
    o = I.obj(v) if v.op == 'py' else None
    if o is not None and hasattr(o, 'next_'):
      return o.next_(I, st)
    I.raise_(st, 'TypeError')
  p = I.cell(st, v)
  has = T.lt(p[2], T.length(p[1]))

  def take(s):
    q = I.cell(s, v)
    I.put(s, v, ('iter', q[1], T.add(q[2], const(1))))
    return T.at(q[1], q[2])
  if len(args) > 1:
    return I.branch(st, has, take, lambda s: args[1])
  I.primitive_error(st, bnot(has), 'StopIteration')
  return take(st)


def b_hash(I, st, args, kw):
  v, = args
  if I.is_ite(v):
    return I.split(st, v, lambda s, x: b_hash(I, s, [x], kw))
  c = I.inst_class(st, v)
  if c is not None:
    f = I.class_attr(c, '__hash__')
    if f is None:
      if I.class_attr(c, '__eq__') is not None:
        I.raise_(st, 'TypeError')
      return T.fn('addrhash', (I.freeze(st, v),), 'int')
    return I.call(st, f, [v], {})
  if v.sort in ('int', 'bool'):
    return T.fn('hash', (v,), 'int')
  if v.sort in ('str', 'bytes'):
    return T.fn('randhash', (v,), 'int')
  k = I.kind(st, v)
  if k in ('list', 'dict', 'set'):
    I.raise_(st, 'TypeError')
  if k == 'tuple':
    seq = I.seq_of(st, v)
    hs = map_py(I, st, seq, lambda s, x: b_hash(I, s, [x], {}))
    return T.fn('hash', (I.mktuple(st, hs),), 'int')
  if k == 'ring':
    return T.fn('hash', (v,), 'int')
  return T.fn('addrhash', (I.freeze(st, v),), 'int')


def b_id(I, st, args, kw):
  return T.fn('address', (tick(I, st),), 'int')


def b_repr(I, st, args, kw):
  v, = args
  c = I.inst_class(st, v)
  if c is not None:
    f = I.class_attr(c, '__repr__')
    if f is not None:
      return I.call(st, f, [v], {})
    return T.fn('addrrepr', (tick(I, st),), 'str')
  return T.fn('repr', (I.freeze(st, v),), 'str')


def b_ord(I, st, args, kw):
  if args[0].op == 'c':
    return const(ord(T.cval(args[0])))
  return T.fn('ord', tuple(args), 'int')


def b_chr(I, st, args, kw):
  if args[0].op == 'c':
    return const(chr(T.cval(args[0])))
  return T.fn('chr', tuple(args), 'str')


def b_bin(I, st, args, kw):
  if args[0].op == 'c':
    return const(bin(T.cval(args[0])))
  return T.fn('bin', tuple(args), 'str')


def b_hex(I, st, args, kw):
  return T.fn('hexint', tuple(args), 'str')


def b_round(I, st, args, kw):
  if args[0].sort == 'int':
    return args[0]
  if args[0].op == 'c' and len(args) == 1:
    return const(round(T.cval(args[0])))
  return T.fn('round', tuple(args), 'int' if len(args) == 1 else 'float')


def b_ident(I, st, args, kw):
  return args[0] if args else NONE


def b_input(I, st, args, kw):
  return T.fn('rand', (const('input'), tick(I, st)), 'str')


def b_vars(I, st, args, kw):
  raise Unsupported('vars')


BUILTINS = {
    'len': b_len, 'print': b_print, 'isinstance': b_isinstance, 'issubclass': b_issubclass,
    'hasattr': b_hasattr, 'getattr': b_getattr, 'setattr': b_setattr, 'callable': b_callable,
    'abs': b_abs, 'divmod': b_divmod, 'pow': b_pow, 'sum': b_sum, 'min': b_minmax('min'),
    'max': b_minmax('max'), 'any': b_anyall('any'), 'all': b_anyall('all'), 'sorted': b_sorted,
    'iter': b_iter, 'next': b_next, 'hash': b_hash, 'id': b_id, 'repr': b_repr, 'ord': b_ord,
    'chr': b_chr, 'bin': b_bin, 'hex': b_hex, 'round': b_round, 'classmethod': b_ident,
    'staticmethod': b_ident, 'property': b_ident, 'input': b_input, 'vars': b_vars, 'globals': b_vars,
    'locals': b_vars, 'open': b_vars, 'eval': b_vars, 'exec': b_vars, 'dir': b_vars,
    '__import__': b_vars, 'format': lambda I, st, a, k: to_str(I, st, a[0], -1, a[1] if len(a) > 1 else None),
    'ascii': b_repr,
}


# ----------------------------------------------------------------------
# standard library and third-party modules

class HashObj(Model):
  name = 'hash object'

  def __init__(self, alg, data):
    self.alg, self.data = alg, data

  def method(self, I, st, name, args, kw):
    if name == 'digest':
      return T.fn(self.alg, (self.data,), 'bytes')
    if name == 'hexdigest':
      return T.fn('hex', (T.fn(self.alg, (self.data,), 'bytes'),), 'str')
    raise Unsupported('hash method %s' % name)


def hasher(alg):
  def f(I, st, args, kw):
    if kw:
      raise Unsupported('hash options')
    data = args[0] if args else const(b'')
    if data.op == 'ite' and I.is_ite(data):
      return I.split(st, data, lambda s, x: f(I, s, [x], kw))
    if data.sort != 'bytes':
      if data.sort == 'any':
        raise Unsupported('hash of an unknown value')
      I.raise_(st, 'TypeError')
    return I.pyobj(HashObj(alg, data))
  return f


T.FIXED_BYTES['blake'] = 32
T.FIXED_BYTES['sha256'] = 32
T.FIXED_BYTES['sha384'] = 48
T.FIXED_BYTES['blake2b'] = 64


def nondet(name, sort):
  def f(I, st, args, kw):
    return rand(I, st, name, args, sort)
  return f


def r_choice(I, st, args, kw):
  seq = I.freeze(st, I.iter_seq(st, args[0]))
  i = T.fn('rand', (const('index'), tick(I, st), T.length(seq)), 'int')
  return T.at(seq, i)


def r_randint(I, st, args, kw):
  return T.fn('rand', (const('int'), tick(I, st), args[0], T.add(args[1], const(1))), 'int')


def r_randrange(I, st, args, kw):
  if len(args) == 1:
    return T.fn('rand', (const('int'), tick(I, st), const(0), args[0]), 'int')
  return T.fn('rand', (const('int'), tick(I, st), args[0], args[1]), 'int')


def r_getrandbits(I, st, args, kw):
  return T.fn('rand', (const('int'), tick(I, st), const(0), T.power(const(2), args[0])), 'int')


def r_shuffle(I, st, args, kw):
  seq = I.freeze(st, I.seq_of(st, args[0]))
  I.store_seq(st, args[0], T.fn('permute', (seq, tick(I, st)), seq.sort))
  return NONE


def r_sample(I, st, args, kw):
  seq = I.freeze(st, I.iter_seq(st, args[0]))
  n = args[1]
  s = T.fn('permute', (seq, tick(I, st)), seq.sort)
  return I.alloc(st, ('list', T.slice_(s, None, n, None)))


def r_seed(I, st, args, kw):
  reseed(I, st, args)
  return NONE


class RandomObj(Model):
  """random.Random(seed): a generator of its own whose draws are functions of the seed and their position."""
  name = 'Random'

  def __init__(self, I, st, seed):
    self.seed = seed
    self.ref = I.alloc(st, ('iter', const(0), const(0))) if seed is not None else None

  def method(self, I, st, name, args, kw):
    if self.ref is None:
      if name == 'seed':
        raise Unsupported('reseeding a generator')
      return STD['random'][name](I, st, args, kw)
    p = I.cell(st, self.ref)
    pos = p[2]
    I.put(st, self.ref, ('iter', p[1], T.add(pos, const(1))))

    def draw(kind, sort, *a):
      return T.fn('prng', (const(kind), self.seed, pos) + a, sort)
    if name == 'randint':
      return draw('int', 'int', args[0], T.add(args[1], const(1)))
    if name == 'randrange':
      return draw('int', 'int', *((const(0), args[0]) if len(args) == 1 else args[:2]))
    if name == 'getrandbits':
      return draw('int', 'int', const(0), T.power(const(2), args[0]))
    if name == 'choice':
      seq = I.freeze(st, I.iter_seq(st, args[0]))
      return T.at(seq, draw('int', 'int', const(0), T.length(seq)))
    if name == 'random':
      return draw('float', 'float')
    raise Unsupported('method %s of a seeded generator' % name)


def r_Random(I, st, args, kw):
  return I.pyobj(RandomObj(I, st, I.freeze(st, args[0]) if args and args[0] is not NONE else None))


def t_time(I, st, args, kw):
  return T.fn('rand', (const('clock'), tick(I, st)), 'float')


def m_log(I, st, args, kw):
  if all(a.op == 'c' for a in args):
    try:
      return const(math.log(*[T.cval(a) for a in args]))
    except ValueError:
      I.raise_(st, 'ValueError')
  return T.fn('log', tuple(args), 'float')


def m_fl(name, sort='float'):
  def f(I, st, args, kw):
    if all(a.op == 'c' for a in args):
      try:
        return const(getattr(math, name)(*[T.cval(a) for a in args]))
      except (ValueError, OverflowError):
        I.raise_(st, 'ValueError')
    if name in ('floor', 'ceil'):
      if args[0].sort == 'int':
        return args[0]
      x = args[0]
      if x.op == 'fn' and x.args[0] == 'f.truediv' and all(y.sort == 'int' for y in x.args[1]):
        a, b = x.args[1]
        return T.fdiv(a, b) if name == 'floor' else T.neg(T.fdiv(T.neg(a), b))
    return T.fn('m.' + name, tuple(args), sort)
  return f


def m_prod(I, st, args, kw):
  from . import loops
  seq = I.iter_seq(st, args[0])
  start = kw.get('start', const(1))
  return loops.fold(I, st, seq, start, lambda s, a, x: I.binop(s, ast.Mult(), a, x))


def m_gcd(I, st, args, kw):
  return T.fn('gcd', tuple(args), 'int')


def it_zip_longest(I, st, args, kw):
  fill = kw.get('fillvalue', NONE)
  seqs = [I.iter_seq(st, a) for a in args]
  lens = [T.length(s) for s in seqs]
  if all(s.op == 'lit' for s in seqs):
    m = max(len(s.args) for s in seqs) if seqs else 0
    return I.alloc(st, ('iter', T.lit([mk('tup', tuple(
        s.args[k] if k < len(s.args) else fill for s in seqs), 'tup') for k in range(m)]), const(0)))
  n = lens[0]
  for m in lens[1:]:
    n = T.minmax('max', n, m)
  seqs = [I.freeze(st, s) for s in seqs]

  def build(n):
    if n.op == 'ite':
      return T.ite(n.args[0], build(n.args[1]), build(n.args[2]))
    i = T.fresh_index(n)
    e = mk('tup', tuple(T.ite(T.lt(i, ln), T.at(s, i), fill) for s, ln in zip(seqs, lens)), 'tup')
    return T.smap(n, T.close(e, [i]))
  return I.alloc(st, ('iter', build(n), const(0)))


def it_product(I, st, args, kw):
  rep = kw.get('repeat')
  if len(args) == 1 and isinstance(args[0], tuple):
    S = I.freeze(st, args[0][1])
    def conv(t):
      return t
    return I.alloc(st, ('iter', T.fn('product', (S,), ('seq', 'tup')), const(0)))
  seqs = [I.freeze(st, I.iter_seq(st, a)) for a in args]
  if rep is not None:
    if rep.op != 'c':
      if len(seqs) == 1:
        return I.alloc(st, ('iter', T.fn('product', (T.smap(rep, T.shift(seqs[0], 1)),), ('seq', 'tup')), const(0)))
      raise Unsupported('product repeat')
    seqs = seqs * int(T.cval(rep))
  total = 1
  for s in seqs:
    total = total * len(s.args) if s.op == 'lit' and total is not None else None
  if total is not None and total <= 256:
    import itertools
    return I.alloc(st, ('iter', T.lit([mk('tup', t, 'tup') for t in itertools.product(*[s.args for s in seqs])]), const(0)))

  def nest(k, pre):
    if k == len(seqs):
      return T.lit([mk('tup', tuple(pre), 'tup')])
    n = T.length(seqs[k])
    i = T.fresh_index(n)
    if k == len(seqs) - 1:
      return T.smap(n, T.close(mk('tup', tuple(pre) + (T.at(seqs[k], i),), 'tup'), [i]))
    return T.flat(n, T.close(nest(k + 1, pre + [T.at(seqs[k], i)]), [i]))
  return I.alloc(st, ('iter', nest(0, []), const(0)))


def it_chain(I, st, args, kw):
  return I.alloc(st, ('iter', T.cat([I.freeze(st, I.iter_seq(st, a)) for a in args]), const(0)))


def it_chain_from(I, st, args, kw):
  from . import loops
  seq = I.freeze(st, I.iter_seq(st, args[0]))
  if seq.op == 'lit':
    return I.alloc(st, ('iter', T.cat([I.iter_seq(st, x) for x in seq.args]), const(0)))
  n = T.length(seq)
  i = T.fresh_index(n)
  return I.alloc(st, ('iter', T.flat(n, T.close(I.iter_seq(st, T.at(seq, i)), [i])), const(0)))


def it_repeat(I, st, args, kw):
  if len(args) < 2:
    raise Unsupported('endless repeat')
  return I.alloc(st, ('iter', repeat(I, st, T.lit([args[0]]), args[1]), const(0)))


def it_islice(I, st, args, kw):
  s = I.iter_seq(st, args[0])
  a = [x for x in args[1:]]
  none = lambda x: None if x is NONE else x
  if len(a) == 1:
    lo, hi, step = None, a[0], None
  else:
    lo, hi, step = none(a[0]), none(a[1]), none(a[2]) if len(a) > 2 else None
  return I.alloc(st, ('iter', T.slice_(s, lo, hi, step), const(0)))


def it_accumulate(I, st, args, kw):
  from . import loops
  seq = I.iter_seq(st, args[0])
  f = args[1] if len(args) > 1 else kw.get('func')
  init = kw.get('initial')
  step = (lambda s, a, x: I.binop(s, ast.Add(), a, x)) if f is None or f is NONE else \
      (lambda s, a, x: I.call(s, f, [a, x], {}))
  return I.alloc(st, ('iter', loops.scan(I, st, seq, init, step), const(0)))


def it_combinations(I, st, args, kw):
  import itertools
  s = I.iter_seq(st, args[0])
  if s.op == 'lit' and args[1].op == 'c':
    return I.alloc(st, ('iter', T.lit([mk('tup', t, 'tup') for t in itertools.combinations(s.args, T.cval(args[1]))]), const(0)))
  raise Unsupported('combinations')


def ft_reduce(I, st, args, kw):
  from . import loops
  f = args[0]
  seq = I.iter_seq(st, args[1])
  if len(args) > 2:
    init = args[2]
  else:
    I.primitive_error(st, T.is_zero(T.length(seq)), 'TypeError')
    init = T.at(seq, const(0))
    seq = T.slice_(seq, const(1), None, None)
  return loops.fold(I, st, seq, init, lambda s, a, x: I.call(s, f, [a, x], {}))


def ft_partial(I, st, args, kw):
  f, pre = args[0], list(args[1:])
  def g(I2, s, a, k):
    kk = dict(kw)
    kk.update(k)
    return I2.call(s, f, pre + list(a), kk)
  return I.pyobj(Builtin('partial', g))


def ft_wraps(I, st, args, kw):
  return I.pyobj(Builtin('wraps', lambda I2, s, a, k: a[0]))


def ft_lru(I, st, args, kw):
  o = I.obj(args[0]) if args and args[0].op == 'py' else None
  if o is not None and o.kind == 'func':
    o.memo = True
    return args[0]
  b = Builtin('lru_cache', ft_lru)
  return I.pyobj(b)


def cp_copy(I, st, args, kw):
  v = args[0]
  if v.op == 'ref':
    p = I.cell(st, v)
    if p[0] == 'inst':
      return I.alloc(st, ('inst', p[1], dict(p[2])))
    return I.alloc(st, p)
  if v.op == 'iref':
    return thaw(I, st, I.freeze(st, v))
  return v


def thaw(I, st, v):
  """A fresh mutable object with the given contents."""
  if T.is_seq(v):
    return I.alloc(st, ('list', v if v.op != 'lit' else T.lit([thaw(I, st, x) for x in v.args])))
  if T.is_dict(v):
    return I.alloc(st, (v.sort[0], v))
  return v


def cp_deepcopy(I, st, args, kw):
  v = args[0]
  seen = {}

  def go(v):
    if v in seen:
      return seen[v]
    if v.op == 'ref':
      p = I.cell(st, v)
      if p[0] == 'list':
        r = I.alloc(st, ('list', T.lit(())))
        seen[v] = r
        s = p[1]
        I.put(st, r, ('list', T.lit([go(x) for x in s.args]) if s.op == 'lit' else s))
        return r
      if p[0] == 'inst':
        r = I.alloc(st, p)
        seen[v] = r
        I.put(st, r, ('inst', p[1], {n: go(x) for n, x in p[2].items()}))
        return r
      return I.alloc(st, p)
    if v.op == 'iref':
      return thaw(I, st, I.freeze(st, v))
    if v.op == 'inst':
      return I.mkinst(v.args[0], v.args[1], [go(x) for x in v.args[2]])
    if v.op == 'tup':
      return mk('tup', tuple(go(x) for x in v.args), 'tup')
    return v
  return go(v)


class OpFn(object):
  def __init__(self, op):
    self.op = op

  def __call__(self, I, st, args, kw):
    return I.binop(st, self.op(), args[0], args[1])


def factorint(I, st, args, kw):
  return I.alloc(st, ('dict', T.fn('factorint', (args[0],), ('dict', 'int'))))


def json_dumps(I, st, args, kw):
  v = I.freeze(st, args[0])
  sk = kw.get('sort_keys', FALSE)
  return T.fn('json', (v, sk), 'str')


def opaque_fn(name, sort='any'):
  def f(I, st, args, kw):
    raise Unsupported('call of %s' % name)
  return f


class DefaultDict(Model):
  name = 'defaultdict'


STD = {
    'time': {'time': t_time, 'perf_counter': t_time, 'monotonic': t_time, 'process_time': t_time,
             'time_ns': nondet('clock', 'int'), 'sleep': b_print},
    'random': {'randint': r_randint, 'randrange': r_randrange, 'getrandbits': r_getrandbits,
               'choice': r_choice, 'shuffle': r_shuffle, 'Random': r_Random, 'SystemRandom': lambda I, st, a, k: r_Random(I, st, [], k),
               'sample': r_sample, 'seed': r_seed,
               'random': nondet('random', 'float'), 'uniform': nondet('uniform', 'float')},
    'os': {'urandom': nondet('bytes', 'bytes'), 'getpid': nondet('pid', 'int')},
    'secrets': {'randbelow': r_randrange, 'token_bytes': nondet('bytes', 'bytes'), 'randbits': r_getrandbits},
    'math': {'log': m_log, 'log2': lambda I, st, a, k: m_log(I, st, [a[0], const(2)], {}), 'floor': m_fl('floor', 'int'),
             'ceil': m_fl('ceil', 'int'), 'sqrt': m_fl('sqrt'), 'prod': m_prod, 'gcd': m_gcd,
             'isqrt': lambda I, st, a, k: T.fn('isqrt', tuple(a), 'int'), 'pow': lambda I, st, a, k: fl(I, 'pow', *a)},
    'itertools': {'zip_longest': it_zip_longest, 'product': it_product, 'chain': it_chain, 'repeat': it_repeat,
                  'islice': it_islice, 'accumulate': it_accumulate, 'combinations': it_combinations},
    'functools': {'reduce': ft_reduce, 'partial': ft_partial, 'wraps': ft_wraps, 'lru_cache': ft_lru,
                  'cache': ft_lru},
    'hashlib': {'blake2s': hasher('blake'), 'sha256': hasher('sha256'), 'sha384': hasher('sha384'),
                'blake2b': hasher('blake2b')},
    'pyblake2': {'blake2s': hasher('blake')},
    'copy': {'copy': cp_copy, 'deepcopy': cp_deepcopy},
    'operator': {'add': OpFn(ast.Add), 'sub': OpFn(ast.Sub), 'mul': OpFn(ast.Mult), 'xor': OpFn(ast.BitXor),
                 'floordiv': OpFn(ast.FloorDiv), 'mod': OpFn(ast.Mod), 'truediv': OpFn(ast.Div), 'pow': OpFn(ast.Pow)},
    'json': {'dumps': json_dumps},
    'sympy': {'factorint': factorint, 'Poly': opaque_fn('sympy.Poly'), 'div': opaque_fn('sympy.div'),
              'invert': opaque_fn('sympy.invert')},
    'sympy.ntheory': {'factorint': factorint},
    'uuid': {'uuid4': nondet('uuid', 'str')},
    'urllib.parse': {'urlparse': lambda *a: parse_url(*a)}, 'sys': {}, 'abc': {'abstractmethod': b_ident}, 'fractions': {},
    'argparse': {}, 'requests': {}, 'flask': {}, 'typing': {}, 'collections': {}, 'string': {},
    'numpy': {}, 'dataclasses': {}, 'contextlib': {}, 'urllib': {}, 'unittest': {}, 'sys ': {}, 'logging': {},
    'warnings': {}, 'struct': {}, 'types': {}, 'enum': {},
}

# names a star import brings in
STAR = {'sympy': ('factorint', 'Poly', 'div', 'invert')}


class TypingName(Model):
  name = 'typing'

  def getitem(self, I, st, key):
    return I.pyobj(self)

  def get(self, I, st, name):
    return I.pyobj(self)

  def call(self, I, st, args, kw):
    return I.pyobj(self)


class ParsedUrl(Model):
  """The result of urlparse: computed for literals, opaque attributes otherwise."""
  name = 'url'

  def __init__(self, t):
    self.t = t

  def get(self, I, st, attr):
    if self.t.op == 'c':
      from urllib.parse import urlparse
      try:
        return const(getattr(urlparse(T.cval(self.t)), attr))
      except (ValueError, AttributeError, TypeError):
        raise Unsupported('attribute %s of an address' % attr)
    return T.fn('url.' + attr, (self.t,), 'str')


def parse_url(I, st, args, kw):
  if len(args) != 1 or args[0].sort != 'str':
    raise Unsupported('urlparse')
  return I.pyobj(ParsedUrl(args[0]))


class ExtName(Model):
  def __init__(self, name):
    self.name = name

  def get(self, I, st, attr):
    c = I.contracts.get(self.name)
    if c is not None:
      I.hits.add(self.name)
      return I.getattr(st, c[1], attr)
    v = I.ext_models.get(self.name + '.' + attr)
    if v is not None:
      return v
    return I.pyobj(ExtName(self.name + '.' + attr))

  def call(self, I, st, args, kw):
    c = I.contracts.get(self.name)
    if c is not None:
      I.hits.add(self.name)
      return I.call(st, c[1], args, kw)
    h = I.ext_models.get(self.name)
    if h is not None and callable(h):
      return h(I, st, args, kw)
    raise Unsupported('call of external %s' % self.name)

  def method(self, I, st, name, args, kw):
    c = I.contracts.get(self.name)
    if c is not None:
      I.hits.add(self.name)
      return I.call_method(st, c[1], name, args, kw)
    c = I.contracts.get(self.name + '.' + name)
    if c is not None:
      I.hits.add(self.name + '.' + name)
      return I.call(st, c[1], args, kw)
    h = I.ext_models.get(self.name + '.' + name)
    if h is not None and callable(h):
      return h(I, st, args, kw)
    raise Unsupported('call of external %s.%s' % (self.name, name))


def contractable(qual, fn):
  """a modelled library function that a law may replace by a contract"""
  def call(I, st, args, kw):
    c = I.contracts.get(qual)
    if c is not None:
      I.hits.add(qual)
      return I.call(st, c[1], args, kw)
    return fn(I, st, args, kw)
  return call


def external_module(I, name):
  top = name.split('.')[0]
  if name not in STD and top not in STD:
    return None
  m = Module(name)
  table = STD.get(name, {})
  cache = {}

  def attr(I2, n):
    if n in cache:
      return cache[n]
    if name == 'typing':
      v = I2.pyobj(TypingName())
    elif n in table:
      b = Builtin(n, contractable(name + '.' + n, table[n]))
      v = I2.pyobj(b)
      if name == 'itertools' and n == 'chain':
        b.kind = 'model'
        b.get = lambda I3, st, a: I3.pyobj(Builtin('from_iterable', it_chain_from)) if a == 'from_iterable' else None
        b.method = lambda I3, st, a, args, kw: it_chain_from(I3, st, args, kw)
        b.call = lambda I3, st, args, kw: it_chain(I3, st, args, kw)
    elif name == 'fractions' and n == 'Fraction':
      v = I2.btypes['Fraction']
    elif name == 'math' and n in ('pi', 'e', 'inf'):
      v = const(getattr(math, n))
    elif name == 'abc' and n == 'ABC':
      v = I2.btypes['object']
    elif name + '.' + n in STD:
      v = I2.pyobj(I2.load_module(name + '.' + n))
    elif name == 'itertools' and n == 'izip_longest':
      return None
    else:
      v = I2.pyobj(ExtName(name + '.' + n))
    cache[n] = v
    return v
  m.ext = attr
  m.star = STAR.get(name, ())
  return m
