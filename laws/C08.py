"""Univariate polynomials over an arbitrary coefficient field."""
from starks.polynomial import polynomials_over


def trim(cs):
  """the coefficient list without trailing zeros"""
  n = len(cs)
  while n > 0 and cs[n - 1] == 0:
    n -= 1
  return cs[:n]


def coeff(cs, i):
  return cs[i] if i < len(cs) else field()(0)


@config(field='prime')
def law_construct(xs: Seq(Elt)):
  """a coefficient list is stored without trailing zeros"""
  P = polynomials_over(field())
  same(P(xs).coefficients, trim(xs))


@config(field='prime')
def law_construct_tuple(xs: TupOf(Elt)):
  """a tuple of coefficients is stored without trailing zeros"""
  P = polynomials_over(field())
  same(P(xs).coefficients, trim(list(xs)))


@config(field='prime')
def law_construct_ints(xs: Seq(Int)):
  """integer coefficients are converted to the ring"""
  P = polynomials_over(field())
  same(P(xs).coefficients, trim([field()(x) for x in xs]))


@config(field='prime')
def law_construct_factory(xs: Seq(Int)):
  """the factory converts every coefficient"""
  P = polynomials_over(field())
  same(P.factory(xs).coefficients, trim([field()(x) for x in xs]))


@config(field='prime')
def law_construct_scalar(a: Elt, k: Int):
  """a scalar is the constant polynomial"""
  P = polynomials_over(field())
  same(P(a).coefficients, trim([a]))
  same(P(k).coefficients, trim([field()(k)]))


@config(field='prime')
def law_construct_copy(xs: Seq(Elt)):
  """a polynomial built from a polynomial is equal to it"""
  P = polynomials_over(field())
  same(P(P(xs)).coefficients, trim(xs))


@config(field='prime')
def law_construct_bytes(n: Small, b: Bytes(32 * n)):
  """bytes are decoded 32 at a time, low degree first, without trailing zeros"""
  P = polynomials_over(field())
  same(P(b).coefficients, trim([field()(b[32 * i:32 * i + 32]) for i in range(n)]))


@config(field='prime')
def law_bytes_length(b: Bytes):
  """byte strings whose length is no multiple of 32 are rejected"""
  P = polynomials_over(field())
  same(raised(lambda: P(b), 'ValueError'), len(b) % 32 != 0)


@config(field='prime')
def law_add(xs: Seq(Elt), ys: Seq(Elt)):
  """coefficients of a sum are sums of coefficients"""
  P = polynomials_over(field())
  f, g = P(xs), P(ys)
  cs = (f + g).coefficients
  same(cs, trim([coeff(f.coefficients, i) + coeff(g.coefficients, i)
                 for i in range(max(len(f.coefficients), len(g.coefficients)))]))


@config(field='prime')
def law_neg(xs: Seq(Elt)):
  """negation negates every coefficient"""
  P = polynomials_over(field())
  f = P(xs)
  same((-f).coefficients, trim([-x for x in f.coefficients]))


@config(field='prime')
def law_sub(xs: Seq(Elt), ys: Seq(Elt)):
  """coefficients of a difference are differences of coefficients"""
  P = polynomials_over(field())
  f, g = P(xs), P(ys)
  same((f - g).coefficients, trim([coeff(f.coefficients, i) - coeff(g.coefficients, i)
                 for i in range(max(len(f.coefficients), len(g.coefficients)))]))


@config(field='prime')
def law_mul(xs: Seq(Elt), ys: Seq(Elt)):
  """coefficients of a product are convolutions"""
  P = polynomials_over(field())
  f, g = P(xs), P(ys)
  a, b = f.coefficients, g.coefficients
  n = len(a) + len(b) - 1 if len(a) > 0 and len(b) > 0 else 0
  same((f * g).coefficients, trim([sum([a[j] * b[i - j] for j in range(len(a)) if 0 <= i - j and i - j < len(b)], field()(0)) for i in range(n)]))


@config(field='prime')
def law_eval(xs: Seq(Elt), x: Elt):
  """evaluation is the sum of coefficients times powers"""
  P = polynomials_over(field())
  f = P(xs)
  cs = f.coefficients
  same(f(x), sum([cs[i] * x**i for i in range(len(cs))], field()(0)))


@config(field='prime')
def law_eval_int(xs: Seq(Elt), x: Int):
  """integer points are converted"""
  P = polynomials_over(field())
  f = P(xs)
  cs = f.coefficients
  same(f(x), sum([cs[i] * field()(x)**i for i in range(len(cs))], field()(0)))


@config(field='prime')
def law_measure(xs: Seq(Elt)):
  """degree, length, valuation, leading coefficient and zero test are those of the stripped list"""
  P = polynomials_over(field())
  f = P(xs)
  cs = trim(xs)
  same(len(f), len(cs))
  same(abs(f), len(cs))
  same(f.degree(), len(cs) - 1)
  same(f.is_zero(), len(cs) == 0)
  same(list(f), cs)
  assume(len(cs) > 0)
  same(f.leading_coefficient(), cs[len(cs) - 1])


@config(field='prime')
def law_eq(xs: Seq(Elt), ys: Seq(Elt)):
  """polynomials are equal exactly when their coefficient lists are"""
  P = polynomials_over(field())
  f, g = P(xs), P(ys)
  a, b = f.coefficients, g.coefficients
  same(f == g, len(a) == len(b) and all([a[i] == b[i] for i in range(len(a))]))
  same(f != g, not (len(a) == len(b) and all([a[i] == b[i] for i in range(len(a))])))


@config(field='prime')
def law_mixed(xs: Seq(Elt), k: Int, a: Elt):
  """integers and ring elements act as constant polynomials on either side"""
  P = polynomials_over(field())
  f = P(xs)
  same((f + k).coefficients, (f + P([k])).coefficients)
  same((k + f).coefficients, (f + P([k])).coefficients)
  same((f * k).coefficients, (f * P([k])).coefficients)
  same((k * f).coefficients, (f * P([k])).coefficients)
  same((f - k).coefficients, (f - P([k])).coefficients)
  same((k - f).coefficients, (P([k]) - f).coefficients)
  same((f + a).coefficients, (f + P([a])).coefficients)
  same((f * a).coefficients, (f * P([a])).coefficients)
