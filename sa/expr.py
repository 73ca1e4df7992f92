"""Normal forms for scalar terms (the value-numbering part of the analysis).

An `Expr` is a multivariate generalized polynomial over hash-consed atoms, kept
in a canonical form: two syntactically different program expressions that are
equal by ring arithmetic (commuting, distributing, regrouping, dividing, taking
a `where` apart into indicator functions, ...) get the same object.
"""
from fractions import Fraction
import functools
import math
import random

MAXTERMS = 60000


class Undecided(Exception):
  """The analysis cannot model a construct (never means 'violation')."""


class Atom:
  __slots__ = ('op', 'args', 'id', 'real', 'pos', 'nonneg', 'boolean', 'deps',
               'big', 'integer')
  table = {}
  by_id = []

  def __repr__(self):
    return show_atom(self)


def _deps(args):
  d = frozenset()
  for a in args:
    if isinstance(a, Expr):
      d |= a.deps()
    elif isinstance(a, tuple):
      d |= _deps(a)
  return d


def mkatom(op, args=(), real=True, pos=False, nonneg=False, boolean=False,
           bound=frozenset(), big=False, integer=False):
  key = (op, args)
  a = Atom.table.get(key)
  if a is None:
    a = Atom()
    a.op = op
    a.args = args
    a.id = len(Atom.by_id)
    a.real = real
    a.pos = pos
    a.nonneg = nonneg or pos or boolean
    a.boolean = boolean
    a.big = big
    a.integer = integer or boolean or big
    if op in ('idx', 'bv', 'vb'):
      a.deps = frozenset([(op,) + args])
    else:
      a.deps = _deps(args) - bound
    Atom.table[key] = a
    Atom.by_id.append(a)
  return a


class Expr:
  """Sum of coefficient * product(atom ** exponent); immutable, canonical."""
  __slots__ = ('t', '_h', '_d')

  def __init__(self, terms):
    self.t = terms
    self._h = None
    self._d = None

  def __hash__(self):
    if self._h is None:
      self._h = hash(frozenset(self.t.items()))
    return self._h

  def __eq__(self, o):
    if isinstance(o, (int, Fraction)):
      return self.t == const(o).t
    if not isinstance(o, Expr):
      return NotImplemented
    return self.t == o.t

  def deps(self):
    if self._d is None:
      d = set()
      for m in self.t:
        for i, _ in m:
          d |= Atom.by_id[i].deps
      self._d = frozenset(d)
    return self._d

  def is_const(self):
    return not self.t or (len(self.t) == 1 and () in self.t)

  def const_value(self):
    return self.t.get((), Fraction(0))

  def atoms(self):
    s = {}
    for m in self.t:
      for i, _ in m:
        s[i] = Atom.by_id[i]
    return list(s.values())

  def is_real(self):
    return all(a.real for a in self.atoms())

  def __repr__(self):
    return show(self)

  # arithmetic sugar used by the rules
  def __add__(self, o):
    o = lift(o)
    return NotImplemented if o is None else add(self, o)
  __radd__ = __add__

  def __neg__(self):
    return scale(self, -1)

  def __sub__(self, o):
    o = lift(o)
    return NotImplemented if o is None else add(self, scale(o, -1))

  def __rsub__(self, o):
    o = lift(o)
    return NotImplemented if o is None else add(o, scale(self, -1))

  def __mul__(self, o):
    o = lift(o)
    return NotImplemented if o is None else mul(self, o)
  __rmul__ = __mul__

  def __truediv__(self, o):
    o = lift(o)
    return NotImplemented if o is None else mul(self, power(o, -1))

  def __rtruediv__(self, o):
    o = lift(o)
    return NotImplemented if o is None else mul(o, power(self, -1))

  def __pow__(self, e):
    if isinstance(e, Expr):
      if e.is_const():
        e = e.const_value()
      else:
        return apply_op('pow', (self, e))
    return power(self, Fraction(e))

  def __rpow__(self, b):
    b = lift(b)
    return NotImplemented if b is None else apply_op('pow', (b, self))


def lift(x):
  if isinstance(x, Expr):
    return x
  if isinstance(x, bool):
    return ONE if x else ZERO
  if isinstance(x, (int, Fraction)):
    return const(x)
  if isinstance(x, float):
    return from_float(x)
  if isinstance(x, complex):
    return add(from_float(x.real), mul(from_float(x.imag), I))
  return None


def from_float(x):
  if x != x:
    return sym('nan')
  if x == float('inf'):
    return sym('inf', pos=True)
  if x == -float('inf'):
    return scale(sym('inf', pos=True), -1)
  return const(Fraction(repr(x)))


_const_cache = {}


def const(c):
  if not isinstance(c, Fraction):
    c = Fraction(c)
  if c == 0:
    return ZERO
  e = _const_cache.get(c)
  if e is None:
    e = Expr({(): c})
    _const_cache[c] = e
  return e


ZERO = Expr({})
ONE = const(1)


def of_atom(a):
  return Expr({((a.id, Fraction(1)),): Fraction(1)})


def sym(name, pos=False, real=True, nonneg=False, big=False, integer=False):
  return of_atom(mkatom('sym', (name,), real=real, pos=pos, nonneg=nonneg,
                        big=big, integer=integer))


_IA = mkatom('I', (), real=False)
I = of_atom(_IA)
PI = sym('pi', pos=True)


def idx(j):
  return of_atom(mkatom('idx', (j,), nonneg=True, integer=True))


def bv(k):
  return of_atom(mkatom('bv', (k,), nonneg=True, integer=True))


def vb(k):
  return of_atom(mkatom('vb', (k,), nonneg=True, integer=True))


def scale(a, c):
  c = Fraction(c)
  if c == 0:
    return ZERO
  if c == 1:
    return a
  return Expr({m: v * c for m, v in a.t.items()})


def add(a, b):
  if not a.t:
    return b
  if not b.t:
    return a
  if len(a.t) < len(b.t):
    a, b = b, a
  r = dict(a.t)
  for m, v in b.t.items():
    w = r.get(m)
    if w is None:
      r[m] = v
    else:
      w = w + v
      if w == 0:
        del r[m]
      else:
        r[m] = w
  return Expr(r)


def add_many(xs):
  r = {}
  for x in xs:
    for m, v in x.t.items():
      w = r.get(m, 0) + v
      if w == 0:
        r.pop(m, None)
      else:
        r[m] = w
  return Expr(r)


def _merge(m1, m2):
  """Merges two sorted monomials; returns list of (id, exp)."""
  r = []
  i = j = 0
  n1, n2 = len(m1), len(m2)
  while i < n1 and j < n2:
    a, b = m1[i], m2[j]
    if a[0] == b[0]:
      e = a[1] + b[1]
      if e != 0:
        r.append((a[0], e))
      i += 1
      j += 1
    elif a[0] < b[0]:
      r.append(a)
      i += 1
    else:
      r.append(b)
      j += 1
  r.extend(m1[i:])
  r.extend(m2[j:])
  return tuple(r)


_SPECIAL = {'I', 'gt0', 'eq0', 'pw', 'abs', 'num', 'nz', 'boolc'}


def _fix_mono(m):
  """Normalizes a merged monomial; returns None if already normal, or Expr."""
  special = None
  for k, (i, e) in enumerate(m):
    a = Atom.by_id[i]
    if a.op in _SPECIAL or a.boolean:
      special = True
      break
  if not special:
    return None
  coef = Fraction(1)
  out = []
  extra = []
  gts = []
  eqs = []
  changed = False
  for i, e in m:
    a = Atom.by_id[i]
    if a.op == 'I':
      if e.denominator == 1:
        k = int(e) % 4
        if k in (2, 3):
          coef = -coef
        if k % 2:
          out.append((i, Fraction(1)))
        if k % 2 != e:
          changed = True
      else:
        out.append((i, e))
    elif a.boolean:
      if e != 1:
        if e > 0:
          e = Fraction(1)
          changed = True
      out.append((i, e))
      if a.op == 'gt0':
        gts.append(a)
      elif a.op == 'eq0':
        eqs.append(a)
    elif a.op == 'pw':
      if e.denominator == 1 and e > 0:
        changed = True
        p = a.args[0]
        for _ in range(int(e)):
          extra.append(p)
      elif e > 1:
        n = e.numerator // e.denominator
        changed = True
        for _ in range(n):
          extra.append(a.args[0])
        out.append((i, e - n))
      else:
        out.append((i, e))
    elif a.op == 'abs':
      if e.denominator == 1 and e % 2 == 0 and a.args[0].is_real():
        changed = True
        extra.append(power(a.args[0], e))
      elif e.denominator == 1 and e > 1 and a.args[0].is_real():
        changed = True
        extra.append(power(a.args[0], e - 1))
        out.append((i, Fraction(1)))
      else:
        out.append((i, e))
    elif a.op == 'num':
      n = e.numerator // e.denominator
      if n:
        changed = True
        coef *= Fraction(a.args[0]) ** n
        e = e - n
      if e:
        out.append((i, e))
    else:
      out.append((i, e))
  # contradictory indicators
  if len(gts) > 1:
    s = {g.args[0] for g in gts}
    for g in gts:
      if scale(g.args[0], -1) in s:
        return ZERO
  if eqs:
    gs = {g.args[0] for g in gts}
    for q in eqs:
      p = q.args[0]
      if p in gs or scale(p, -1) in gs:
        return ZERO
      if len(p.t) == 1:
        (mm, _), = p.t.items()
        if len(mm) == 1:
          for i, e in out:
            if i == mm[0][0] and e > 0:
              return ZERO
            aa = Atom.by_id[i]
            if aa.op == 'abs' and aa.args[0] == p and e > 0:
              return ZERO
  if not changed:
    return None
  r = Expr({tuple(out): coef})
  for x in extra:
    r = mul(r, x)
  return r


def mul(a, b):
  if not a.t or not b.t:
    return ZERO
  if len(a.t) == 1 and () in a.t:
    return scale(b, a.t[()])
  if len(b.t) == 1 and () in b.t:
    return scale(a, b.t[()])
  if len(a.t) * len(b.t) > MAXTERMS:
    raise Undecided('term too large')
  r = {}
  others = []
  for m1, c1 in a.t.items():
    for m2, c2 in b.t.items():
      if not m1:
        m = m2
      elif not m2:
        m = m1
      else:
        m = _merge(m1, m2)
        fx = _fix_mono(m)
        if fx is not None:
          others.append(scale(fx, c1 * c2))
          continue
      w = r.get(m, 0) + c1 * c2
      if w == 0:
        r.pop(m, None)
      else:
        r[m] = w
  e = Expr(r)
  if others:
    e = add_many([e] + others)
  return e


def leading(a):
  """Deterministic leading coefficient."""
  return a.t[min(a.t)]


def content(a):
  g = None
  for v in a.t.values():
    v = abs(v)
    if g is None:
      g = v
    else:
      g = Fraction(math.gcd(g.numerator * v.denominator,
                            v.numerator * g.denominator),
                   g.denominator * v.denominator)
  return g


def mono_gcd(a):
  """Common monomial factor (dict id -> exp), exponent min over the terms."""
  it = iter(a.t)
  first = dict(next(it))
  for m in it:
    d = dict(m)
    for k in list(first):
      if k not in d:
        if first[k] > 0:
          del first[k]
        # negative exponent: min(first, 0) stays
      else:
        first[k] = min(first[k], d[k])
    for k, e in d.items():
      if k not in first and e < 0:
        first[k] = e
  # a positive common exponent must be in all; negatives: pulled out fully
  return first


def booleans(a):
  return [x for x in a.atoms() if x.boolean]


def subst_atom_const(a, atom, val):
  """Replaces boolean `atom` by 0 or 1 in the top-level monomials of a."""
  r = []
  for m, c in a.t.items():
    if any(i == atom.id for i, _ in m):
      if val:
        r.append(Expr({tuple((i, e) for i, e in m if i != atom.id): c}))
    else:
      r.append(Expr({m: c}))
  return add_many(r)


def shannon(f, a):
  """f(a) = b f(a|b=1) + (1-b) f(a|b=0) over the indicator atoms of a."""
  bs = booleans(a)
  if not bs:
    return None
  if len(bs) > 8:
    raise Undecided('too many indicators under a non-linear function')
  b = min(bs, key=lambda x: x.id)
  be = of_atom(b)
  return add(mul(be, f(subst_atom_const(a, b, 1))),
             mul(add(ONE, scale(be, -1)), f(subst_atom_const(a, b, 0))))


_pow_cache = {}


def power(a, e):
  e = Fraction(e)
  if e == 1:
    return a
  if e == 0:
    return ONE
  key = (a, e)
  r = _pow_cache.get(key)
  if r is None:
    r = _power(a, e)
    _pow_cache[key] = r
  return r


def _power(a, e):
  if not a.t:
    if e > 0:
      return ZERO
    return sym('zerodiv')
  if e.denominator == 1 and e > 0 and len(a.t) > 1:
    if e > 12:
      raise Undecided('large power')
    r = ONE
    for _ in range(int(e)):
      r = mul(r, a)
    return r
  if booleans(a):
    return shannon(lambda x: power(x, e), a)
  if len(a.t) == 1:
    (m, c), = a.t.items()
    return _mono_power(m, c, e)
  # polynomial to a negative or fractional power
  g = content(a)
  lead = leading(a)
  neg = lead < 0
  integral = e.denominator == 1
  factor = g
  if integral and neg:
    factor = -g
  p = scale(a, 1 / factor)
  mg = mono_gcd(p)
  keep = {}
  for i, x in mg.items():
    at = Atom.by_id[i]
    if x == 0 or at.op in ('I',):
      continue
    if integral or at.pos or at.nonneg:
      keep[i] = x
    elif x.denominator == 1 and x % 2 == 0 and at.real:
      keep[i] = x
  r = _const_power(factor, e)
  if keep:
    mm = tuple(sorted(keep.items()))
    inv = tuple((i, -x) for i, x in mm)
    p = mul(p, Expr({inv: Fraction(1)}))
    r = mul(r, _mono_power(mm, Fraction(1), e))
    if len(p.t) == 1:
      return mul(r, power(p, e))
    # renormalize the leading sign (ordering may change after division)
    if integral and leading(p) < 0:
      p = scale(p, -1)
      if int(e) % 2:
        r = scale(r, -1)
  at = mkatom('pw', (p,), real=p.is_real())
  return mul(r, Expr({((at.id, e),): Fraction(1)}))


def _const_power(c, e):
  c = Fraction(c)
  if e.denominator == 1:
    return const(c ** int(e))
  if c < 0:
    if e == Fraction(1, 2):
      return mul(I, _const_power(-c, e))
    at = mkatom('pw', (const(c),), real=False)
    return Expr({((at.id, e),): Fraction(1)})
  out = ONE
  for n, s in ((c.numerator, 1), (c.denominator, -1)):
    k = 2
    while n > 1 and k * k <= n and k < 100000:
      cnt = 0
      while n % k == 0:
        n //= k
        cnt += 1
      if cnt:
        out = mul(out, _prime_power(k, e * cnt * s))
      k += 1
    if n > 1:
      out = mul(out, _prime_power(n, e * s))
  return out


def _prime_power(p, e):
  n = e.numerator // e.denominator
  f = e - n
  r = const(Fraction(p) ** n)
  if f:
    at = mkatom('num', (p,), pos=True)
    r = mul(r, Expr({((at.id, f),): Fraction(1)}))
  return r


def _mono_power(m, c, e):
  r = _const_power(c, e)
  integral = e.denominator == 1
  for i, x in m:
    a = Atom.by_id[i]
    y = x * e
    if integral or a.nonneg:
      piece = Expr({((i, y),): Fraction(1)})
      fx = _fix_mono(((i, y),)) if a.op in _SPECIAL or a.boolean else None
      piece = fx if fx is not None else piece
    elif x.denominator == 1 and x % 2 == 0 and a.real:
      piece = power(absolute(Expr({((i, Fraction(1)),): Fraction(1)})), y)
    else:
      at = mkatom('pw', (Expr({((i, x),): Fraction(1)}),), real=a.real)
      piece = Expr({((at.id, e),): Fraction(1)})
    r = mul(r, piece)
  return r


def absolute(a):
  if not a.t:
    return ZERO
  if a.is_const():
    return const(abs(a.const_value()))
  s = sign_of(a)
  if s is not None and s >= 0:
    return a
  if s is not None:
    return scale(a, -1)
  if booleans(a):
    return shannon(absolute, a)
  if len(a.t) == 1:
    (m, c), = a.t.items()
    r = const(abs(c))
    for i, e in m:
      at = Atom.by_id[i]
      if at.op == 'I':
        continue
      if at.nonneg or at.op == 'abs':
        r = mul(r, Expr({((i, e),): Fraction(1)}))
      elif at.real and e.denominator == 1 and e % 2 == 0:
        r = mul(r, Expr({((i, e),): Fraction(1)}))
      elif at.op == 'exp':
        # |exp(i x)| = 1 for real x
        p = at.args[0]
        q = mul(p, scale(I, -1))
        if q.is_real():
          continue
        x = mkatom('abs', (Expr({((i, Fraction(1)),): Fraction(1)}),), nonneg=True)
        r = mul(r, Expr({((x.id, e),): Fraction(1)}))
      else:
        x = mkatom('abs', (Expr({((i, Fraction(1)),): Fraction(1)}),),
                   nonneg=True)
        r = mul(r, Expr({((x.id, e),): Fraction(1)}))
    return r
  g = content(a)
  if leading(a) < 0:
    g = -g
  p = scale(a, 1 / g)
  mg = {i: x for i, x in mono_gcd(p).items() if x != 0}
  r = const(abs(g))
  if mg:
    mm = tuple(sorted(mg.items()))
    p = mul(p, Expr({tuple((i, -x) for i, x in mm): Fraction(1)}))
    r = mul(r, absolute(Expr({mm: Fraction(1)})))
    if len(p.t) == 1:
      return mul(r, absolute(p))
    if leading(p) < 0:
      p = scale(p, -1)
  x = mkatom('abs', (p,), nonneg=True)
  return mul(r, of_atom(x))


def gt0(a):
  """Indicator [a > 0]."""
  if a.is_const():
    return ONE if a.const_value() > 0 else ZERO
  s = sign_of(a)
  if s is not None:
    return ONE if s > 0 else ZERO
  if booleans(a):
    return shannon(gt0, a)
  a = scale(a, 1 / content(a))
  mg = {i: x for i, x in mono_gcd(a).items()
        if x != 0 and (Atom.by_id[i].pos or
                       (Atom.by_id[i].real and x.denominator == 1
                        and x % 2 == 0 and x < 0))}
  if mg:
    a = mul(a, Expr({tuple(sorted((i, -x) for i, x in mg.items())): Fraction(1)}))
    if a.is_const():
      return gt0(a)
  if len(a.t) == 1:
    (m, c), = a.t.items()
    if c > 0 and all(Atom.by_id[i].nonneg or Atom.by_id[i].pos for i, _ in m):
      return add(ONE, scale(eq0(a), -1))
    if c < 0 and all(Atom.by_id[i].nonneg or Atom.by_id[i].pos for i, _ in m):
      return ZERO
  # sign of a quotient
  for i, x in mono_gcd(a).items():
    at = Atom.by_id[i]
    if x < 0 and x.denominator == 1 and x % 2 and at.real and not at.pos:
      n = mul(a, Expr({((i, -x),): Fraction(1)}))
      d = of_atom(at)
      if at.op == 'pw':
        d = at.args[0]
      return add(mul(gt0(n), gt0(d)),
                 mul(gt0(scale(n, -1)), gt0(scale(d, -1))))
  return of_atom(mkatom('gt0', (a,), boolean=True))


def eq0(a):
  if not a.t:
    return ONE
  if a.is_const():
    return ZERO
  s = sign_of(a)
  if s is not None and s != 0:
    return ZERO
  if booleans(a):
    return shannon(eq0, a)
  a = scale(a, 1 / content(a))
  if leading(a) < 0:
    a = scale(a, -1)
  mg = {i: x for i, x in mono_gcd(a).items()
        if x != 0 and (Atom.by_id[i].pos or x < 0)}
  if mg:
    a = mul(a, Expr({tuple(sorted((i, -x) for i, x in mg.items())): Fraction(1)}))
    if a.is_const():
      return ZERO
    if leading(a) < 0:
      a = scale(a, -1)
  if len(a.t) == 1:
    # product is zero iff one factor is zero
    (m, _), = a.t.items()
    r = None
    for i, e in m:
      at = Atom.by_id[i]
      if e < 0 or at.pos or at.op == 'I':
        continue
      base = at.args[0] if at.op == 'abs' else of_atom(at)
      if at.op == 'abs':
        z = eq0(base)
      else:
        z = of_atom(mkatom('eq0', (base,), boolean=True))
      r = z if r is None else add(add(r, z), scale(mul(r, z), -1))
    if r is None:
      return ZERO
    return r
  return of_atom(mkatom('eq0', (a,), boolean=True))


_FLOAT = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'exp': math.exp,
          'log': math.log, 'tanh': math.tanh, 'arctan': math.atan}


def float_of(a):
  """Numerical value of a closed real constant (None if it is not one)."""
  if len(a.t) > 40:
    return None
  total, size = 0.0, 0.0
  for m, c in a.t.items():
    v = float(c)
    for i, e in m:
      x = _atom_float(Atom.by_id[i])
      if x is None or (x <= 0 and e.denominator != 1) or (x == 0 and e < 0):
        return None
      v *= x ** float(e)
    total += v
    size += abs(v)
  if abs(total) <= 1e-9 * size:
    return None
  return total


def _atom_float(at):
  f = _FLOATS.get(at.id, 0)
  if f == 0:
    f = None
    if at.op == 'sym':
      f = math.pi if at.args == ('pi',) else None
    elif at.op in _FLOAT and len(at.args) == 1:
      x = float_of(at.args[0]) if isinstance(at.args[0], Expr) else None
      if x is not None:
        try:
          f = _FLOAT[at.op](x)
        except (ValueError, OverflowError):
          f = None
    elif at.op == 'num':
      f = float(at.args[0])
    elif at.op == 'pw' and isinstance(at.args[0], Expr):
      f = float_of(at.args[0])
    _FLOATS[at.id] = f
  return f


_FLOATS = {}


def sign_of(a):
  """Sign of a if it can be read off, else None."""
  r = _sign_of(a)
  if r is None:
    v = float_of(a)
    if v is not None:
      r = 1 if v > 0 else -1
  return r


def _sign_of(a):
  if a.is_const():
    c = a.const_value()
    return (c > 0) - (c < 0)
  allpos = True
  signs = set()
  strict = False
  for m, c in a.t.items():
    sgn = 1 if c > 0 else -1
    mpos = True
    for i, e in m:
      at = Atom.by_id[i]
      if at.pos:
        continue
      if not (at.nonneg or (at.real and e.denominator == 1 and e % 2 == 0)):
        allpos = False
        break
      mpos = False
    if not allpos:
      break
    signs.add(sgn)
    if mpos:
      strict = True
  if allpos and len(signs) == 1 and strict:
    return signs.pop()
  # size arithmetic: dominated by the top-degree terms in the large sizes
  # (a floor differs from its argument by less than one)
  fl = {}
  for m, _ in a.t.items():
    for i, e in m:
      at = Atom.by_id[i]
      if at.op == 'floor' and e == 1 and len(m) == 1:
        fl[i] = at.args[0]
  if fl:
    p = add_many([scale(fl[m[0][0]], c) if m and m[0][0] in fl else Expr({m: c})
                  for m, c in a.t.items()])
    if not p.is_const():
      return sign_of(p)
    # floor(x) lies in (x - 1, x]
    up = sum(-c for m, c in a.t.items() if m and m[0][0] in fl and c < 0)
    down = sum(c for m, c in a.t.items() if m and m[0][0] in fl and c > 0)
    v = p.const_value()
    if v - down >= 0 and (v or not down) and v > 0:
      return 1
    if v + up <= 0 and v < 0:
      return -1
    return None
  deg = {}
  for m, c in a.t.items():
    d = Fraction(0)
    for i, e in m:
      at = Atom.by_id[i]
      if not at.big or e < 0:
        return None
      d += e
    deg.setdefault(d, []).append(c)
  top = max(deg)
  cs = deg[top]
  if top > 0 and (all(c > 0 for c in cs) or all(c < 0 for c in cs)):
    return 1 if cs[0] > 0 else -1
  return None


# ---------------------------------------------------------------- functions

def _odd(op):
  def f(a):
    if not a.t:
      return ZERO
    if booleans(a):
      return shannon(f, a)
    if leading(a) < 0:
      return scale(of_atom(mkatom(op, (scale(a, -1),), real=a.is_real())), -1)
    return of_atom(mkatom(op, (a,), real=a.is_real()))
  return f


_sin0 = _odd('sin')
_tan0 = _odd('tan')


def _pi_multiple(a):
  if len(a.t) == 1:
    (m, c), = a.t.items()
    if len(m) == 1 and Atom.by_id[m[0][0]].op == 'sym' and \
        Atom.by_id[m[0][0]].args == ('pi',) and m[0][1] == 1:
      return c
  return None


def sin(a):
  c = _pi_multiple(a)
  if c is not None:
    if (2 * c).denominator == 1:
      return const([0, 1, 0, -1][int(2 * c) % 4])
  return _sin0(a)


def cos(a):
  if not a.t:
    return ONE
  if booleans(a):
    return shannon(cos, a)
  c = _pi_multiple(a)
  if c is not None:
    if (2 * c).denominator == 1:
      return const([1, 0, -1, 0][int(2 * c) % 4])
  if leading(a) < 0:
    a = scale(a, -1)
  return of_atom(mkatom('cos', (a,), real=a.is_real()))


def exp(a):
  if not a.t:
    return ONE
  if booleans(a):
    return shannon(exp, a)
  r = ONE
  for m, c in a.t.items():
    e = Expr({m: Fraction(1)})
    at = mkatom('exp', (e,), real=e.is_real(), pos=e.is_real())
    r = mul(r, Expr({((at.id, c),): Fraction(1)}))
  return r


def log(a):
  if a == ONE:
    return ZERO
  if booleans(a):
    return shannon(log, a)
  if len(a.t) == 1:
    (m, c), = a.t.items()
    if c > 0 and all(Atom.by_id[i].pos for i, _ in m):
      r = ZERO
      if c != 1:
        r = of_atom(mkatom('log', (const(c),)))
      for i, e in m:
        at = Atom.by_id[i]
        if at.op == 'exp':
          r = add(r, scale(at.args[0], e))
        else:
          r = add(r, scale(of_atom(mkatom('log', (of_atom(at),))), e))
      return r
  return of_atom(mkatom('log', (a,), real=a.is_real()))


def floor(a):
  """floor with the integral part pulled out."""
  ip = ZERO
  rest = ZERO
  for m, c in a.t.items():
    integral = all(Atom.by_id[i].integer and e.denominator == 1 and e > 0
                   for i, e in m)
    if integral:
      k = Fraction(c.numerator // c.denominator)
      ip = add(ip, Expr({m: k}) if k else ZERO)
      c = c - k
    if c:
      rest = add(rest, Expr({m: c}))
  if rest.is_const():
    c = rest.const_value()
    return add(ip, const(c.numerator // c.denominator))
  # 0 <= rest < 1 for a proper constant fraction was handled above
  if booleans(rest):
    return add(ip, shannon(floor, rest))
  # nonnegative constant summand below the granularity of the rest: k/d with
  # integer rest n/d: floor((n + r)/d), keep as is.
  return add(ip, of_atom(mkatom('floor', (rest,), integer=True,
                                nonneg=_nonneg(rest))))


def _nonneg(a):
  s = sign_of(a)
  return s is not None and s >= 0


def unary(op):
  def f(a):
    if booleans(a):
      return shannon(f, a)
    return of_atom(mkatom(op, (a,), real=a.is_real()))
  return f


_log1p = unary('log1p')


def conj(a):
  if a.is_real():
    return a
  r = []
  for m, c in a.t.items():
    e = const(c)
    for i, x in m:
      at = Atom.by_id[i]
      one = Expr({((i, x),): Fraction(1)})
      if at.real:
        pass
      elif at.op == 'I':
        one = power(scale(I, -1), x)
      elif at.op == 'conj':
        one = power(at.args[0], x)
      elif at.op == 'exp':
        one = power(exp(conj(at.args[0])), x)
      elif at.op == 'pw':
        one = power(conj(at.args[0]), x)
      else:
        one = Expr({((mkatom('conj', (of_atom(at),), real=False).id, x),):
                    Fraction(1)})
      e = mul(e, one)
    r.append(e)
  return add_many(r)


def _split_i(a):
  """Returns (p, q) with a = p + I q, p and q free of top-level I."""
  p, q = {}, {}
  for m, c in a.t.items():
    if any(i == _IA.id for i, _ in m):
      q[tuple(x for x in m if x[0] != _IA.id)] = c
    else:
      p[m] = c
  return Expr(p), Expr(q)


def real(a):
  if a.is_real():
    return a
  p, q = _split_i(a)
  r = []
  for part, nm, sg in ((p, 're', 1), (q, 'im', -1)):
    for m, c in part.t.items():
      rl = tuple(x for x in m if Atom.by_id[x[0]].real)
      cx = tuple(x for x in m if not Atom.by_id[x[0]].real)
      e = Expr({rl: c * sg})
      if cx:
        e = mul(e, of_atom(mkatom(nm, (Expr({cx: Fraction(1)}),))))
      elif nm == 'im':
        e = ZERO
      r.append(e)
  return add_many(r)


def imag(a):
  return real(mul(a, scale(I, -1)))


def sgn(a):
  return add(gt0(a), scale(gt0(scale(a, -1)), -1))


def maximum(a, b):
  d = add(a, scale(b, -1))
  s = sign_of(d)
  if s is not None:
    return a if s >= 0 else b
  return scale(add(add(a, b), absolute(d)), Fraction(1, 2))


def minimum(a, b):
  d = add(a, scale(b, -1))
  s = sign_of(d)
  if s is not None:
    return b if s >= 0 else a
  return scale(add(add(a, b), scale(absolute(d), -1)), Fraction(1, 2))


def where(c, a, b):
  return add(mul(c, a), mul(add(ONE, scale(c, -1)), b))


def lnot(c):
  return add(ONE, scale(c, -1))


def land(a, b):
  return mul(a, b)


def lor(a, b):
  return add(add(a, b), scale(mul(a, b), -1))


# ---------------------------------------------------------------- reads

def _reduce_mod(e, n):
  """Canonical representative of index e modulo the (symbolic) size n."""
  # the leading (non-constant) term of n
  if n.is_const():
    if e.is_const():
      return const(e.const_value() % n.const_value())
    nm, nc = (), n.const_value()
  else:
    nm = min(m for m in n.t if m)
    nc = n.t[nm]
  c = e.t.get(nm, Fraction(0))
  q = c / nc
  k = q.numerator // q.denominator
  if k:
    e = add(e, scale(n, -k))
  return e


def rd(name, per, ix, real_=True, pos=False):
  """Element of the abstract array `name` at index tuple ix.

  per[k] is the period of axis k (an Expr), or None when not periodic.
  """
  ix = tuple(_reduce_mod(e, p) if p is not None else e
             for e, p in zip(ix, per))
  a = mkatom('rd', (name, per, ix, real_), real=real_, pos=pos)
  if a.pos != pos:
    raise Undecided(f'cells of {name} are both positive and signed')
  return of_atom(a)


def apply_op(op, args, real_=None):
  """Rebuilds an application in normal form (used by substitution)."""
  f = _BUILD.get(op)
  if f is not None:
    return f(*args)
  if real_ is None:
    real_ = True
  return of_atom(mkatom(op, tuple(args), real=real_))


def _powsym(a, b):
  if b.is_const():
    return power(a, b.const_value())
  if a == ONE:
    return ONE
  if booleans(b):
    return shannon(lambda x: _powsym(a, x), b)
  if booleans(a):
    return shannon(lambda x: _powsym(x, b), a)
  # a ** (c + sum) = a**c * prod a**(term)
  r = ONE
  for m, c in b.t.items():
    if not m:
      r = mul(r, power(a, c))
    else:
      at = mkatom('pow', (a, Expr({m: Fraction(1)})), real=a.is_real(),
                  pos=bool(sign_of(a) and sign_of(a) > 0))
      r = mul(r, Expr({((at.id, c),): Fraction(1)}))
  return r


_BUILD = {
    'gt0': gt0, 'eq0': eq0, 'abs': absolute, 'sin': sin, 'cos': cos,
    'exp': exp, 'log': log, 'floor': floor, 'conj': conj, 'pow': _powsym,
    're': real, 'im': imag, 'tan': _tan0,
}

FUNCTIONAL = {}  # op -> rebuild(args) for binder atoms, registered by arr.py


def subst(e, mp):
  """Simultaneous substitution of idx/bv/vb/sym atoms. mp: Atom.id -> Expr."""
  if not mp:
    return e
  return _Subst(mp).expr(e)


class _Subst:

  def __init__(self, mp):
    self.mp = mp
    self.keys = set()
    self.general = False
    for i in mp:
      a = Atom.by_id[i]
      if a.op in ('idx', 'bv', 'vb'):
        self.keys.add((a.op,) + a.args)
      else:
        self.general = True
    self.cache = {}

  def touches(self, deps):
    return self.general or not self.keys.isdisjoint(deps)

  def expr(self, e):
    if not self.touches(e.deps()):
      return e
    r = self.cache.get(e)
    if r is not None:
      return r
    out = []
    for m, c in e.t.items():
      hit = False
      cur = None
      rest = []
      for i, x in m:
        a = Atom.by_id[i]
        if i in self.mp:
          p = power(self.mp[i], x)
        elif self.touches(a.deps):
          p = power(self.atom(a), x)
        else:
          rest.append((i, x))
          continue
        hit = True
        cur = p if cur is None else mul(cur, p)
      if not hit:
        out.append(Expr({m: c}))
      else:
        out.append(mul(Expr({tuple(rest): c}), cur))
    r = add_many(out)
    self.cache[e] = r
    return r

  def arg(self, x):
    if isinstance(x, Expr):
      return self.expr(x)
    if isinstance(x, tuple):
      return tuple(self.arg(y) for y in x)
    return x

  def atom(self, a):
    r = self.cache.get(a)
    if r is not None:
      return r
    if a.op == 'pw':
      r = self.expr(a.args[0])
    elif a.op == 'rd':
      name, per, ix, real_ = a.args
      r = rd(name, self.arg(per), self.arg(ix), real_, a.pos)
    elif a.op in FUNCTIONAL:
      r = FUNCTIONAL[a.op](self, a)
    else:
      args = self.arg(a.args)
      if args == a.args:
        r = of_atom(a)
      elif a.op in _BUILD:
        r = _BUILD[a.op](*args)
      else:
        r = of_atom(mkatom(a.op, args, real=a.real, pos=a.pos, nonneg=a.nonneg,
                           boolean=a.boolean, integer=a.integer))
    self.cache[a] = r
    return r


# ---------------------------------------------------------------- equality

def _clear(e):
  """Multiplies out negative powers of 'pw' atoms (numerator of e)."""
  for _ in range(12):
    worst = {}
    for m in e.t:
      for i, x in m:
        a = Atom.by_id[i]
        if a.op == 'pw' and x < 0:
          n = -((x.numerator) // x.denominator)  # ceil(-x)
          worst[i] = max(worst.get(i, 0), n)
    if not worst:
      return e
    i = min(worst)
    n = worst[i]
    e = mul(e, Expr({((i, Fraction(n)),): Fraction(1)}))  # plain merge
    # monomials that did not have the atom now carry a positive power: expand
    out = []
    for m, c in e.t.items():
      fx = _fix_mono(m)
      out.append(scale(fx, c) if fx is not None else Expr({m: c}))
    e = add_many(out)
  return e


def _sign_args(e, acc):
  for a in e.atoms():
    if a.op in ('gt0', 'abs', 'eq0'):
      p = a.args[0]
      if leading(p) < 0:
        p = scale(p, -1)
      if p.is_real():
        acc[p] = True
      _sign_args(p, acc)
    elif a.op == 'pw':
      _sign_args(a.args[0], acc)


def _under_sign(e, p, s):
  """e restricted to the abstract sign s of polynomial p."""
  mp = {}
  np_ = scale(p, -1)

  def visit(x):
    for a in x.atoms():
      if a.id in mp:
        continue
      if a.op in ('gt0', 'abs', 'eq0'):
        q = a.args[0]
        if q == p or q == np_:
          t = s if q == p else -s
          if a.op == 'gt0':
            mp[a.id] = ONE if t > 0 else ZERO
          elif a.op == 'eq0':
            mp[a.id] = ONE if t == 0 else ZERO
          else:
            mp[a.id] = scale(q, t) if t else ZERO
          continue
        visit(q)
      elif a.op == 'pw':
        visit(a.args[0])
  visit(e)
  r = subst(e, mp) if mp else e
  if s == 0:
    # eliminate a linear atom of p
    for m, c in p.t.items():
      if len(m) == 1 and m[0][1] == 1:
        i = m[0][0]
        if sum(1 for mm in p.t for j, _ in mm if j == i) == 1:
          val = scale(add(Expr({m: c}), np_), 1 / c)
          r = subst(r, {i: val})
          break
  return r


_feasible = {}


def _infeasible(cons, p, s):
  """Whether sign(p) = s contradicts the signs in cons, as linear constraints
  over the monomials (exact for linear arguments, else only an outer bound)."""
  key = (frozenset(cons), p, s)
  r = _feasible.get(key)
  if r is None:
    r = _feasible[key] = not _solvable(cons + ((p, s),))
  return r


def _solvable(cons):
  strict, eqs, names = [], [], set()
  for q, t in cons:
    row = {m: (c if t >= 0 else -c) for m, c in q.t.items()}
    names.update(m for m in row if m)
    (strict if t else eqs).append(row)
  for m in names:
    if all(Atom.by_id[i].pos for i, _ in m):
      strict.append({m: Fraction(1)})

  def plus_(a, b, k):
    r = dict(a)
    for m, c in b.items():
      v = r.get(m, 0) + k * c
      if v:
        r[m] = v
      else:
        r.pop(m, None)
    return r
  while eqs:
    e = eqs.pop()
    piv = next((m for m in e if m), None)
    if piv is None:
      if e.get((), 0):
        return False
      continue
    sub = lambda r: plus_(r, e, -r[piv] / e[piv]) if piv in r else r
    eqs, strict = [sub(r) for r in eqs], [sub(r) for r in strict]
  while strict:
    live = []
    for r in strict:
      if any(m for m in r):
        live.append(r)
      elif r.get((), 0) <= 0:
        return False
    if not live or len(live) > 400:
      return True
    count = {}
    for r in live:
      for m, c in r.items():
        if m:
          u = count.setdefault(m, [0, 0])
          u[c > 0] += 1
    v = min(count, key=lambda m: (count[m][0] * count[m][1], m))
    up = [r for r in live if r.get(v, 0) > 0]
    dn = [r for r in live if r.get(v, 0) < 0]
    rest = [r for r in live if v not in r]
    seen = set()
    for a in up:
      for b in dn:
        r = plus_({m: c / a[v] for m, c in a.items()}, b, -1 / b[v])
        k = frozenset(r.items())
        if k not in seen:
          seen.add(k)
          rest.append(r)
    strict = rest
  return True


def is_zero(e, depth=0, cons=()):
  """Decides e == 0 as far as ring arithmetic and sign cases can tell."""
  if not e.t:
    return True
  acc = {}
  _sign_args(e, acc)
  if not acc:
    return not _clear(e).t
  if depth == 0:
    try:
      if not _clear(e).t:
        return True
    except Undecided:
      pass
  if depth >= 9:
    raise Undecided('too many sign cases')
  p = min(acc, key=lambda q: (len(q.t), min(q.t)))
  for s in (1, -1, 0):
    if _infeasible(cons, p, s):
      continue
    r = _under_sign(e, p, s)
    if r == e:
      return False
    if not is_zero(r, depth + 1, cons + ((p, s),)):
      return False
  return True


_FUNCS = {'abs': abs, 'exp': math.exp, 'log': math.log, 'sin': math.sin,
          'cos': math.cos, 'gt0': lambda x: float(x > 0),
          'eq0': lambda x: float(x == 0)}


class _Sample:
  """One assignment of reals to the free cells of an expression."""

  def __init__(self, rng):
    self.rng = rng
    self.val = {}

  def atom(self, a):
    v = self.val.get(a.id)
    if v is None:
      if a.op == 'sym' and a.args == ('pi',):
        v = math.pi
      elif a.op in ('sym', 'rd'):
        if a.deps or not a.real or a.integer or a.boolean:
          raise Undecided('too many sign cases')
        v = (self.rng.uniform(0.05, 3) if self.rng.random() < 0.6 else
             10 ** self.rng.uniform(-3, 1))
        if not (a.pos or a.nonneg) and self.rng.random() < 0.5:
          v = -v
      elif a.op == 'pw':
        v = self.poly(a.args[0])[0]
      elif a.op == 'num':
        v = float(a.args[0])
      elif a.op in _FUNCS and len(a.args) == 1:
        w, size = self.poly(a.args[0])
        if a.op in ('gt0', 'eq0') and abs(w) < 1e-7 * size:
          raise ValueError  # too close to call
        v = _FUNCS[a.op](w)
      else:
        f = _atom_float(a)
        if f is None:
          raise Undecided('too many sign cases')
        v = f
      self.val[a.id] = v
    return v

  def poly(self, e):
    total = size = 0.0
    for m, c in e.t.items():
      x = float(c)
      for i, k in m:
        x *= self.atom(Atom.by_id[i]) ** float(k)
      if isinstance(x, complex):
        raise ValueError
      total += x
      size += abs(x)
    return total, size


def _differs(e):
  """A set of cell values at which e is not zero (the cells are independent,
  so one is enough)."""
  rng = random.Random(7)
  for _ in range(60):
    try:
      v, size = _Sample(rng).poly(e)
    except (ValueError, ZeroDivisionError, OverflowError):
      continue
    if abs(v) > 1e-6 * size:
      return True
  return False


def equal(a, b):
  if a == b:
    return True
  d = add(a, scale(b, -1))
  try:
    return is_zero(d)
  except Undecided:
    if _differs(d):
      return False
    raise


# ---------------------------------------------------------------- printing

_shown = {}


def show_atom(a):
  r = _shown.get(a.id)
  if r is None:
    r = _show_atom(a)
    if len(r) > 400:
      r = r[:260] + ' ... ' + r[-120:]
    _shown[a.id] = r
  return r


def _show_atom(a):
  if a.op == 'sym':
    return str(a.args[0])
  if a.op == 'idx':
    return 'ijklmn'[a.args[0]] if a.args[0] < 6 else f'i{a.args[0]}'
  if a.op == 'bv':
    return f'%{a.args[0]}'
  if a.op == 'rd':
    return f"{a.args[0]}[{', '.join(show(x) for x in a.args[2])}]"
  if a.op == 'pw':
    return f'({show(a.args[0])})'
  if a.op == 'num':
    return str(a.args[0])
  if a.op == 'gt0':
    return f'[{show(a.args[0])} > 0]'
  if a.op == 'eq0':
    return f'[{show(a.args[0])} == 0]'

  def sh(x):
    if isinstance(x, Expr):
      return show(x)
    if isinstance(x, tuple):
      return '(' + ', '.join(sh(y) for y in x) + ')'
    return str(x)
  return f"{a.op}({', '.join(sh(x) for x in a.args)})" if a.args else a.op


def show(e, limit=40):
  if not e.t:
    return '0'
  parts = []
  for n, (m, c) in enumerate(sorted(e.t.items(), key=lambda kv: str(kv[0]))):
    if n >= limit:
      parts.append(f' + ...({len(e.t) - limit} more)')
      break
    fs = []
    for i, x in m:
      s = show_atom(Atom.by_id[i])
      if x != 1:
        s += f'^{x}' if x.denominator == 1 else f'^({x})'
      fs.append(s)
    if not fs:
      t = str(abs(c))
    elif abs(c) == 1:
      t = '*'.join(fs)
    else:
      t = '*'.join([str(abs(c))] + fs)
    parts.append((' - ' if c < 0 else (' + ' if n else '')) + t)
  return ''.join(parts).strip()
