"""Fields under a boundary law, read anywhere: the textbook side of stencils."""
from props.bclaw import *  # pylint: disable=wildcard-import,unused-wildcard-import

P2, D2, N2 = (PER, PER), (DIR, DIR), (NEU, NEU)
DN, ND_ = (DIR, NEU), (NEU, DIR)
KINDS = (P2, D2, N2, DN, ND_)


def bvalues(types, zero=False, tag=''):
  return [(None, None) if t[0] == PER else
          (ZERO, ZERO) if zero else
          (X.sym(f'a{tag}{d}'), X.sym(f'b{tag}{d}'))
          for d, t in enumerate(types)]


class Field:
  """A variable consistent with its condition, and its value at any index."""

  def __init__(self, ctx, w, name, offset, types=None, zero=False, tag='',
               pos=False):
    types = types or (P2,) * w.ndim
    self.ctx, self.w, self.name = ctx, w, name
    self.types, self.values = types, bvalues(types, zero, tag)
    self.offset = tuple(offset)
    self.per = tuple(t[0] == PER for t in types)
    self.bc = w.bc(types, self.values)
    self.pos = pos
    a = w.array(name, offset, self.per, pos=pos)
    if any(not p and o % 1 == 0 for p, o in zip(self.per, offset)):
      self.var = meth(ctx, self.bc, 'impose_bc', a)
    else:
      self.var = ctx.call('base.grids:GridVariable', a, self.bc)

  def stored(self, *ix):
    """Stored value: the wall constant on stored wall nodes, else the data."""
    for d in reversed(range(self.w.ndim)):
      o = self.offset[d]
      if self.per[d] or o % 1:
        continue
      if o == 0 and X.equal(E(ix[d]), X.ZERO):
        return E(self.values[d][0])
      if o == 1 and X.equal(E(ix[d]), minus(self.w.n[d], 1)):
        return E(self.values[d][1])
    return self.w.rd(self.name, *ix, periodic=self.per, pos=self.pos)

  def val(self, *ix, upto=None):
    """Value at (possibly out of range) index: axis laws applied in turn."""
    d = self.w.ndim - 1 if upto is None else upto
    ix = tuple(E(i) for i in ix)
    if d < 0:
      return self.stored(*ix)
    inner = lambda i: self.val(*(ix[:d] + (E(i),) + ix[d + 1:]), upto=d - 1)
    if self.per[d] or side(ix[d], self.w.n[d]) == 0:
      return inner(ix[d])
    return extended(inner, self.w.n[d], self.types[d], self.values[d],
                    self.offset[d], self.w.h[d], EXT)(ix[d])

  def sh(self, ix, d, k):
    return self.val(*shifted(ix, d, k))


def fwd(f, w, ix, d):
  """(f[i+1] - f[i]) / h; f: callable on indices."""
  return over(minus(f(*shifted(ix, d, 1)), f(*ix)), w.h[d])


def bwd(f, w, ix, d):
  return over(minus(f(*ix), f(*shifted(ix, d, -1))), w.h[d])


def ctr(f, w, ix, d):
  return over(minus(f(*shifted(ix, d, 1)), f(*shifted(ix, d, -1))),
              times(2, w.h[d]))


def lap(f, w, ix):
  out = X.ZERO
  for d in range(w.ndim):
    s = plus(f(*shifted(ix, d, 1)), f(*shifted(ix, d, -1)),
             times(-2, f(*ix)))
    out = plus(out, over(s, times(w.h[d], w.h[d])))
  return out


def moved(offset, d, k):
  return tuple(o + k if a == d else o for a, o in enumerate(offset))


def ext_along(w, f, d, types, values, offset, mode=EXT):
  """f: stored values (index function) of a field with `offset`; extended on d."""
  if types[d][0] == PER:
    return f

  def g(*ix):
    ix = tuple(E(i) for i in ix)
    if side(ix[d], w.n[d]) == 0:
      return f(*ix)
    inner = lambda i: f(*(ix[:d] + (E(i),) + ix[d + 1:]))
    return extended(inner, w.n[d], types[d], values[d], offset[d], w.h[d],
                    mode)(ix[d])
  return g


def linear_to(w, f, types, values, offset, target):
  """Stored values after axis-by-axis linear interpolation to `target`."""
  import math  # pylint: disable=import-outside-toplevel
  o = list(offset)
  for d in range(w.ndim):
    delta = Fraction(target[d]) - o[d]
    if delta == 0:
      continue
    lo, hi = math.floor(delta), math.ceil(delta)
    g = ext_along(w, f, d, types, values, tuple(o))
    wt = delta - lo

    def nf(*ix, g=g, d=d, lo=lo, hi=hi, wt=wt):
      a = g(*shifted(ix, d, lo))
      if lo == hi:
        return a
      b = g(*shifted(ix, d, hi))
      return plus(times(1 - wt, a), times(wt, b))
    f = nf
    o[d] = Fraction(target[d])
  return f


def pos_part(cond, a, b):
  """where(cond > 0, a, b)."""
  return X.where(X.gt0(E(cond)), E(a), E(b))
