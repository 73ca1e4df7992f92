"""The boundary law: value of a field beyond its stored range, one axis."""
from props.common import *  # pylint: disable=wildcard-import,unused-wildcard-import

EXT, MIR = 'extend', 'mirror'


class AnyOf:
  """A value the rules leave open among alternatives."""

  def __init__(self, *alts):
    self.alts = alts


def extended(u, n, types, values, offset, step, mode, sides=(True, True)):
  """i -> value of u continued beyond [0, n); u: index -> Expr on [0, n).

  sides tells which ends were extended: on those the stored wall element (if
  any) is the boundary constant; on the others it may be either.
  """
  if types[0] == PER:
    return u
  frac = offset % 1

  def f(i):
    s = side(i, n)
    if frac == HALF:
      if s == 0:
        return u(i)
      k = 0 if s < 0 else 1
      m = minus(-1, i) if s < 0 else minus(plus(times(2, n), -1), i)
      if mode == EXT:
        m = X.ZERO if s < 0 else minus(n, 1)
      if types[k] == DIR:
        return minus(times(2, values[k]), u(m))
      return plus(u(m), times(s, step, values[k]))
    # wall aligned: stored index of the lower / upper wall
    lw = -offset
    hw = minus(n, offset)
    if any(a.op == 'idx' for a in E(i).atoms()):
      return u(i)
    for k, wall in ((0, E(lw)), (1, E(hw))):
      d = minus(i, wall)
      sg = X.sign_of(d)
      beyond = sg < 0 if k == 0 else sg > 0
      if sg == 0:
        if s != 0:
          return E(values[k])
        if sides[k]:
          return E(values[k])
        return AnyOf(u(i), E(values[k]))
      if beyond:
        if mode == EXT:
          return E(values[k])
        return minus(values[k], u(minus(times(2, wall), i)))
    return u(i)
  return f


def along(world, name, axis, periodic):
  """ix -> (i -> u[ix with axis replaced])."""
  def at_(ix):
    return lambda i: world.rd(name, *(ix[:axis] + (E(i),) + ix[axis + 1:]),
                              periodic=periodic)
  return at_


def pointwise_any(got, shape, spec, what='value', radius=4):
  """pointwise() where spec may return AnyOf."""
  a = arr_of(got)

  def one(*ix):
    w = spec(*ix)
    if isinstance(w, AnyOf):
      g = at(a, [(None, i) for i in ix]) if all(
          not any(t.op == 'idx' for t in i.atoms()) for i in ix) else None
      if g is None:
        key = [(None, i) if not any(t.op == 'idx' for t in i.atoms())
               else (first_interior(a, j), i) for j, i in enumerate(ix)]
        g = at(a, key)
      for alt in w.alts:
        if X.equal(g, E(alt)):
          return g
      return w.alts[0]
    return w
  pointwise(got, shape, one, what, radius)


def first_interior(a, j):
  from props import common  # pylint: disable=import-outside-toplevel
  ks = common._interior(a, j)  # pylint: disable=protected-access
  return ks[0] if ks else 0
