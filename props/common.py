"""Shared vocabulary of the rules: symbolic grids, fields and pointwise specs."""
from fractions import Fraction
import itertools

from sa import arr as A
from sa import expr as X
from sa import models as M
from sa.arr import Arr
from sa.expr import Expr, Undecided
from sa.interp import Inst, PyRaise
from sa.rules import Violated, diff, short

HALF = Fraction(1, 2)
ZERO, ONE = Fraction(0), Fraction(1)

PER, DIR, NEU = 'periodic', 'dirichlet', 'neumann'
LET = 'xyz'


def E(x):
  """Lifts ints / fractions / rank-0 arrays to an expression."""
  if isinstance(x, Arr):
    return x.scalar()
  return X.lift(x)


def plus(*xs):
  return X.add_many([E(x) for x in xs])


def minus(a, b):
  return X.add(E(a), X.scale(E(b), -1))


def times(*xs):
  r = X.ONE
  for x in xs:
    r = X.mul(r, E(x))
  return r


def over(a, b):
  return X.mul(E(a), X.power(E(b), -1))


def n_sym(d, tag='n'):
  return X.sym(f'{tag}{d}', pos=True, big=True, integer=True)


def h_sym(d):
  return X.sym(f'h{d}', pos=True)


class World:
  """A symbolic grid of `ndim` axes with sizes n_d and steps h_d."""

  def __init__(self, ctx, ndim, shape=None, tag='n'):
    self.ctx, self.ndim = ctx, ndim
    self.n = tuple(n_sym(d, tag) if shape is None else shape[d]
                   for d in range(ndim))
    self.h = tuple(h_sym(d) for d in range(ndim))
    self.lo = tuple(X.sym(f'lo{d}') for d in range(ndim))
    self.domain = tuple(
        (l, X.add(l, X.mul(E(n), h)))
        for l, n, h in zip(self.lo, self.n, self.h))
    self.grid = ctx.make('base.grids:Grid', tuple(A.dim(x) for x in self.n),
                         domain=self.domain)

  # ---------------------------------------------------------------- values

  def bc(self, types, values=None):
    """ConstantBoundaryConditions; types/values: per axis pair."""
    types = tuple((t, t) if isinstance(t, str) else tuple(t) for t in types)
    if values is None:
      values = tuple((None, None) if t[0] == PER else (ZERO, ZERO)
                     for t in types)
    return self.ctx.make('base.boundaries:ConstantBoundaryConditions',
                         types, tuple(values))

  def periodic(self):
    return self.ctx.make('base.boundaries:periodic_boundary_conditions',
                         self.ndim)

  def data(self, name, periodic=True, shape=None, pos=False):
    if periodic in (True, False):
      periodic = (periodic,) * self.ndim
    return A.field(name, shape or self.n, periodic, pos=pos)

  def array(self, name, offset, periodic=True, grid=None, shape=None,
            pos=False):
    return self.ctx.make('base.grids:GridArray',
                         self.data(name, periodic, shape, pos),
                         tuple(offset), grid or self.grid)

  def wrap(self, data, offset, bc=None):
    g = self.ctx.make('base.grids:GridArray', data, tuple(offset), self.grid)
    if bc is None:
      return g
    return self.ctx.make('base.grids:GridVariable', g, bc)

  def var(self, name, offset, bc=None, pos=False):
    if bc is None:
      bc = self.periodic()
    per = tuple(t[0] == PER for t in bc.attrs['types'])
    return self.ctx.make('base.grids:GridVariable',
                         self.array(name, offset, per, pos=pos), bc)

  def velocity(self, name='u', bc=None):
    """Staggered velocity: component d at offset (1/2.. 1 at d ..1/2)."""
    return tuple(self.var(f'{name}{d}', face(self.ndim, d), bc)
                 for d in range(self.ndim))

  # ---------------------------------------------------------------- spec side

  def rd(self, name, *ix, periodic=True, pos=False):
    if periodic in (True, False):
      periodic = (periodic,) * self.ndim
    per = tuple(E(n) if p else None for n, p in zip(self.n, periodic))
    ix = tuple(E(i) for i in ix)
    return X.rd(name, per, ix, True, pos)


def center(ndim):
  return (HALF,) * ndim


def face(ndim, d, v=ONE):
  return tuple(v if k == d else HALF for k in range(ndim))


def arr_of(v):
  """The data of a GridArray / GridVariable / bare array."""
  if isinstance(v, Inst):
    if 'array' in v.attrs:
      return arr_of(v.attrs['array'])
    if 'data' in v.attrs:
      return arr_of(v.attrs['data'])
  return M.to_arr(v)


def offset_of(v):
  if 'array' in v.attrs:
    return offset_of(v.attrs['array'])
  off = v.attrs['offset']
  if not isinstance(off, (tuple, list)):
    if isinstance(off, Arr) and off.shape is not None and off.ndim == 1 and all(
        c.is_const() for c in off.cells.values()) and isinstance(
            off.shape[0], int):
      return tuple(at(off, [(None, X.const(i))]).const_value()
                   for i in range(off.shape[0]))
    if off is None or isinstance(off, (Inst, str, dict)) or M.is_num(off) or (
        isinstance(off, Arr) and off.shape is not None):
      raise Violated(f'offset of {v.cls.name} is {short(off)}')
    raise Undecided(f'offset of {v.cls.name}: {short(off)}')
  for o in off:
    if not (M.is_num(o) or isinstance(o, Expr)):
      raise Violated(f'offset of {v.cls.name} is {short(off)}')
  return tuple(Fraction(o) if not isinstance(o, Expr) else o.const_value()
               for o in off)


def grid_of(v):
  if 'array' in v.attrs:
    return grid_of(v.attrs['array'])
  return v.attrs['grid']


def bc_of(v):
  return v.attrs['bc']


def is_kind(v, name):
  return isinstance(v, Inst) and v.cls.name == name


def need(cond, msg):
  if not cond:
    raise Violated(msg)


def need_kind(v, name, what='result'):
  need(is_kind(v, name), f'{what}: expected a {name}, got {short(v)}')


def need_offset(v, want, what='offset'):
  got = offset_of(v)
  need(tuple(got) == tuple(want), f'{what}: {fmt(got)} expected {fmt(want)}')


def fmt(t):
  return '(' + ', '.join(str(x) for x in t) + ')'


# ---------------------------------------------------------------- pointwise

def _interior(a, j):
  """Segment of axis j that holds a generic interior index."""
  n = E(a.shape[j])
  out = []
  for k, (lo, hi) in enumerate(A.bounds(a, j)):
    ln = X.add(E(hi), X.scale(E(lo), -1))
    if not ln.is_const():
      out.append(k)
  return out


def axis_points(a, j, radius):
  """[(segment or None, index expr)] of axis j to compare at."""
  n = a.shape[j]
  if isinstance(n, int):
    if n > 64:
      raise Undecided(f'axis of {n} elements is too long to enumerate')
    return [(None, X.const(q)) for q in range(n)]
  pts = []
  seen = set()

  def put(p):
    p = E(p)
    if p in seen:
      return
    s0 = X.sign_of(p)
    s1 = X.sign_of(X.add(E(n), X.scale(p, -1)))
    if s0 is None or s1 is None or (s0 < 0) or s1 <= 0:
      return
    seen.add(p)
    pts.append((None, p))
  for q in range(radius):
    put(q)
    put(X.add(E(n), X.const(-1 - q)))
  for b in a.br[j]:
    put(b)
    put(X.add(E(b), X.const(-1)))
  for k in _interior(a, j):
    pts.append((k, X.idx(j)))
  return pts


def at(a, ix):
  """Element of `a` at [(segment, expr)] per axis."""
  if not ix:
    return a.scalar()
  mp = {}
  key = []
  for j, (k, e) in enumerate(ix):
    if k is None:
      k = 0
      for b in a.br[j]:
        if A.cmp_dim(b, A.dim(e) if e.is_const() else e) <= 0:
          k += 1
      mp[X.mkatom('idx', (j,)).id] = e
    key.append(k)
  e = a.cells[tuple(key)]
  return X.subst(e, mp) if mp else e


def pointwise(got, shape, spec, what='value', radius=2):
  """got must have `shape` and equal spec(index...) at every index.

  The comparison is made at the generic interior index of every cell and at
  the concrete indices next to both ends and to every breakpoint.
  """
  a = arr_of(got)
  shape = tuple(A.dim(s) for s in shape)
  if a.shape is None:
    raise Undecided(f'{what}: opaque result {short(a)}')
  if len(a.shape) != len(shape) or not all(map(A.same_dim, a.shape, shape)):
    raise Violated(f'{what}: shape {A.fmt_shape(a.shape)}, expected '
                   f'{A.fmt_shape(shape)}')
  for combo in itertools.product(
      *[axis_points(a, j, radius if isinstance(radius, int) else radius[j])
        for j in range(len(shape))]):
    g = at(a, combo)
    w = E(spec(*[e for _, e in combo]))
    if not X.equal(g, w):
      pos = ', '.join(str(e) for _, e in combo)
      raise Violated(f'{what} at index ({pos}): {X.show(g, 12)}  expected  '
                     f'{X.show(w, 12)}')


def side(i, n):
  """-1 / 0 / +1: index below 0, inside, at or beyond n.

  A generic index (one that mentions idx) is inside by construction: the
  boundary rows are compared at concrete indices.
  """
  i = E(i)
  if any(at_.op == 'idx' for at_ in i.atoms()):
    return 0
  s = X.sign_of(i)
  if s is None:
    raise Undecided(f'cannot place index {i}')
  if s < 0:
    return -1
  s = X.sign_of(X.add(i, X.scale(E(n), -1)))
  if s is None:
    raise Undecided(f'cannot place index {i} against {n}')
  return 1 if s >= 0 else 0


def shifted(ix, d, k):
  return tuple(X.add(E(i), E(k)) if a == d else E(i)
               for a, i in enumerate(ix))


def ghosted(world, name, types, values, offset):
  """f(ix) with the boundary law applied outside the stored range.

  types/values per axis pairs.  One ghost layer per side, the law of each
  side being the textbook one for cell-centred axes, and the boundary value
  itself for wall-aligned ones.
  """
  per = tuple(t[0] == PER for t in types)
  n = world.n

  def val(*ix):
    for d in range(world.ndim):
      if per[d]:
        continue
      s = side(ix[d], n[d])
      if s == 0:
        continue
      k = 0 if s < 0 else 1
      t, v = types[d][k], values[d][k]
      o = offset[d] % 1
      if t == DIR and o == HALF:
        m = (minus(-1, ix[d]) if s < 0
             else minus(plus(times(2, n[d]), -1), ix[d]))
        inner = shifted(ix[:d] + (m,) + ix[d + 1:], d, 0)
        return minus(times(2, v), val(*inner))
      if t == DIR:
        return E(v)
      if t == NEU:
        m = (minus(-1, ix[d]) if s < 0
             else minus(plus(times(2, n[d]), -1), ix[d]))
        inner = ix[:d] + (m,) + ix[d + 1:]
        # derivative along +axis equals v: ghost = inner -+ distance * v
        return plus(val(*inner), times(s, world.h[d], v))
      raise Undecided(f'no law for {t}')
    return world.rd(name, *ix, periodic=per)
  return val


# ------------------------------------------------------- driving the analysis

def ev(ctx, src, **names):
  """Evaluates a driver expression / statements over analysed values."""
  import ast  # pylint: disable=import-outside-toplevel
  from sa import interp as IN  # pylint: disable=import-outside-toplevel
  mod = IN.Module('<driver>', '<driver>')
  mod.vars.update(np=IN.Ext('numpy'), jnp=IN.Ext('jax.numpy'),
                  jax=IN.Ext('jax'))
  mod.vars.update(names)
  tree = ast.parse(src.strip(), mode='exec')
  env = IN.Env(None, mod)
  env.vars = mod.vars
  last = tree.body[-1]
  if isinstance(last, ast.Expr):
    if tree.body[:-1]:
      ctx.ip.exec_block(tree.body[:-1], env)
    return ctx.ip.eval(last.value, env)
  ctx.ip.exec_block(tree.body, env)
  return mod.vars


def meth(ctx, obj, name, *args, **kwargs):
  """obj.name(*args); the method becomes the construct that is reported."""
  f = ctx.ip.getattr(obj, name)
  ctx.anchor_ = getattr(f, 'func', f)
  return ctx.ip.call(f, list(args), kwargs)


def prop(ctx, obj, name):
  if isinstance(obj, Inst):
    m, _ = obj.cls.lookup(name)
    ctx.anchor_ = getattr(m, 'fget', None) or obj.cls
  return ctx.ip.getattr(obj, name)


def pyfn(name, fn):
  """A host callback usable as a function value of the analysed program."""
  from sa import interp as IN  # pylint: disable=import-outside-toplevel
  return IN.PyFn(fn, name)


def opaque_fn(name, log=None):
  """An unknown array function: elementwise-opaque, shape preserving."""
  def fn(ip, args, kwargs):
    if log is not None:
      log.append((name, tuple(args), dict(kwargs)))
    arrs = [M.to_arr(a) for a in args]
    return A.ewise(lambda *es: X.apply_op('user_' + name, es), *arrs)
  return pyfn(name, fn)


def const_field(shape, v):
  return A.full(tuple(A.dim(s) for s in shape), E(v))
