"""A01: advection."""
import itertools as it

from props.fdlaw import *  # pylint: disable=wildcard-import,unused-wildcard-import

EXPLANATION = (
    'advect_general is interpreted with opaque interpolations (argument roles '
    'and flux form), the named schemes with their own: linear and upwind on fully '
    'symbolic fields, the limited schemes on every sign class of successive '
    'gradients and of the velocity (sign domain), for all offsets of the scalar; '
    'the collocated schemes under periodic, closed and porous walls; '
    'tendencies are compared with minus the divergence of face flux.')

AM = 'base.advection:'


def run(ctx):
  for nd in (1, 2, 3):
    ctx.ob('flux form', f'ndim={nd}', general, ctx, nd)
    for o in offs(nd):
      ctx.ob('linear', f'ndim={nd} offset={fmt(o)}', linear, ctx, nd, o)
      ctx.ob('upwind', f'ndim={nd} offset={fmt(o)}', upwind, ctx, nd, o)
      for axis in range(nd):
        for s in (1, -1):
          tag = f'ndim={nd} offset={fmt(o)} axis={axis} sign={s}'
          ctx.ob('van Leer', tag, vanleer, ctx, nd, o, axis, s,
                 'advect_van_leer')
          if nd < 3 or o == center(nd):
            ctx.ob('limited Lax-Wendroff', tag, vanleer, ctx, nd, o, axis, s,
                   'advect_van_leer_using_limiters')
    ctx.ob('convect_linear', f'ndim={nd}', convect, ctx, nd)
    ctx.ob('constant scalar', f'ndim={nd}', constant, ctx, nd)
    ctx.ob('semi-Lagrangian', f'ndim={nd}', semilag, ctx, nd)
    ctx.ob('stable step', f'ndim={nd}', stable, ctx, nd)
    ctx.ob('refusals', f'ndim={nd}', refusals, ctx, nd)
    for o in offs(nd):
      ctx.ob('collocated', f'ndim={nd} offset={fmt(o)}', collocated, ctx, nd, o,
             (P2,) * nd)
    for axis in range(nd):
      for kind in (D2, N2):
        types = tuple(kind if d == axis else P2 for d in range(nd))
        ctx.ob('collocated walls', f'ndim={nd} axis={axis} {kind[0]}',
               collocated, ctx, nd, center(nd), types)
    ctx.ob('collocated walls', f'ndim={nd} box', collocated, ctx, nd,
           center(nd), (D2,) * nd)
  for nd in (1, 2):
    for axis in range(nd):
      for kind in ('neumann', 'dirichlet'):
        for s in (1, -1):
          ctx.ob('closed walls', f'ndim={nd} axis={axis} {kind} sign={s}',
                 walls, ctx, nd, axis, kind, s)


def offs(nd):
  out = [center(nd)]
  for d in range(nd):
    out += [face(nd, d), face(nd, d, ZERO)]
  if nd > 1:
    out += [(ONE,) * nd, (ZERO,) * nd]
  return out


def located(ctx, w, r, o, what):
  need_kind(r, 'GridArray', what)
  need_offset(r, o, what)
  ctx.same(grid_of(r), w.grid, what + ' grid')


def cv(o, d):
  return moved(o, d, HALF)


def div_flux(w, fl):
  """minus divergence of face fluxes fl[d](ix) (face right of ix)."""
  return lambda *ix: times(-1, plus(*[
      over(minus(f(*ix), f(*shifted(ix, d, -1))), w.h[d])
      for d, f in enumerate(fl)]))


def general(ctx, nd):
  dt = X.sym('dt')
  for o in offs(nd):
    w = World(ctx, nd)
    c, v = w.var('c', o), w.velocity()
    log = []

    def uf(ip, args, kw):
      args = list(args) + [kw.get(k) for k in ('v', 'dt')][len(args) - 2:]
      log.append(('u',) + tuple(args))
      i = [k for k in range(nd) if args[0] is v[k]]
      need(len(i) == 1, 'velocity interpolation of something else')
      return w.var(f'U{i[0]}', args[1])

    def cf(ip, args, kw):
      args = list(args) + [kw.get(k) for k in ('v', 'dt')][len(args) - 2:]
      log.append(('c',) + tuple(args))
      k = [d for d in range(nd) if tuple(map(Fraction, args[1])) == cv(o, d)]
      need(len(k) == 1, f'scalar interpolated to {fmt(args[1])}')
      return w.var(f'C{k[0]}', args[1])
    r = ctx.call(AM + 'advect_general', c, v, pyfn('uf', uf), pyfn('cf', cf), dt)
    what = f'advect_general {fmt(o)}'
    located(ctx, w, r, o, what)
    for e in log:
      ctx.same(e[4], dt, what + ' dt of interpolation')
      if e[0] == 'u':
        i = [k for k in range(nd) if e[1] is v[k]][0]
        ctx.same(tuple(e[2]), cv(o, i), f'{what}: target of velocity {i}')
        need(len(e[3]) == nd and all(a is b for a, b in zip(e[3], v)),
             what + ': velocity argument')
      else:
        need(e[1] is c, what + ': interpolated scalar')
        for i, u in enumerate(e[3]):
          need_offset(u, cv(o, i), what + f' aligned velocity {i}')
          pointwise(u, w.n, lambda *ix: w.rd(f'U{i}', *ix),
                    what + f' aligned velocity {i}', 1)
    pointwise(r, w.n, div_flux(w, [
        (lambda d: lambda *ix: times(w.rd(f'U{d}', *ix), w.rd(f'C{d}', *ix)))(d)
        for d in range(nd)]), what)


def face_velocity(w, o, d, name='u', off=None):
  return linear_to(w, lambda *ix: w.rd(f'{name}{d}', *ix), (P2,) * w.ndim, None,
                   off or face(w.ndim, d), cv(o, d))


def linear(ctx, nd, o):
  w = World(ctx, nd)
  c, v = w.var('c', o), w.velocity()
  r = ctx.call(AM + 'advect_linear', c, v, X.sym('dt'))
  located(ctx, w, r, o, 'advect_linear')
  fl = []
  for d in range(nd):
    u = face_velocity(w, o, d)
    fl.append(lambda *ix, u=u, d=d: times(u(*ix), HALF, plus(
        w.rd('c', *ix), w.rd('c', *shifted(ix, d, 1)))))
  pointwise(r, w.n, div_flux(w, fl), 'advect_linear')
  r2 = ctx.call(AM + 'advect_linear', c, v)
  ctx.same(arr_of(r2), arr_of(r), 'without dt')


def upwind(ctx, nd, o):
  w = World(ctx, nd)
  c, v = w.var('c', o), w.velocity()
  r = ctx.call(AM + 'advect_upwind', c, v, X.sym('dt'))
  located(ctx, w, r, o, 'advect_upwind')
  fl = []
  for d in range(nd):
    u = face_velocity(w, o, d)
    fl.append(lambda *ix, u=u, d=d: times(u(*ix), pos_part(
        u(*ix), w.rd('c', *ix), w.rd('c', *shifted(ix, d, 1)))))
  pointwise(r, w.n, div_flux(w, fl), 'advect_upwind', 1)


# ------------------------------------------------------------ limited schemes

def stairs(w, axis, sign):
  """Nested list of values whose increments along `axis` have known signs."""
  p = lambda k, row: X.sym(f'p{k}_' + '_'.join(map(str, row)), pos=True)
  table = {}
  for row in it.product(*[range(s) for d, s in enumerate(w.n) if d != axis]):
    inc = [p(1, row), p(2, row), times(-HALF, p(2, row)),
           times(-HALF, p(1, row)), p(3, row)]
    v = X.sym('b' + '_'.join(map(str, row)))
    for k in range(6):
      ix = list(row)
      ix.insert(axis, k)
      table[tuple(ix)] = v
      if k < 5:
        v = plus(v, times(sign, inc[k]))
  return table


def nested(table, shape, pre=()):
  if len(pre) == len(shape):
    return table[pre]
  return [nested(table, shape, pre + (k,)) for k in range(shape[len(pre)])]


def limited_flux(u, a, b, am, b2, dt, h):
  """Flux u * c_face of the van Leer scheme; a, b left / right of the face."""
  d = minus(b, a)
  n = pos_part(u, minus(a, am), minus(b2, b))
  corr = X.where(X.gt0(X.mul(E(n), E(d))), over(times(2, n, d), plus(n, d)), X.ZERO)
  au = X.absolute(E(u))
  return plus(times(u, pos_part(u, a, b)),
              times(HALF, au, minus(1, over(times(au, dt), h)), corr))


def grid6(ctx, nd, axis):
  return World(ctx, nd, shape=tuple(6 if d == axis else 2 for d in range(nd)))


def read(table, shape):
  def f(*ix):
    k = tuple(int(E(i).const_value()) % s for i, s in zip(ix, shape))
    return table[k]
  return f


def vanleer(ctx, nd, o, axis, s, name):
  for su in (1, -1):
    w = grid6(ctx, nd, axis)
    table = stairs(w, axis, s)
    utab = {ix: times(su, X.sym('u' + '_'.join(map(str, ix)), pos=True))
            for ix in it.product(*map(range, w.n))}
    bc = w.periodic()
    arr = lambda t: ev(ctx, 'jnp.array(t)', t=nested(t, w.n))
    c = w.wrap(arr(table), o, bc)
    v = tuple(w.wrap(arr(utab) if d == axis else const_field(w.n, 0),
                     face(nd, d), bc) for d in range(nd))
    dt = X.sym('dt', pos=True)
    r = ctx.call(AM + name, c, v, dt)
    located(ctx, w, r, o, name)
    cr = read(table, w.n)
    u = linear_to(w, read(utab, w.n), (P2,) * nd, None, face(nd, axis),
                  cv(o, axis))

    def flux(*ix):
      g = lambda k: cr(*shifted(ix, axis, k))
      return limited_flux(u(*ix), g(0), g(1), g(-1), g(2), dt, w.h[axis])
    zero = lambda *ix: X.ZERO
    pointwise(r, w.n, div_flux(w, [flux if d == axis else zero
                                   for d in range(nd)]),
              f'{name}, velocity sign {su}')


def walls(ctx, nd, axis, kind, s):
  """Closed box: no flux through walls, interior faces as in the scheme."""
  t = NEU if kind == 'neumann' else DIR
  for mode in ('mirror', 'extend'):
    for su in (1, -1):
      w = grid6(ctx, nd, axis)
      table = stairs(w, axis, s)
      val = (X.sym('q'), X.sym('r')) if t == DIR else (ZERO, ZERO)
      cbc = w.bc([(t, t)] * nd, [val] * nd)
      vbc = ctx.call('base.boundaries:HomogeneousBoundaryConditions', (D2,) * nd)
      utab = {}
      for ix in it.product(*map(range, w.n)):
        wall = ix[axis] == 5
        utab[ix] = X.ZERO if wall else times(
            su, X.sym('u' + '_'.join(map(str, ix)), pos=True))
      arr = lambda tb: ev(ctx, 'jnp.array(t)', t=nested(tb, w.n))
      c = w.wrap(arr(table), center(nd), cbc)
      v = tuple(w.wrap(arr(utab) if d == axis else const_field(w.n, 0),
                       face(nd, d), vbc) for d in range(nd))
      dt = X.sym('dt', pos=True)
      r = ctx.call(AM + 'advect_van_leer', c, v, dt, mode)
      located(ctx, w, r, center(nd), 'advect_van_leer')
      total = X.ZERO
      for ix in it.product(*map(range, w.n)):
        total = plus(total, at(arr_of(r), [(None, X.const(i)) for i in ix]))
      need(X.equal(total, X.ZERO), 'tendencies of a closed box do not add up to '
           f'zero: {X.show(total, 8)}')

      def cr(*ix):
        k = int(E(ix[axis]).const_value())
        jx = [int(E(i).const_value()) for i in ix]
        if 0 <= k < 6:
          return table[tuple(jx)]
        lo = k < 0
        jx[axis] = 0 if lo else 5
        inner = table[tuple(jx)]
        if t == NEU:
          return inner
        return minus(times(2, val[0 if lo else 1]), inner)

      def flux(*ix):
        k = int(E(ix[axis]).const_value())
        if k in (-1, 5):
          return X.ZERO
        u = utab[tuple(int(E(i).const_value()) for i in ix)]
        g = lambda m: cr(*shifted(ix, axis, m))
        return limited_flux(u, g(0), g(1), g(-1), g(2), dt, w.h[axis])
      zero = lambda *ix: X.ZERO
      pointwise(r, w.n, div_flux(w, [flux if d == axis else zero
                                     for d in range(nd)]),
                f'mode {mode}, velocity sign {su}')


# ------------------------------------------------------------ others

def convect(ctx, nd):
  w = World(ctx, nd)
  v = w.velocity()
  r = ctx.call(AM + 'convect_linear', v)
  need(len(r) == nd, f'{len(r)} components')
  for j in range(nd):
    o = face(nd, j)
    located(ctx, w, r[j], o, f'component {j}')
    fl = []
    for i in range(nd):
      a = face_velocity(w, o, i)
      b = linear_to(w, lambda *ix: w.rd(f'u{j}', *ix), (P2,) * nd, None, o,
                    cv(o, i))
      fl.append(lambda *ix, a=a, b=b: times(a(*ix), b(*ix)))
    pointwise(r[j], w.n, div_flux(w, fl), f'component {j}')


def collocated(ctx, nd, o, types):
  """Centred differences of fluxes stored with the fields."""
  w = World(ctx, nd)
  bc = ctx.make('base.boundaries:HomogeneousBoundaryConditions', types)
  per = tuple(t == P2 for t in types)
  v = tuple(ctx.make('base.grids:GridVariable', w.array(f'u{d}', o, per), bc)
            for d in range(nd))
  c = ctx.make('base.grids:GridVariable', w.array('c', o, per), bc)
  rd = lambda name: lambda *ix: w.rd(name, *ix, periodic=per)

  def spec(name):
    fl = []
    for d in range(nd):
      f = lambda *ix, d=d: times(rd(name)(*ix), rd(f'u{d}')(*ix))
      fl.append(ext_along(w, f, d, types, bvalues(types, zero=True), o))
    return lambda *ix: times(-1, plus(*[ctr(f, w, ix, d)
                                        for d, f in enumerate(fl)]))
  r = ctx.call('collocated.advection:advect_linear', c, v, X.sym('dt'))
  located(ctx, w, r, o, 'advect_linear')
  pointwise(r, w.n, spec('c'), 'advect_linear', 1)
  r = ctx.call('collocated.advection:advect_linear', c, v)
  pointwise(r, w.n, spec('c'), 'advect_linear without dt', 1)
  r = ctx.call('collocated.advection:convect_linear', v)
  need(len(r) == nd, f'{len(r)} components')
  for d in range(nd):
    located(ctx, w, r[d], o, f'component {d}')
    pointwise(r[d], w.n, spec(f'u{d}'), f'convect_linear component {d}', 1)


def constant(ctx, nd):
  w = World(ctx, nd)
  v = w.velocity()
  k = X.sym('k')
  c = w.wrap(const_field(w.n, k), center(nd), w.periodic())
  d = ctx.call('base.finite_differences:divergence', v)
  want = ev(ctx, '-k * d', k=k, d=arr_of(d))
  for name in ('advect_linear', 'advect_upwind', 'advect_van_leer',
               'advect_van_leer_using_limiters'):
    r = ctx.call(AM + name, c, v, X.sym('dt'))
    ctx.same(arr_of(r), want, f'{name} of a constant')


def semilag(ctx, nd):
  w = World(ctx, nd)
  g = ctx.call('base.grids:Grid', tuple(A.dim(x) for x in w.n), domain=tuple(
      (ZERO, X.mul(E(n), h)) for n, h in zip(w.n, w.h)))
  lo_grid, w.grid = w.grid, g
  bc = w.periodic()
  dt = X.sym('dt')
  for o in offs(nd):
    c = ctx.call('base.grids:GridVariable', w.array('c', o), bc)
    v = tuple(ctx.call('base.grids:GridVariable',
                       w.array(f'u{d}', face(nd, d)), bc) for d in range(nd))
    n0 = len(ctx.ip.events)
    r = ctx.call(AM + 'advect_step_semilagrangian', c, v, dt)
    need_kind(r, 'GridVariable')
    need_offset(r, o)
    ctx.same(bc_of(r), bc, 'bc')
    evs = [e for e in ctx.ip.events[n0:] if e[0] == 'map_coordinates']
    need(len(evs) == 1, f'{len(evs)} interpolations')
    _, val, coords, order, mode, _ = evs[0]
    ctx.same(val, arr_of(c), 'advected data')
    need((order, mode) == (1, 'wrap'), f'order, mode = {order, mode}')
    need(len(coords) == nd, f'{len(coords)} coordinates')
    for d in range(nd):
      u = linear_to(w, lambda *ix: w.rd(f'u{d}', *ix), (P2,) * nd, None,
                    face(nd, d), o)
      pointwise(coords[d], w.n, lambda *ix: minus(
          ix[d], over(times(dt, u(*ix)), w.h[d])), f'departure index {d}', 1)
  v = w.velocity()
  w.grid = lo_grid
  c2, v2 = w.var('c', center(nd)), w.velocity()
  w.grid = g
  for lo in ((ONE, ZERO, ZERO), (ZERO, ZERO, ONE)[-nd:]):
    g2 = ctx.call('base.grids:Grid', tuple(A.dim(x) for x in w.n),
                  domain=tuple((l, 7) for l in lo[:nd]))
    w.grid = g2
    c2, v2 = w.var('c', center(nd)), w.velocity()
    if any(x != 0 for x in lo[:nd]):
      ctx.raises('ValueError', lambda: ctx.call(
          AM + 'advect_step_semilagrangian', c2, v2, dt))
  w.grid = g
  c3 = w.var('c', center(nd), w.bc([D2] * nd))
  ctx.raises('NotImplementedError', lambda: ctx.call(
      AM + 'advect_step_semilagrangian', c3, v, dt))


def stable(ctx, nd):
  w = World(ctx, nd)
  vm, cn = X.sym('vmax', pos=True), X.sym('cour', pos=True)
  r = ctx.call(AM + 'stable_time_step', vm, cn, w.grid)
  # the smallest step decides, whichever axis it is on
  for d in range(nd):
    g = ctx.call('base.grids:Grid', tuple(4 for _ in range(nd)), domain=tuple(
        (0, 4 * (1 if k == d else 2 + k)) for k in range(nd)))
    r = ctx.call(AM + 'stable_time_step', vm, cn, g)
    ctx.same(E(r), over(cn, vm), f'smallest step on axis {d}')
  h = w.h[0]
  g = ctx.call('base.grids:Grid', tuple(A.dim(x) for x in w.n), domain=tuple(
      (l, plus(l, times(n, h))) for l, n in zip(w.lo, w.n)))
  r = ctx.call(AM + 'stable_time_step', vm, cn, g)
  ctx.same(E(r), over(times(cn, h), vm), 'equal steps')


def refusals(ctx, nd):
  w = World(ctx, nd)
  v = w.velocity()
  dt = X.sym('dt')
  for axis in range(nd):
    for k in (D2, N2):
      types = [P2] * nd
      types[axis] = k
      c = w.var('c', center(nd), w.bc(types))
      for name in ('advect_linear', 'advect_upwind',
                   'advect_van_leer_using_limiters'):
        ctx.raises('NotImplementedError',
                   lambda: ctx.call(AM + name, c, v, dt))
