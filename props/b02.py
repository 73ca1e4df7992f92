"""B02: boundary restoration and derived boundary conditions."""
import itertools as it

from props.bclaw import *  # pylint: disable=wildcard-import,unused-wildcard-import

EXPLANATION = (
    'impose_bc, pad_and_impose_bc, trim_boundary and values are interpreted for '
    'every boundary type per axis, alignment and amount of existing padding with '
    'symbolic data and constants; named constructors and the derived pressure / '
    'advective-flux conditions are evaluated for every combination of types and '
    'compared with the condition they stand for.')

P2, D2, N2 = (PER, PER), (DIR, DIR), (NEU, NEU)
BM = 'base.boundaries:'


def values(d):
  return (X.sym(f'a{d}'), X.sym(f'b{d}'))


def run(ctx):
  for nd in (1, 2, 3):
    for types in it.product((P2, D2, N2, (DIR, NEU), (NEU, DIR)), repeat=nd):
      if nd == 3 and len(set(types)) == 1 and types[0] != D2:
        continue
      tag = f'ndim={nd} ' + '/'.join(t[0][0] + t[1][0] for t in types)
      ctx.ob('values per side', tag, vals, ctx, nd, types)
      ctx.ob('impose centred', tag, centred, ctx, nd, types)
    for types in it.product((P2, D2), repeat=nd):
      tag = f'ndim={nd} ' + '/'.join(t[0][0] for t in types)
      ctx.ob('impose wall-aligned', tag, walls, ctx, nd, types)
      ctx.ob('interior', tag, interior, ctx, nd, types)
      ctx.ob('constructors', tag, bc_accessors, ctx, nd, types)
    ctx.ob('outflow face kept or refused', f'ndim={nd}', outflow, ctx, nd)
    ctx.ob('named constructors', f'ndim={nd}', named, ctx, nd)
    ctx.ob('pressure bc', f'ndim={nd}', pressure, ctx, nd)
    ctx.ob('flux bc', f'ndim={nd}', flux, ctx, nd)
    ctx.ob('flux bc refusals', f'ndim={nd}', flux_bad, ctx, nd)
    ctx.ob('periodicity queries', f'ndim={nd}', queries, ctx, nd)


def consts(types):
  return [(None, None) if t[0] == PER else values(d)
          for d, t in enumerate(types)]


def vals(ctx, nd, types):
  w = World(ctx, nd)
  v = consts(types)
  bc = w.bc(types, v)
  for axis in range(nd):
    r = meth(ctx, bc, 'values', axis, w.grid)
    need(len(r) == 2, 'values() must be a (lower, upper) pair')
    if types[axis][0] == PER:
      ctx.same(r, (None, None), f'axis {axis}')
      continue
    shape = w.n[:axis] + w.n[axis + 1:]
    for k in range(2):
      pointwise(r[k], shape, lambda *ix: v[axis][k],
                f'axis {axis} ' + ('lower', 'upper')[k])
  # only one of the two constants unknown
  if types[0] == D2:
    bc = w.bc(types, [(None, X.sym('q'))] + v[1:])
    ctx.same(meth(ctx, bc, 'values', 0, w.grid), (None, None), 'partly unset')


def centred(ctx, nd, types):
  """Any array that contains the interior, padded or not, gives the interior."""
  w = World(ctx, nd)
  v = consts(types)
  bc = w.bc(types, v)
  per = tuple(t[0] == PER for t in types)
  pads = [(0, 0), (1, 1), (2, 0), (0, 2)] + ([(2, 1)] if nd < 3 else [])
  for axis in range(nd):
    for lo, hi in pads:
      if types[axis] == P2 and lo + hi and ctx.tier == 'quick' and nd == 3:
        continue
      u = w.array('u', center(nd), per)
      if (lo, hi) != (0, 0):
        u = meth(ctx, bc, 'pad', u, (lo, hi), axis)
      r = meth(ctx, bc, 'impose_bc', u)
      what = f'axis {axis} padded by {(lo, hi)}'
      result(ctx, w, r, bc, center(nd), what)
      pointwise(r, w.n, lambda *ix: w.rd('u', *ix, periodic=per), what, 1)
      t = meth(ctx, bc, 'trim_boundary', u)
      need_offset(t, center(nd), what + ' trim_boundary')
      pointwise(t, w.n, lambda *ix: w.rd('u', *ix, periodic=per),
                what + ' trim_boundary', 1)


def result(ctx, w, r, bc, offset, what):
  need_kind(r, 'GridVariable', what)
  need_offset(r, offset, what)
  ctx.same(grid_of(r), w.grid, what + ' grid')
  ctx.same(bc_of(r), bc, what + ' bc')


def walls(ctx, nd, types):
  """Velocity-like data: one axis aligned with the walls."""
  w = World(ctx, nd)
  v = consts(types)
  bc = w.bc(types, v)
  per = tuple(t[0] == PER for t in types)
  for axis in range(nd):
    for off in (ONE, ZERO):
      o = face(nd, axis, off)
      u = w.array('u', o, per)

      def spec(*ix):
        inside = w.rd('u', *ix, periodic=per)
        if per[axis]:
          return inside
        i = ix[axis]
        end = X.equal(i, minus(w.n[axis], 1)) if off == 1 else X.equal(
            i, X.ZERO)
        return E(v[axis][1 if off == 1 else 0]) if end else inside
      r = meth(ctx, bc, 'impose_bc', u)
      result(ctx, w, r, bc, o, f'offset {fmt(o)}')
      pointwise(r, w.n, spec, f'offset {fmt(o)}')
      again = meth(ctx, r, 'impose_bc')
      result(ctx, w, again, bc, o, f'offset {fmt(o)} twice')
      ctx.same(arr_of(again), arr_of(r), f'offset {fmt(o)} twice')
      if per[axis]:
        continue
      # both walls stored
      shape = tuple(A.dim(plus(n, 1 if d == axis else 0))
                    for d, n in enumerate(w.n))
      k = w.array('k', face(nd, axis, ZERO), per, shape=shape)
      r = meth(ctx, bc, 'impose_bc', k)
      result(ctx, w, r, bc, face(nd, axis, ZERO), 'both walls stored')
      pointwise(r, w.n, lambda *ix: E(v[axis][0]) if X.equal(ix[axis], X.ZERO)
                else w.rd('k', *ix, periodic=per), 'both walls stored')
      # interior only
      shape = tuple(A.dim(plus(n, -1 if d == axis else 0))
                    for d, n in enumerate(w.n))
      m = w.array('m', face(nd, axis, ONE), per, shape=shape)
      r = meth(ctx, bc, 'pad_and_impose_bc', m, o)
      result(ctx, w, r, bc, o, f'interior to {fmt(o)}')
      low = 1 if off == 0 else 0

      def spec2(*ix):
        i = ix[axis]
        if off == 0 and X.equal(i, X.ZERO):
          return E(v[axis][0])
        if off == 1 and X.equal(i, minus(w.n[axis], 1)):
          return E(v[axis][1])
        return w.rd('m', *shifted(ix, axis, -low), periodic=per)
      pointwise(r, w.n, spec2, f'interior to {fmt(o)}')
  # without walls along any axis nothing is padded
  u = w.array('u', center(nd), per)
  r = meth(ctx, bc, 'pad_and_impose_bc', u)
  result(ctx, w, r, bc, center(nd), 'cell centred')
  ctx.same(arr_of(r), arr_of(u), 'cell centred')


def interior(ctx, nd, types):
  w = World(ctx, nd)
  bc = w.bc(types, consts(types))
  per = tuple(t[0] == PER for t in types)
  for axis in range(nd):
    for off in (ONE, ZERO):
      u = w.var('u', face(nd, axis, off), bc)
      r = meth(ctx, u, 'trim_boundary')
      if per[axis]:
        need_offset(r, face(nd, axis, off))
        ctx.same(arr_of(r), arr_of(u), 'periodic')
        continue
      need_offset(r, face(nd, axis, ONE))
      low = 1 if off == 0 else 0
      shape = [minus(n, 1) if d == axis else E(n) for d, n in enumerate(w.n)]
      pointwise(r, shape, lambda *ix: w.rd(
          'u', *shifted(ix, axis, low), periodic=per), f'offset {off}')


def outflow(ctx, nd):
  """Neumann faces on the upper wall: kept as they are, or refused."""
  for axis in range(nd):
    w = World(ctx, nd)
    types = [N2 if d == axis else D2 for d in range(nd)]
    bc = w.bc(types, consts(types))
    u = w.array('u', face(nd, axis), False)
    try:
      r = meth(ctx, bc, 'impose_bc', u)
    except PyRaise as e:
      need(e.clsname() == 'NotImplementedError', f'raises {e.clsname()}')
      continue
    result(ctx, w, r, bc, face(nd, axis), f'axis {axis}')
    ctx.same(arr_of(r), arr_of(u), f'axis {axis}')


def is_bc(ctx, r, types, vals_, what):
  cls = ctx.ip.get('jax_cfd.base.boundaries', 'ConstantBoundaryConditions')
  need(isinstance(r, Inst) and cls in r.cls.mro(),
       f'{what}: not a constant boundary condition: {short(r)}')
  ctx.same(r.attrs['types'], tuple(tuple(t) for t in types), what + ' types')
  need(isinstance(r.attrs['types'], tuple) and all(
      isinstance(t, tuple) for t in r.attrs['types']),
       f'{what}: types are not hashable tuples: {short(r.attrs["types"])}')
  got = r.attrs['bc_values']
  need(isinstance(got, tuple) and all(isinstance(t, tuple) for t in got),
       f'{what}: values are not hashable tuples: {short(got)}')
  for d, t in enumerate(types):
    if t[0] == PER:
      continue
    ctx.same(tuple(got[d]), tuple(vals_[d]), f'{what} values of axis {d}')


def bc_accessors(ctx, nd, types):
  v = consts(types)
  w = World(ctx, nd)
  bc = w.bc(types, v)
  is_bc(ctx, bc, types, v, 'ConstantBoundaryConditions')
  h = ctx.call(BM + 'HomogeneousBoundaryConditions', types)
  is_bc(ctx, h, types, [(ZERO, ZERO)] * nd, 'HomogeneousBoundaryConditions')
  cv = prop(ctx, bc, 'constant_values')
  for d, t in enumerate(types):
    if t[0] != PER:
      ctx.same(tuple(cv[d]), v[d], 'constant_values')
  # equal conditions compare equal and hash alike
  need(ev(ctx, 'a == b', a=bc, b=w.bc(types, v)) is True, 'equality')
  o = list(types)
  o[0] = N2
  need(ev(ctx, 'a == b', a=bc, b=w.bc(o, v)) is False, 'inequality of types')
  o = list(v)
  o[-1] = (X.sym('zz'), X.sym('zz'))
  need(ev(ctx, 'a == b', a=w.bc(types, [(ZERO, ONE)] * nd),
          b=w.bc(types, [(ZERO, ONE)] * (nd - 1) + [(ONE, ZERO)])) is False,
       'inequality of values')


def named(ctx, nd):
  v = tuple(values(d) for d in range(nd))
  z = ((ZERO, ZERO),) * nd
  is_bc(ctx, ctx.call(BM + 'periodic_boundary_conditions', nd), [P2] * nd, z,
        'periodic')
  for name, t in (('dirichlet', D2), ('neumann', N2)):
    f = BM + name + '_boundary_conditions'
    is_bc(ctx, ctx.call(f, nd), [t] * nd, z, name)
    is_bc(ctx, ctx.call(f, nd, v), [t] * nd, v, name + ' with values')
    is_bc(ctx, ctx.call(f, nd, bc_vals=v), [t] * nd, v, name + ' with values')
  if nd >= 2:
    ch = [P2, D2] + [P2] * (nd - 2)
    f = BM + 'channel_flow_boundary_conditions'
    is_bc(ctx, ctx.call(f, nd), ch, z, 'channel')
    cv = [(None, None), values(1)] + [(None, None)] * (nd - 2)
    is_bc(ctx, ctx.call(f, nd, tuple(cv)), ch, cv, 'channel with values')
  if nd == 2:
    f = BM + 'periodic_and_neumann_boundary_conditions'
    is_bc(ctx, ctx.call(f), [P2, N2], z, 'periodic+neumann')
    is_bc(ctx, ctx.call(f, v[0]), [P2, N2], [None, v[0]], 'periodic+neumann')
    f = BM + 'periodic_and_dirichlet_boundary_conditions'
    is_bc(ctx, ctx.call(f), [P2, D2], z, 'periodic+dirichlet')
    is_bc(ctx, ctx.call(f, v[0]), [P2, D2], [None, v[0]], 'periodic+dirichlet')
    is_bc(ctx, ctx.call(f, periodic_axis=1), [D2, P2], z, 'dirichlet+periodic')
    is_bc(ctx, ctx.call(f, v[0], periodic_axis=1), [D2, P2], [v[0], None],
          'dirichlet+periodic')


def pressure(ctx, nd):
  w = World(ctx, nd)
  for types in it.product((P2, D2, N2, (DIR, NEU), (NEU, DIR)), repeat=nd):
    bc = w.bc(types, consts(types))
    v = tuple(w.var(f'u{d}', center(nd), bc) for d in range(nd))
    r = ctx.call(BM + 'get_pressure_bc_from_velocity', v)
    want = [P2 if t == P2 else N2 for t in types]
    is_bc(ctx, r, want, [(ZERO, ZERO)] * nd, 'pressure bc')
  # components may differ in kind, not in periodicity
  if nd >= 2:
    for axis in range(nd):
      a, b = [D2] * nd, [D2] * nd
      b[axis] = N2
      v = [w.var(f'u{d}', face(nd, d), w.bc(a if d else b, consts(a)))
           for d in range(nd)]
      r = ctx.call(BM + 'get_pressure_bc_from_velocity', tuple(v))
      is_bc(ctx, r, [N2] * nd, [(ZERO, ZERO)] * nd, 'mixed walls')
      b[axis] = P2
      for k in range(nd):
        v = [w.var(f'u{d}', face(nd, d), w.bc(b if d == k else a, consts(a)))
             for d in range(nd)]
        ctx.raises('InconsistentBoundaryConditionsError', lambda: ctx.call(
            BM + 'get_pressure_bc_from_velocity', tuple(v)))


def flux(ctx, nd):
  w = World(ctx, nd)
  f = BM + 'get_advection_flux_bc_from_velocity_and_scalar'
  nz = (X.sym('q'), X.sym('r'))
  normal = [P2, D2, N2, (DIR, NEU), (NEU, DIR)]
  for k in range(nd):
    for t in normal:
      for other in (P2, D2, N2):
        types = [other] * nd
        types[k] = t
        ubc = ctx.call(BM + 'HomogeneousBoundaryConditions', tuple(types))
        # the scalar matches on Neumann sides and is free on the others
        for ct in (NEU, DIR):
          ctypes = [P2 if x == P2 else D2 for x in types]
          if t != P2:
            ctypes[k] = tuple(NEU if x == NEU else ct for x in t)
          cvals = [(None, None) if x == P2 else nz for x in ctypes]
          if t != P2:
            cvals[k] = tuple(ZERO if x == NEU else X.sym('q') for x in t)
          u = w.var('u', face(nd, k), ubc)
          c = w.var('c', center(nd), w.bc(ctypes, cvals))
          r = ctx.call(f, u, c, k)
          want = [P2 if x == P2 else D2 for x in types]
          want[k] = t
          is_bc(ctx, r, want, [(ZERO, ZERO)] * nd,
                f'flux along {k}, velocity {types}, scalar {ctypes}')


def flux_bad(ctx, nd):
  w = World(ctx, nd)
  f = BM + 'get_advection_flux_bc_from_velocity_and_scalar'

  def bad(utypes, uvals, ctypes, cvals, k):
    ubc = (ctx.call(BM + 'HomogeneousBoundaryConditions', tuple(utypes))
           if uvals is None else w.bc(utypes, uvals))
    u = w.var('u', face(nd, k), ubc)
    c = w.var('c', center(nd), w.bc(ctypes, cvals))
    ctx.raises('NotImplementedError', lambda: ctx.call(f, u, c, k))
  z = [(ZERO, ZERO)] * nd
  for k in range(nd):
    # inhomogeneous velocity
    v = list(z)
    v[k] = (ONE, ZERO)
    bad([D2] * nd, v, [N2] * nd, z, k)
    for s in range(2):
      # porous wall with a scalar that is not zero-gradient there
      ut = [D2] * nd
      ut[k] = tuple(NEU if i == s else DIR for i in range(2))
      ct = [N2] * nd
      ct[k] = tuple(DIR if i == s else NEU for i in range(2))
      bad(ut, None, ct, z, k)
      cv = list(z)
      cv[k] = tuple(ONE if i == s else ZERO for i in range(2))
      bad(ut, None, [N2] * nd, cv, k)


def queries(ctx, nd):
  w = World(ctx, nd)
  f = BM + 'has_all_periodic_boundary_conditions'
  kinds = (P2, D2, N2)
  for types in it.product(kinds, repeat=nd):
    bc = w.bc(types, consts(types))
    c = w.var('c', center(nd), bc)
    p = w.var('p', center(nd))
    allp = all(t == P2 for t in types)
    need(bool(ctx.call(f, c)) is allp, f'{types}')
    need(bool(ctx.call(f, p, c)) is allp, f'periodic, {types}')
    need(bool(ctx.call(f, c, p)) is allp, f'{types}, periodic')
    for axis in range(nd):
      need(bool(ctx.call(BM + 'is_periodic_boundary_conditions', c, axis)) is
           (types[axis] == P2), f'{types} axis {axis}')
    r = ctx.call(BM + 'consistent_boundary_conditions', c, c)
    ctx.same(r, tuple('periodic' if t == P2 else 'nonperiodic'
                      for t in types), f'{types}')
    if not allp:
      for pair in ((c, p), (p, c)):
        ctx.raises('InconsistentBoundaryConditionsError', lambda: ctx.call(
            BM + 'consistent_boundary_conditions', *pair))
