"""I01: interpolation."""
import itertools as it

from props.fdlaw import *  # pylint: disable=wildcard-import,unused-wildcard-import

EXPLANATION = (
    'linear, upwind, lax_wendroff, the TVD limiter combinator and point '
    'interpolation are interpreted for all ranks, boundary types, source and '
    'target offsets with symbolic fields, velocities, time step and limiter; '
    'values at all index classes are compared with the weights of the scheme.')

IM = 'base.interpolation:'
Q = Fraction(1, 4)


def run(ctx):
  for nd in (1, 2, 3):
    lin_types = [(k,) * nd for k in (P2, D2, N2)]
    if nd > 1:
      lin_types += [tuple(KINDS[(s + d) % 5] for d in range(nd))
                    for s in range(5)]
    for types in lin_types:
      tag = f'ndim={nd} ' + '/'.join(t[0][0] + t[1][0] for t in types)
      ctx.ob('linear', tag, linear, ctx, nd, types)
      ctx.ob('upwind', tag, upwind, ctx, nd, types)
      ctx.ob('lax-wendroff', tag, laxw, ctx, nd, types)
      for kind in ('upwind', 'lax_wendroff'):
        ctx.ob('whole cells', f'{kind} {tag}', whole, ctx, nd, types, kind)
      ctx.ob('tvd', tag, tvd, ctx, nd, types)
    ctx.ob('same offset unchanged', f'ndim={nd}', same_offset, ctx, nd)
    ctx.ob('constants reproduced', f'ndim={nd}', constants, ctx, nd)
    ctx.ob('refusals', f'ndim={nd}', refusals, ctx, nd)
    ctx.ob('point interpolation', f'ndim={nd}', point, ctx, nd)
  ctx.ob('limiter', 'van Leer', limiter, ctx)


def located(ctx, w, r, o, what, bc=None):
  need_kind(r, 'GridVariable', what)
  need_offset(r, o, what)
  ctx.same(grid_of(r), w.grid, what + ' grid')
  if bc == P2:
    ctx.same(tuple(bc_of(r).attrs['types']), (P2,) * w.ndim, what + ' bc types')
  elif bc is not None:
    ctx.same(bc_of(r), bc, what + ' bc')


def sources(nd, types):
  out = [center(nd)]
  for d in range(nd):
    if types[d] in (P2, D2):
      out.append(face(nd, d))
  if all(t == P2 for t in types):
    out += [(ZERO,) * nd, (Q,) * nd]
  return list(dict.fromkeys(out))


def linear(ctx, nd, types):
  w = World(ctx, nd)
  deltas = [HALF, -HALF, ONE]
  per = all(t == P2 for t in types)
  if per:
    deltas += [Q, -3 * Q, 5 * Q, -ONE]
  for o in sources(nd, types):
    c = Field(ctx, w, 'c', o, types)
    targets = []
    for d in range(nd):
      for k in deltas:
        t = moved(o, d, k)
        # extension along other axes never happens; along d it must be defined
        if o[d] % 1 == 0 and types[d] not in (P2, D2):
          continue
        targets.append(t)
    if per or nd == 1:
      targets += [tuple(x + HALF for x in o), tuple(x - HALF for x in o)]
    if nd > 1 and o == center(nd):
      targets.append((ONE,) * nd)
      targets.append(tuple(HALF if d else ONE for d in range(nd)))
    for t in dict.fromkeys(targets):
      what = f'linear {fmt(o)} to {fmt(t)}'
      r = ctx.call(IM + 'linear', c.var, t)
      located(ctx, w, r, t, what, c.bc)
      f = linear_to(w, c.stored, types, c.values, o, t)
      pointwise(r, w.n, f, what,
                [2 if o[d] != t[d] else 1 for d in range(nd)])
  # velocity and step are accepted and irrelevant
  r = ctx.call(IM + 'linear', c.var, t, v=w.velocity(), dt=X.sym('dt'))
  located(ctx, w, r, t, 'linear with v, dt')


def one_axis(ctx, nd, types, signs=(1, -1)):
  """(w, c, u per axis, target, d, sign) for single-axis moves."""
  for o in sources(nd, types):
    for d in range(nd):
      if o[d] % 1 == 0 and types[d] not in (P2, D2):
        continue
      for s in signs:
        w = World(ctx, nd)
        c = Field(ctx, w, 'c', o, types)
        t = moved(o, d, s * HALF)
        v = tuple(w.var(f'v{k}', t if k == d else moved(o, k, HALF),
                        w.bc(types, bvalues(types, True))) for k in range(nd))
        yield w, c, v, t, d, s


def neighbours(w, c, d, s):
  """Extended value at the lower / upper neighbour of the target."""
  lo = -1 if s < 0 else 0
  g = ext_along(w, c.stored, d, c.types, c.values, c.offset)
  return (lambda *ix: g(*shifted(ix, d, lo)),
          lambda *ix: g(*shifted(ix, d, lo + 1)), g)


def vel(w, d, types):
  per = tuple(t[0] == PER for t in types)
  return lambda *ix: w.rd(f'v{d}', *ix, periodic=per)


def upwind(ctx, nd, types):
  allp = all(t == P2 for t in types)
  for w, c, v, t, d, s in one_axis(ctx, nd, types):
    what = f'upwind {fmt(c.offset)} to {fmt(t)}'
    r = ctx.call(IM + 'upwind', c.var, t, v, X.sym('dt'))
    located(ctx, w, r, t, what, P2 if allp else None)
    lo, hi, _ = neighbours(w, c, d, s)
    u = vel(w, d, types)
    pointwise(r, w.n, lambda *ix: pos_part(u(*ix), lo(*ix), hi(*ix)), what,
              [2 if k == d else 1 for k in range(nd)])


def laxw_spec(w, c, d, s, u, dt):
  lo, hi, _ = neighbours(w, c, d, s)

  def spec(*ix):
    cou = over(times(dt, u(*ix)), w.h[d])
    a, b = lo(*ix), hi(*ix)
    jump = minus(b, a)
    return pos_part(
        u(*ix),
        plus(a, times(HALF, minus(1, cou), jump)),
        minus(b, times(HALF, plus(1, cou), jump)))
  return spec


def laxw(ctx, nd, types):
  allp = all(t == P2 for t in types)
  dt = X.sym('dt')
  for w, c, v, t, d, s in one_axis(ctx, nd, types):
    what = f'lax_wendroff {fmt(c.offset)} to {fmt(t)}'
    r = ctx.call(IM + 'lax_wendroff', c.var, t, v, dt)
    located(ctx, w, r, t, what, P2 if allp else None)
    pointwise(r, w.n, laxw_spec(w, c, d, s, vel(w, d, types), dt), what,
              [2 if k == d else 1 for k in range(nd)])


def whole(ctx, nd, types, kind):
  """A move by whole cells relabels the neighbour, whatever the velocity."""
  for o in sources(nd, types):
    for d in range(nd):
      if o[d] % 1 == 0 and types[d] not in (P2, D2):
        continue
      for s in (1, -1):
        w = World(ctx, nd)
        c = Field(ctx, w, 'c', o, types)
        t = moved(o, d, s)
        v = tuple(w.var(f'v{k}', t, w.bc(types, bvalues(types, True)))
                  for k in range(nd))
        what = f'{kind} {fmt(o)} to {fmt(t)}'
        r = ctx.call(IM + kind, c.var, t, v, X.sym('dt'))
        located(ctx, w, r, t, what)
        g = ext_along(w, c.stored, d, c.types, c.values, c.offset)
        pointwise(r, w.n, lambda *ix: g(*shifted(ix, d, s)), what,
                  [2 if k == d else 1 for k in range(nd)])


def div_safe(a, b):
  return X.where(X.eq0(E(b)), E(a), over(a, b))


def tvd(ctx, nd, types):
  dt = X.sym('dt')
  allp = all(t == P2 for t in types)
  lim = lambda e: X.apply_op('user_lim', (E(e),))
  for w, c, v, t, d, s in one_axis(ctx, nd, types, (1,)):
    what = f'tvd {fmt(c.offset)} to {fmt(t)}'
    high_calls = []

    def high_fn(ip, args, kw, w=w, t=t, types=types):
      high_calls.append(args)
      return w.var('high', t, w.bc(types, bvalues(types)))
    f = ctx.call(IM + 'apply_tvd_limiter', pyfn('high', high_fn),
                 opaque_fn('lim'))
    r = ctx.call(f, c.var, t, v, dt)
    ctx.anchor(*IM.split(':')[:1], 'apply_tvd_limiter')
    located(ctx, w, r, t, what, c.bc)
    need(len(high_calls) == 1, f'{what}: high order interpolation evaluated '
         f'{len(high_calls)} times')
    got = high_calls[0]
    ctx.same(got[0], c.var, what + ' high(c)')
    ctx.same(tuple(got[1]), t, what + ' high(offset)')
    ctx.same(tuple(got[2]), v, what + ' high(v)')
    ctx.same(got[3], dt, what + ' high(dt)')
    u = vel(w, d, types)
    lo, hi, g = neighbours(w, c, d, s)
    per = tuple(k[0] == PER for k in types)

    def spec(*ix):
      c0, c1 = g(*ix), g(*shifted(ix, d, 1))
      cm, c2 = g(*shifted(ix, d, -1)), g(*shifted(ix, d, 2))
      low = pos_part(u(*ix), c0, c1)
      high = w.rd('high', *ix, periodic=per)
      phi = pos_part(u(*ix), lim(div_safe(minus(c0, cm), minus(c1, c0))),
                     lim(div_safe(minus(c2, c1), minus(c1, c0))))
      return plus(times(minus(1, phi), low), times(phi, high))
    if c.offset[d] % 1 == 0 and not per[d]:
      continue  # two cells beyond a wall: the law of B01, not a scheme
    pointwise(r, w.n, spec, what, [3 if k == d else 1 for k in range(nd)])
  if allp and nd == 1:
    # default limiter
    w = World(ctx, 1)
    c = w.var('c', center(1))
    v = (w.var('v0', face(1, 0)),)
    a = ctx.call(ctx.call(IM + 'apply_tvd_limiter',
                          ctx.ip.get('jax_cfd.base.interpolation',
                                     'lax_wendroff')), c, (ONE,), v, dt)
    b = ctx.call(ctx.call(
        IM + 'apply_tvd_limiter',
        ctx.ip.get('jax_cfd.base.interpolation', 'lax_wendroff'),
        limiter=ctx.ip.get('jax_cfd.base.interpolation', 'van_leer_limiter')),
                 c, (ONE,), v, dt)
    ctx.same(arr_of(a), arr_of(b), 'default limiter')


def same_offset(ctx, nd):
  dt = X.sym('dt')
  for types in ((P2,) * nd, (D2,) * nd):
    for o in [center(nd)] + [face(nd, d) for d in range(nd)]:
      w = World(ctx, nd)
      c = Field(ctx, w, 'c', o, types)
      v = tuple(w.var(f'v{k}', moved(o, k, HALF)) for k in range(nd))
      for name in ('linear', 'upwind', 'lax_wendroff'):
        r = ctx.call(IM + name, c.var, o, v, dt)
        ctx.same(r, c.var, f'{name} at own offset')
      f = ctx.call(IM + 'apply_tvd_limiter', ctx.ip.get(
          'jax_cfd.base.interpolation', 'lax_wendroff'))
      ctx.same(ctx.call(f, c.var, o, v, dt), c.var, 'tvd at own offset')


def constants(ctx, nd):
  w = World(ctx, nd)
  k, dt = X.sym('k'), X.sym('dt')
  bc = w.periodic()
  for o in (center(nd), face(nd, 0)):
    c = w.wrap(const_field(w.n, k), o, bc)
    for d in range(nd):
      for s in (HALF, -HALF):
        t = moved(o, d, s)
        v = tuple(w.var(f'v{a}', t if a == d else moved(o, a, HALF))
                  for a in range(nd))
        fns = [ctx.ip.get('jax_cfd.base.interpolation', n)
               for n in ('linear', 'upwind', 'lax_wendroff')]
        if s > 0:
          fns.append(ctx.call(IM + 'apply_tvd_limiter', fns[2]))
        for f in fns:
          r = ctx.call(f, c, t, v, dt)
          ctx.anchor_ = f
          ctx.same(arr_of(r), const_field(w.n, k), f'constant to {fmt(t)}')
    for q in (Q, Fraction(1, 3), Fraction(-7, 3), Fraction(7, 5)):
      r = ctx.call(IM + 'linear', c, tuple(x + q for x in o))
      ctx.same(arr_of(r), const_field(w.n, k), f'linear by {q}')


def refusals(ctx, nd):
  w = World(ctx, nd)
  dt = X.sym('dt')
  c = w.var('c', center(nd))
  v = w.velocity()
  for bad in (center(nd)[:-1], center(nd) + (HALF,)):
    ctx.raises('ValueError', lambda: ctx.call(IM + 'linear', c, bad))
  if nd > 1:
    t = tuple(ONE if d < 2 else HALF for d in range(nd))
    for name in ('upwind', 'lax_wendroff'):
      ctx.raises('InconsistentOffsetError',
                 lambda: ctx.call(IM + name, c, t, v, dt))
  f = ctx.call(IM + 'apply_tvd_limiter', ctx.ip.get(
      'jax_cfd.base.interpolation', 'lax_wendroff'))
  for d in range(nd):
    for k in (-HALF, ONE):
      ctx.raises('NotImplementedError',
                 lambda: ctx.call(f, c, moved(center(nd), d, k), v, dt))
  # grids must agree
  w2 = ctx.call('base.grids:Grid', tuple(A.dim(x) for x in w.n),
                domain=((ZERO, ONE),) * nd)
  v2 = tuple(ctx.call('base.grids:GridVariable', w.array(
      f'v{d}', face(nd, d), grid=w2), w.periodic()) for d in range(nd))
  for name in ('upwind', 'lax_wendroff'):
    ctx.raises(('InconsistentGridError',),
               lambda: ctx.call(IM + name, c, face(nd, 0), v2, dt))


def limiter(ctx):
  r = X.sym('r')
  p = X.sym('p', pos=True)
  for x, want in ((p, over(times(2, p), plus(1, p))), (times(-1, p), X.ZERO),
                  (X.ZERO, X.ZERO)):
    ctx.same(E(ctx.call(IM + 'van_leer_limiter', x)), want, f'van Leer({x})')
  a, b = X.sym('a'), X.sym('b')
  ctx.same(E(ctx.call(IM + 'safe_div', a, b)), div_safe(a, b), 'safe_div')
  d = X.sym('d', pos=True)
  ctx.same(E(ctx.call(IM + 'safe_div', a, b, d)),
           X.where(X.eq0(b), over(a, d), over(a, b)), 'safe_div default')


def point(ctx, nd):
  w = World(ctx, nd)
  p = A.from_exprs([X.sym(f'p{d}') for d in range(nd)]) if hasattr(
      A, 'from_exprs') else ev(ctx, 'jnp.array(ps)', ps=[
          X.sym(f'p{d}') for d in range(nd)])
  for o in (center(nd), face(nd, nd - 1), face(nd, 0, ZERO)):
    c = w.array('c', o)
    for kw in ({}, dict(order=0), dict(mode='wrap'),
               dict(mode='constant'),
               dict(mode='constant', cval=X.sym('cv'))):
      n0 = len(ctx.ip.events)
      ctx.call(IM + 'point_interpolation', p, c, **kw)
      evs = [e for e in ctx.ip.events[n0:] if e[0] == 'map_coordinates']
      need(len(evs) == 1, f'{len(evs)} interpolations')
      _, v, coords, order, mode, cv = evs[0]
      ctx.same(v, arr_of(c), 'data')
      need(len(coords) == nd, f'{len(coords)} coordinates')
      for d in range(nd):
        want = minus(over(minus(X.sym(f'p{d}'), w.lo[d]), w.h[d]), o[d])
        ctx.same(E(coords[d]), want, f'index along {d}')
      ctx.same((order, mode), (kw.get('order', 1), kw.get('mode', 'nearest')),
               'options')
      if mode == 'constant':
        ctx.same(E(cv), kw.get('cval', 0), 'cval')
