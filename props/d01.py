"""D01: difference operators."""
import itertools as it

from props.fdlaw import *  # pylint: disable=wildcard-import,unused-wildcard-import

EXPLANATION = (
    'Every difference operator is interpreted on symbolic fields for all '
    'boundary types, offsets and ranks 1-3 with an independent step per axis; '
    'its value at the generic interior index and at all indices next to the ends '
    'is compared with the textbook stencil over the field extended by the '
    'boundary law. The discrete identities are checked on the composed code.')

FD = 'base.finite_differences:'


def configs(nd):
  """Type tuples: every kind on every axis, neighbours rotated."""
  out = []
  for i, k in enumerate(KINDS):
    for axis in range(nd):
      t = [KINDS[(i + 1 + d) % 5] for d in range(nd)]
      t[axis] = k
      out.append(tuple(t))
  for k in (P2, D2, N2):
    out.append((k,) * nd)
  return list(dict.fromkeys(out))


def offsets(nd, types):
  """Offsets at which extension is defined for the types."""
  out = [center(nd)]
  for d in range(nd):
    if types[d] in (P2, D2):
      out += [face(nd, d, ONE), face(nd, d, ZERO)]
  if all(t in (P2, D2) for t in types) and types.count(D2) < 2:
    out.append((ONE,) * nd)
    out.append((ZERO,) * nd)
  return list(dict.fromkeys(out))


def run(ctx):
  for nd in (1, 2, 3):
    for types in configs(nd):
      for o in offsets(nd, types):
        tag = (f'ndim={nd} ' + '/'.join(t[0][0] + t[1][0] for t in types) +
               f' offset={fmt(o)}')
        ctx.ob('differences', tag, differences, ctx, nd, types, o)
        ctx.ob('laplacian', tag, laplacian, ctx, nd, types, o)
    for types in it.product((P2, D2), repeat=nd):
      tag = f'ndim={nd} ' + '/'.join(t[0][0] for t in types)
      ctx.ob('divergence', tag, diverge, ctx, nd, types)
      ctx.ob('gradient tensor', tag, tensor, ctx, nd, types)
      if nd > 1:
        ctx.ob('curl', tag, curl, ctx, nd, types)
    ctx.ob('identities', f'ndim={nd}', identities, ctx, nd)
    ctx.ob('component count', f'ndim={nd}', counts, ctx, nd)
    ctx.ob('stencil_sum', f'ndim={nd}', stencil, ctx, nd)


def loc(ctx, w, r, o, what):
  need_kind(r, 'GridArray', what)
  need_offset(r, o, what)
  ctx.same(grid_of(r), w.grid, what + ' grid')


def differences(ctx, nd, types, o):
  w = World(ctx, nd)
  u = Field(ctx, w, 'u', o, types)
  for name, op, k in (('forward', fwd, HALF), ('backward', bwd, -HALF),
                      ('central', ctr, ZERO)):
    f = FD + name + '_difference'
    every = ctx.call(f, u.var)
    need(isinstance(every, tuple) and len(every) == nd,
         f'{name}: one derivative per axis expected, got {short(every)}')
    for d in range(nd):
      r = ctx.call(f, u.var, d)
      for what, g in ((f'{name} axis {d}', r), (f'{name} all[{d}]', every[d])):
        loc(ctx, w, g, moved(o, d, k), what)
      pointwise(r, w.n, lambda *ix: op(u.val, w, ix, d), f'{name} axis {d}',
                [2 if a == d else 1 for a in range(nd)])
      ctx.same(arr_of(every[d]), arr_of(r), f'{name} all[{d}]')
    if nd > 1:
      sub = ctx.call(f, u.var, (nd - 1, 0))
      need(len(sub) == 2, f'{name} (axes): {short(sub)}')
      for g, d in zip(sub, (nd - 1, 0)):
        ctx.same(g, every[d], f'{name} axis={nd - 1, 0}')


def laplacian(ctx, nd, types, o):
  w = World(ctx, nd)
  u = Field(ctx, w, 'u', o, types)
  r = ctx.call(FD + 'laplacian', u.var)
  loc(ctx, w, r, o, 'laplacian')
  pointwise(r, w.n, lambda *ix: lap(u.val, w, ix), 'laplacian', 1)


def vel(ctx, w, types, v=ONE):
  return [Field(ctx, w, f'u{d}', face(w.ndim, d, v), types, tag=f'{d}_')
          for d in range(w.ndim)]


def diverge(ctx, nd, types):
  w = World(ctx, nd)
  us = vel(ctx, w, types)
  r = ctx.call(FD + 'divergence', tuple(u.var for u in us))
  loc(ctx, w, r, center(nd), 'divergence')
  pointwise(r, w.n, lambda *ix: plus(*[bwd(u.val, w, ix, d)
                                       for d, u in enumerate(us)]), 'divergence')
  cs = [Field(ctx, w, f'c{d}', center(nd), types, tag=f'{d}_')
        for d in range(nd)]
  r = ctx.call(FD + 'centered_divergence', tuple(u.var for u in cs))
  loc(ctx, w, r, center(nd), 'centered_divergence')
  pointwise(r, w.n, lambda *ix: plus(*[ctr(u.val, w, ix, d)
                                       for d, u in enumerate(cs)]),
            'centered_divergence')


def centred_val(u, nd):
  """The linear interpolation of u to cell centres (as index function)."""
  def f(*ix):
    v = u.val
    for d in range(nd):
      o = u.offset[d]
      if o == HALF:
        continue
      k = -1 if o == ONE else 1
      v = (lambda v, d, k: lambda *jx: over(
          plus(v(*jx), v(*shifted(jx, d, k))), 2))(v, d, k)
    return v(*ix)
  return f


def tensor(ctx, nd, types):
  for v in (ONE, ZERO, HALF):
    w = World(ctx, nd)
    us = vel(ctx, w, types, v)
    t = ctx.call(FD + 'gradient_tensor', tuple(u.var for u in us))
    for c, u in enumerate(us):
      one = ctx.call(FD + 'gradient_tensor', u.var)
      for d in range(nd):
        g = ev(ctx, 't[i, j]', t=t, i=d, j=c)
        what = f'd u{c} / d x{d} of offset {fmt(u.offset)}'
        loc(ctx, w, g, center(nd), what)
        o = u.offset[d]
        if o == HALF:
          # extended by the condition after centring
          per = [k[0] == PER for k in types]
          cv = centred_val(u, nd)

          def ext(*ix):
            s = side(ix[d], w.n[d])
            if per[d] or s == 0:
              return cv(*ix)
            k = 0 if s < 0 else 1
            m = X.ZERO if s < 0 else minus(w.n[d], 1)
            return minus(times(2, u.values[d][k]),
                         cv(*(ix[:d] + (m,) + ix[d + 1:])))
          spec = lambda *ix: ctr(ext, w, ix, d)
        elif o == ONE:
          spec = lambda *ix: bwd(u.val, w, ix, d)
        else:
          spec = lambda *ix: fwd(u.val, w, ix, d)
        pointwise(g, w.n, spec, what, [2 if a == d else 1 for a in range(nd)])
        ctx.same(ev(ctx, 't[i]', t=one, i=d), g, what + ' (single)')


def curl(ctx, nd, types):
  w = World(ctx, nd)
  us = vel(ctx, w, types)
  vs = tuple(u.var for u in us)

  def part(i, j):
    """d u_j / dx_i - d u_i / dx_j (forward)."""
    return lambda *ix: minus(fwd(us[j].val, w, ix, i), fwd(us[i].val, w, ix, j))

  if nd == 2:
    r = ctx.call(FD + 'curl_2d', vs)
    loc(ctx, w, r, (ONE, ONE), 'curl_2d')
    pointwise(r, w.n, part(0, 1), 'curl_2d')
    return
  r = ctx.call(FD + 'curl_3d', vs)
  need(len(r) == 3, f'curl_3d: {short(r)}')
  for k, (i, j) in enumerate(((1, 2), (2, 0), (0, 1))):
    o = tuple(HALF if d == k else ONE for d in range(3))
    loc(ctx, w, r[k], o, f'curl_3d[{k}]')
    pointwise(r[k], w.n, part(i, j), f'curl_3d[{k}]')


def zero(w):
  return const_field(w.n, 0)


def identities(ctx, nd):
  w = World(ctx, nd)
  bc = w.periodic()
  p = w.var('p', center(nd))
  wrap = lambda a: ctx.call('base.grids:GridVariable', a, bc)
  grad = tuple(wrap(g) for g in ctx.call(FD + 'forward_difference', p))
  lapl = ctx.call(FD + 'laplacian', p)
  r = ctx.call(FD + 'divergence', grad)
  need_offset(r, center(nd), 'div grad')
  ctx.same(arr_of(r), arr_of(lapl), 'divergence(forward_difference(p)) and '
           'laplacian(p)')
  const = wrap(w.wrap(const_field(w.n, X.sym('c')), center(nd)))
  for name in ('forward', 'backward', 'central'):
    for d in range(nd):
      r = ctx.call(FD + name + '_difference', const, d)
      ctx.same(arr_of(r), zero(w), f'{name} difference of a constant')
  ctx.same(arr_of(ctx.call(FD + 'laplacian', const)), zero(w),
           'laplacian of a constant')
  if nd == 2:
    r = ctx.call(FD + 'curl_2d', grad)
    ctx.same(arr_of(r), zero(w), 'curl of a gradient')
  if nd == 3:
    for r in ctx.call(FD + 'curl_3d', grad):
      ctx.same(arr_of(r), zero(w), 'curl of a gradient')
    # vector potential on edges; its curl sits on faces after a backward shift
    a = [w.var(f'A{d}', tuple(HALF if k == d else ZERO for k in range(3)))
         for d in range(3)]
    c = ctx.call(FD + 'curl_3d', tuple(a))
    cs = tuple(wrap(x) for x in c)
    # components at offset 0 along their own axis: forward divergence
    d = [ctx.call(FD + 'forward_difference', x, k) for k, x in enumerate(cs)]
    s = ev(ctx, 'a + b + c', a=d[0], b=d[1], c=d[2])
    ctx.same(arr_of(s), zero(w), 'divergence of a curl')


def counts(ctx, nd):
  w = World(ctx, nd)
  v = w.velocity()
  for f in ('divergence', 'centered_divergence'):
    for bad in (v[:-1], v + v[:1]):
      ctx.raises(('ValueError', 'TypeError', 'InconsistentGridError'),
                 lambda: ctx.call(FD + f, bad))
  for f, k in (('curl_2d', 2), ('curl_3d', 3)):
    for bad in (v[:-1], v + v[:1], v):
      if len(bad) == k and nd == k:
        continue
      if not bad:
        continue
      ctx.raises('ValueError', lambda: ctx.call(FD + f, bad))
  odd = w.var('q', tuple(Fraction(1, 4) for _ in range(nd)))
  ctx.raises('ValueError', lambda: ctx.call(FD + 'gradient_tensor', odd))


def stencil(ctx, nd):
  w = World(ctx, nd)
  a, b = w.array('a', center(nd)), w.array('b', face(nd, nd - 1))
  r = ctx.call(FD + 'stencil_sum', a, b)
  loc(ctx, w, r, tuple(Fraction(3, 4) if d == nd - 1 else HALF
                       for d in range(nd)), 'stencil_sum')
  pointwise(r, w.n, lambda *ix: plus(w.rd('a', *ix), w.rd('b', *ix)), 'sum')
  w2 = ctx.call('base.grids:Grid', tuple(A.dim(x) for x in w.n),
                domain=((ZERO, ONE),) * nd)
  c = w.array('c', center(nd), grid=w2)
  ctx.raises('InconsistentGridError',
             lambda: ctx.call(FD + 'stencil_sum', a, c))
