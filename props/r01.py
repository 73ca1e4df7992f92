"""R01: resampling between grids."""
from props.fdlaw import *  # pylint: disable=wildcard-import,unused-wildcard-import
import itertools

EXPLANATION = (
    'The resampling functions are interpreted on grids whose sizes are '
    'symbolic multiples of the factor; every coarse value is compared with '
    'the mean of the fine values it stands for, boundary treatment included, '
    'and every resolved Fourier mode with its rescaled amplitude.')

RS = 'base.resize:'
F = Fraction


def run(ctx):
  for nd in (1, 2, 3):
    for f in (1, 2, 3, 4):
      ctx.ob('component', f'ndim={nd} factor={f}', component, ctx, nd, f)
    ctx.ob('component refuses', f'ndim={nd}', indivisible, ctx, nd)
    for f in (1, 2, 3):
      for kind in ('raw', 'array', 'variable'):
        ctx.ob('staggered', f'ndim={nd} factor={f} {kind}', staggered, ctx, nd,
               f, kind)
    for kind in ('raw', 'array', 'variable'):
      ctx.ob('staggered refuses', f'ndim={nd} {kind}', refuses, ctx, nd, kind)
  for nd in (2, 3):
    ctx.ob('divergence', f'ndim={nd}', divergence, ctx, nd)
  for offs in (ZERO, HALF, ONE):
    for t in (P2, D2, N2):
      if t == N2 and offs != HALF:
        continue
      for f, s in ((1, None), (2, None), (4, None), (2, 2), (2, 4), (2, 6),
                   (4, 6)):
        ctx.ob('top hat', f'offset={offs} {t} factor={f} filter={s}', tophat,
               ctx, (offs,), (t,), (f,), s)
  for o in itertools.product((ZERO, HALF, ONE), repeat=2):
    for t in ((P2, P2), (P2, D2), (D2, D2), (N2, N2), (N2, P2)):
      if any(a == N2 and b != HALF for a, b in zip(t, o)):
        continue
      for f, s in (((2, 2), None), ((2, 4), None), ((2, 1), None),
                   ((2, 2), (4, 2)), ((1, 2), (1, 4))):
        ctx.ob('top hat', f'offset={fmt(o)} {t} factor={f} filter={s}', tophat,
               ctx, o, t, f, s)
  ctx.ob('top hat', '3d', tophat, ctx, (ONE, HALF, ZERO), (P2, D2, P2),
         (2, 2, 2), None)
  ctx.ob('top hat refuses', '', tophat_refuses, ctx)
  for src, dst in (((8, 8), (4, 4)), ((8, 8), (8, 8)), ((12, 8), (6, 4)),
                   ((12, 12), (4, 4)), ((8, 8), (4, 2)), ((8, 12), (4, 4)),
                   ((9, 9), (5, 5)), ((8, 8), (5, 5)), ((10, 6), (5, 3)),
                   ((15, 9), (5, 3)), ((8, 8), (3, 4))):
    for given in (True, False):
      if not given and src[0] * dst[1] != src[1] * dst[0]:
        continue
      ctx.ob('spectral', f'{src} to {dst} source given={given}', spectral, ctx,
             src, dst, given)


def sizes(nd, fs):
  """Coarse symbolic sizes and the fine sizes that are multiples of them."""
  m = tuple(n_sym(d, 'm') for d in range(nd))
  return m, tuple(times(f, x) for f, x in zip(fs, m))


def grids_(ctx, nd, fs):
  m, n = sizes(nd, fs)
  w = World(ctx, nd, shape=n)
  g = ctx.call('base.grids:Grid', tuple(A.dim(x) for x in m), domain=w.domain)
  return w, m, g


def coarse(rd, fs, direction):
  """Mean over the fine faces that make up the coarse face."""
  def spec(*ix):
    acc, n = X.ZERO, 1
    opts = []
    for d, i in enumerate(ix):
      base = times(fs[d], i)
      if d == direction:
        opts.append([plus(base, fs[d] - 1)])
      else:
        opts.append([plus(base, k) for k in range(fs[d])])
        n *= fs[d]
    for pt in itertools.product(*opts):
      acc = plus(acc, rd(*pt))
    return times(F(1, n), acc)
  return spec


def component(ctx, nd, f):
  fs = (f,) * nd
  m, n = sizes(nd, fs)
  w = World(ctx, nd, shape=n)
  for d in range(nd):
    got = ctx.call(RS + 'downsample_staggered_velocity_component',
                   w.data('u', False), d, f)
    pointwise(got, m, coarse(lambda *p: w.rd('u', *p, periodic=False), fs, d),
              f'direction {d}', 1)


def indivisible(ctx, nd):
  if nd == 1:
    return
  for d in range(nd):
    u = A.field('u', tuple(6 if k == d else 5 for k in range(nd)), None)
    ctx.raises('ValueError', ctx.call,
               RS + 'downsample_staggered_velocity_component', u, d, 2)


def vec(ctx, w, kind, grid=None, bcs=None, tag='u'):
  out = []
  for d in range(w.ndim):
    o = face(w.ndim, d)
    if kind == 'raw':
      out.append(w.data(f'{tag}{d}', False))
      continue
    a = ctx.call('base.grids:GridArray', w.data(f'{tag}{d}', False), o,
                 grid or w.grid)
    out.append(a if kind == 'array' else ctx.call(
        'base.grids:GridVariable', a, bcs[d] if bcs else w.periodic()))
  return tuple(out)


def staggered(ctx, nd, f, kind):
  fs = (f,) * nd
  w, m, g = grids_(ctx, nd, fs)
  bcs = [w.bc(((DIR, DIR),) * nd, ((X.sym(f'a{d}'), X.sym(f'b{d}')),) * nd)
         for d in range(nd)]
  us = vec(ctx, w, kind, None, bcs)
  r = ctx.call(RS + 'downsample_staggered_velocity', w.grid, g, us)
  need(isinstance(r, tuple) and len(r) == nd, f'result {short(r)}')
  for d, v in enumerate(r):
    if kind != 'raw':
      need_kind(v, 'GridArray' if kind == 'array' else 'GridVariable',
                f'component {d}')
      need_offset(v, face(nd, d), f'component {d}')
      ctx.same(grid_of(v), g, f'grid of component {d}')
      if kind == 'variable':
        ctx.same(bc_of(v), bcs[d], f'condition {d}')
    pointwise(v, m, coarse(lambda *p, d=d: w.rd(f'u{d}', *p, periodic=False),
                           fs, d), f'component {d}', 1)


def refuses(ctx, nd, kind):
  fn = RS + 'downsample_staggered_velocity'
  bad = ('AssertionError', 'ValueError')
  w = World(ctx, nd, shape=(12,) * nd)

  def grid(shape, scale=1, shift=0):
    return ctx.call('base.grids:Grid', shape, domain=tuple(
        (plus(lo, shift), plus(lo, shift, times(scale, 12, w.h[d])))
        for d, lo in enumerate(w.lo)))
  us = vec(ctx, w, kind)
  ctx.raises(bad, ctx.call, fn, w.grid, grid((6,) * nd, 2), us)
  ctx.raises(bad, ctx.call, fn, w.grid, grid((6,) * nd, 1, 1), us)
  ctx.raises(bad, ctx.call, fn, w.grid, grid((5,) * nd), us)
  ctx.raises(bad, ctx.call, fn, w.grid, grid((24,) * nd), us)
  if nd > 1:
    # a single factor serves every axis
    for s in ((6,) * (nd - 1) + (3,), (6,) * (nd - 1) + (12,),
              (4,) + (6,) * (nd - 1)):
      ctx.raises(bad, ctx.call, fn, w.grid, grid(s), us)
  if kind != 'raw':
    other = vec(ctx, w, kind, grid((12,) * nd, 2))
    ctx.raises('InconsistentGridError', ctx.call, fn, w.grid, grid((6,) * nd),
               other)


def divergence(ctx, nd):
  """The coarse divergence is the mean of the fine one."""
  f = 2
  w = World(ctx, nd, shape=(4,) * nd)
  g = ctx.call('base.grids:Grid', (2,) * nd, domain=w.domain)
  us = tuple(w.var(f'u{d}', face(nd, d)) for d in range(nd))
  r = ctx.call(RS + 'downsample_staggered_velocity', w.grid, g, us)

  def rd(d):
    return lambda *p: w.rd(f'u{d}', *p)
  for I in itertools.product(range(2), repeat=nd):
    c = X.ZERO
    for d, v in enumerate(r):
      a = arr_of(v)
      hi = at(a, [(None, X.const(i)) for i in I])
      lo = at(a, [(None, X.const((i - 1) % 2 if k == d else i))
                  for k, i in enumerate(I)])
      c = plus(c, over(minus(hi, lo), times(f, w.h[d])))
    fine = X.ZERO
    for p in itertools.product(*[range(f * i, f * i + f) for i in I]):
      for d in range(nd):
        q = tuple((x - 1) % 4 if k == d else x for k, x in enumerate(p))
        fine = plus(fine, over(minus(rd(d)(*map(X.const, p)),
                                     rd(d)(*map(X.const, q))), w.h[d]))
    need(X.equal(c, times(F(1, f ** nd), fine)),
         f'divergence of the coarse cell {I} is not the mean of its fine cells')


# ---------------------------------------------------------------- top hat


def averaged(w, g, d, offset, types, values, f, s):
  """g filtered over s values along d around the coarse location."""
  if s == 1:
    return g
  ext = ext_along(w, g, d, types, values, moved((HALF,) * w.ndim, d, 0), MIR)

  def spec(*ix):
    j = times(f, ix[d])
    j = plus(j, 0 if offset == 0 else f // 2 if offset == HALF else f)
    acc = X.ZERO
    for k in range(s):
      acc = plus(acc, ext(*(tuple(ix[:d]) + (plus(j, k - s // 2),) +
                            tuple(ix[d + 1:]))))
    return times(F(1, s), acc)
  return spec


def tophat(ctx, offset, types, fs, size):
  nd = len(fs)
  w, m, g = grids_(ctx, nd, fs)
  # (values of walls that meet in a stored corner agree)
  c = Field(ctx, w, 'c', offset, types, zero=types.count(D2) > 1 and 1 in fs)
  ss = fs if size is None else (size,) * nd if isinstance(size, int) else size
  args = () if size is None else (size,)
  r = ctx.call(RS + 'top_hat_downsample', w.grid, g, (c.var, c.var), *args)
  need(isinstance(r, tuple) and len(r) == 2, f'result {short(r)}')
  target = tuple(HALF if s > 1 else o for s, o in zip(ss, offset))
  spec = linear_to(w, c.stored, types, c.values, offset, target)
  for d in range(nd):
    spec = averaged(w, spec, d, offset[d], types, c.values, fs[d], ss[d])
  for v in r:
    need_kind(v, 'GridVariable')
    need_offset(v, offset)
    ctx.same(grid_of(v), g, 'grid')
    ctx.same(bc_of(v), c.bc, 'condition')
    pointwise(v, m, spec, 'filtered', 4)


def tophat_refuses(ctx):
  w = World(ctx, 2, shape=(12, 12))
  c = Field(ctx, w, 'c', (HALF, HALF))
  bad = ('AssertionError', 'ValueError', 'NotImplementedError')
  fn = RS + 'top_hat_downsample'

  def grid(shape, scale=1):
    return ctx.call('base.grids:Grid', shape, domain=tuple(
        (lo, plus(lo, times(scale, 12, w.h[d]))) for d, lo in enumerate(w.lo)))
  for shape, scale, size in (((6, 6), 2, None), ((5, 6), 1, None),
                             ((6, 5), 1, None), ((4, 4), 1, None),
                             ((6, 6), 1, 3), ((3, 6), 1, 2),
                             ((6, 3), 1, (2, 2)), ((6, 6), 1, 1)):
    ctx.raises(bad, ctx.call, fn, w.grid, grid(shape, scale), (c.var,), size)
  other = ctx.call('base.grids:GridVariable', ctx.call(
      'base.grids:GridArray', w.data('c'), (HALF, HALF), grid((12, 12), 2)),
                   w.periodic())
  ctx.raises('InconsistentGridError', ctx.call, fn, w.grid, grid((6, 6)),
             (other,))


# ---------------------------------------------------------------- spectral


def spectral(ctx, src, dst, given):
  """Resolved modes keep amplitude: coefficients scale with the point count."""
  w = World(ctx, 2, shape=src)
  g = ctx.call('base.grids:Grid', dst, domain=w.domain)
  sig = A.field('s', (src[0], src[1] // 2 + 1), None, False)
  r = ctx.call(RS + 'downsample_spectral', w.grid if given else None, g, sig)
  a = arr_of(r)
  need(a.shape == (dst[0], dst[1] // 2 + 1), f'shape {a.shape}')
  k = F(dst[0] * dst[1], src[0] * src[1])
  for i in range(dst[0]):
    kx = i if i < (dst[0] + 1) // 2 else i - dst[0]
    for j in range(dst[1] // 2 + 1):
      v = at(a, [(None, X.const(i)), (None, X.const(j))])
      if 2 * abs(kx) == dst[0] or 2 * j == dst[1]:
        if src == dst:
          pass
        else:
          continue
      want = times(k, at(sig, [(None, X.const(kx % src[0])),
                               (None, X.const(j))]))
      need(X.equal(v, want), f'mode ({kx}, {j}): {short(v)} expected '
           f'{short(want)}')
