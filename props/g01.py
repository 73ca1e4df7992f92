"""G01: grid geometry."""
from props.common import *  # pylint: disable=wildcard-import,unused-wildcard-import

EXPLANATION = (
    'Grid constructors, axes, meshes, Fourier frequencies, offset helpers and '
    'sampling helpers of base/grids.py are interpreted abstractly with symbolic '
    'sizes, steps and bounds for ranks 1-3; every array they return is compared, '
    'as a value at a generic index, with the coordinate law lo + (i + o) * step.')


def run(ctx):
  for nd in (1, 2, 3):
    w = World(ctx, nd)
    ctx.ob('step=(hi-lo)/n', f'ndim={nd}', steps, ctx, w)
    ctx.ob('shape/domain kept', f'ndim={nd}', kept, ctx, w)
    for off in offsets(nd):
      ctx.ob('axes', f'ndim={nd} offset={off}', axes, ctx, w, off)
      ctx.ob('mesh', f'ndim={nd} offset={off}', mesh, ctx, w, off)
      ctx.ob('eval_on_mesh', f'ndim={nd} offset={off}', evalmesh, ctx, w, off)
    ctx.ob('offset names', f'ndim={nd}', names, ctx, w)
    ctx.ob('frequencies', f'ndim={nd}', freqs, ctx, w)
    ctx.ob('stagger/center', f'ndim={nd}', stagger, ctx, w)
    ctx.ob('constructor', f'ndim={nd}', ctor, ctx, nd)
    ctx.ob('constructor errors', f'ndim={nd}', ctor_errors, ctx, nd)
    ctx.ob('mean offset / faces', f'ndim={nd}', means, ctx, w)
    ctx.ob('interior masks', f'ndim={nd}', masks, ctx, nd)
    ctx.ob('hash/eq', f'ndim={nd}', eqs, ctx, nd)
    ctx.ob('offset length', f'ndim={nd}', badoff, ctx, w)


def offsets(nd):
  s = [None, (ZERO,) * nd, tuple([ONE, HALF, ZERO][:nd]),
       tuple([Fraction(3, 4), Fraction(-1, 3), Fraction(5, 2)][:nd])]
  return s


def steps(ctx, w):
  ctx.anchor('base.grids', 'Grid.__init__')
  ctx.same(w.grid.attrs['step'], w.h, 'step')


def kept(ctx, w):
  ctx.anchor('base.grids', 'Grid.__init__')
  ctx.same(w.grid.attrs['shape'], w.n, 'shape')
  ctx.same(w.grid.attrs['domain'], w.domain, 'domain')
  ctx.same(prop(ctx, w.grid, 'ndim'), w.ndim, 'ndim')


def coord(w, d, o, i):
  return plus(w.lo[d], times(plus(i, o), w.h[d]))


def axes(ctx, w, off):
  r = meth(ctx, w.grid, 'axes', *([] if off is None else [off]))
  o = off or center(w.ndim)
  need(len(r) == w.ndim, f'{len(r)} axes for rank {w.ndim}')
  for d in range(w.ndim):
    pointwise(r[d], (w.n[d],), lambda i, d=d: coord(w, d, o[d], i), f'axes[{d}]')


def mesh(ctx, w, off):
  r = meth(ctx, w.grid, 'mesh', *([] if off is None else [off]))
  o = off or center(w.ndim)
  need(len(r) == w.ndim, f'{len(r)} mesh arrays for rank {w.ndim}')
  for d in range(w.ndim):
    pointwise(r[d], w.n, lambda *ix, d=d: coord(w, d, o[d], ix[d]), f'mesh[{d}]')


def evalmesh(ctx, w, off):
  f = opaque_fn('f')
  r = meth(ctx, w.grid, 'eval_on_mesh', f, *([] if off is None else [off]))
  o = off or center(w.ndim)
  need_kind(r, 'GridArray')
  need_offset(r, o)
  need(grid_of(r) is w.grid or not diff(grid_of(r), w.grid), 'wrong grid')
  pointwise(r, w.n, lambda *ix: X.apply_op(
      'user_f', [coord(w, d, o[d], ix[d]) for d in range(w.ndim)]))


def names(ctx, w):
  ctx.same(prop(ctx, w.grid, 'cell_center'), center(w.ndim), 'cell_center')
  ctx.same(prop(ctx, w.grid, 'cell_faces'),
           tuple(face(w.ndim, d) for d in range(w.ndim)), 'cell_faces')


def freqs(ctx, w):
  ctx_same = []
  r = meth(ctx, w.grid, 'fft_axes')
  need(len(r) == w.ndim, 'one frequency array per axis')
  for d in range(w.ndim):
    want = ev(ctx, 'jnp.fft.fftfreq(n, d=h)', n=A.dim(w.n[d]), h=w.h[d])
    ctx.same(r[d], want, f'fft_axes[{d}]')
  r = meth(ctx, w.grid, 'rfft_axes')
  need(len(r) == w.ndim, 'one frequency array per axis')
  allax = []
  for d in range(w.ndim):
    fn = 'rfftfreq' if d == w.ndim - 1 else 'fftfreq'
    want = ev(ctx, f'jnp.fft.{fn}(n, d=h)', n=A.dim(w.n[d]), h=w.h[d])
    ctx.same(r[d], want, f'rfft_axes[{d}]')
    allax.append(want)
  r = meth(ctx, w.grid, 'rfft_mesh')
  want = ev(ctx, "jnp.meshgrid(*ax, indexing='ij')", ax=allax)
  ctx.same(tuple(r), tuple(want), 'rfft_mesh')
  # a concrete size pins the library model itself: k / (n * h)
  for n in (5, 6, 8):
    h = h_sym(0)
    g = ctx.call('base.grids:Grid', (n,), domain=((ZERO, times(n, h)),))
    full = [k if k < (n + 1) // 2 else k - n for k in range(n)]
    a, = meth(ctx, g, 'fft_axes')
    ctx.same(a, A_list([over(k, times(n, h)) for k in full]), f'fft n={n}')
    a, = meth(ctx, g, 'rfft_axes')
    ctx.same(a, A_list([over(k, times(n, h)) for k in range(n // 2 + 1)]),
             f'rfft n={n}')


def A_list(xs):
  return M.list_to_arr(list(xs))


def stagger(ctx, w):
  v = tuple(w.data(f'v{d}') for d in range(w.ndim))
  r = meth(ctx, w.grid, 'stagger', v)
  need(len(r) == w.ndim, 'one component per axis')
  for d in range(w.ndim):
    need_kind(r[d], 'GridArray')
    need_offset(r[d], face(w.ndim, d), f'stagger[{d}]')
    ctx.same(arr_of(r[d]), v[d], f'stagger[{d}] data')
    ctx.same(grid_of(r[d]), w.grid, 'grid')
  t = {'a': v[0], 'b': (v[-1], v[0])}
  r = meth(ctx, w.grid, 'center', t)
  need(isinstance(r, dict) and set(r) == {'a', 'b'}, 'structure kept')
  for got, want in ((r['a'], v[0]), (r['b'][0], v[-1]), (r['b'][1], v[0])):
    need_kind(got, 'GridArray')
    need_offset(got, center(w.ndim))
    ctx.same(arr_of(got), want, 'center data')


def ctor(ctx, nd):
  n = tuple(A.dim(n_sym(d)) for d in range(nd))
  st = tuple(X.sym(f's{d}', pos=True) for d in range(nd))
  g = ctx.call('base.grids:Grid', n, step=st)
  ctx.anchor('base.grids', 'Grid.__init__')
  ctx.same(g.attrs['domain'], tuple((0, times(s, k)) for s, k in zip(st, n)),
           'domain from per-axis steps')
  ctx.same(g.attrs['step'], st, 'step from per-axis steps')
  g = ctx.call('base.grids:Grid', n, step=Fraction(1, 4))
  ctx.same(g.attrs['step'], (Fraction(1, 4),) * nd, 'scalar step')
  ctx.same(g.attrs['domain'], tuple((0, over(k, 4)) for k in n), 'domain')
  g = ctx.call('base.grids:Grid', n)
  ctx.same(g.attrs['step'], (1,) * nd, 'default step')
  g = ctx.call('base.grids:Grid', n, domain=3)
  ctx.same(g.attrs['domain'], ((0, 3),) * nd, 'scalar domain')
  ctx.same(g.attrs['step'], tuple(over(3, k) for k in n), 'step')
  g = ctx.call('base.grids:Grid', list(n), domain=tuple(
      (Fraction(d), Fraction(2 * d + 1)) for d in range(nd)))
  ctx.same(g.attrs['step'], tuple(over(d + 1, k) for d, k in enumerate(n)),
           'step from domain pairs')
  ctx.same(g.attrs['shape'], n, 'shape is a tuple')
  need(isinstance(g.attrs['shape'], tuple), 'shape must be a tuple')
  need(isinstance(g.attrs['domain'], tuple), 'domain must be a tuple')


def ctor_errors(ctx, nd):
  n = tuple(A.dim(n_sym(d)) for d in range(nd))
  G = ctx.anchor('base.grids', 'Grid')
  dom = tuple((ZERO, ONE) for _ in range(nd))
  ctx.raises('TypeError', lambda: ctx.call(G, n, step=1, domain=dom))
  ctx.raises('TypeError', lambda: ctx.call(G, n, step=(ONE,) * nd, domain=dom))
  ctx.raises('ValueError', lambda: ctx.call(G, n, step=(ONE,) * (nd + 1)))
  ctx.raises('ValueError', lambda: ctx.call(G, n, domain=dom + ((ZERO, ONE),)))
  ctx.raises('ValueError', lambda: ctx.call(
      G, n, domain=tuple((ZERO, ONE, ONE) for _ in range(nd))))
  if nd > 1:
    ctx.raises('ValueError', lambda: ctx.call(G, n, step=(ONE,) * (nd - 1)))
    ctx.raises('ValueError', lambda: ctx.call(G, n, domain=dom[1:]))
    ctx.raises('ValueError', lambda: ctx.call(
        G, n, domain=dom[1:] + ((ZERO, ONE, ONE),)))
  ctx.raises('TypeError', lambda: ctx.call(G, (Fraction(3, 2),) * nd))


def means(ctx, w):
  nd = w.ndim
  arrs = [w.array(f'a{k}', face(nd, k % nd)) for k in range(nd)]
  r = ctx.call('base.grids:averaged_offset', *arrs)
  want = tuple(Fraction(1, 2) + Fraction(1, 2 * nd) for _ in range(nd))
  ctx.same(r, want, 'averaged_offset')
  a = w.array('a', tuple([Fraction(0), Fraction(1), HALF][:nd]))
  b = w.array('b', tuple([Fraction(1), HALF, ZERO][:nd]))
  r = ctx.call('base.grids:averaged_offset', a, b)
  ctx.same(r, tuple([HALF, Fraction(3, 4), Fraction(1, 4)][:nd]), 'mean of two')
  r = ctx.call('base.grids:averaged_offset', a, b, b)
  ctx.same(r, tuple([Fraction(2, 3), Fraction(2, 3), Fraction(1, 6)][:nd]),
           'mean of three')
  need(isinstance(r, tuple), 'averaged_offset must be a tuple')
  for o in (center(nd), offset_of(a), offset_of(b)):
    for c in (w.array('c', o), w.var('c', o)):
      r = ctx.call('base.grids:control_volume_offsets', c)
      ctx.same(r, tuple(tuple(x + HALF if i == j else x
                              for i, x in enumerate(o)) for j in range(nd)),
               'control volume faces')


def masks(ctx, nd):
  # concrete sizes, unequal, so that the outermost faces are decidable
  n = (3, 4, 2)[:nd]
  h = tuple(h_sym(d) for d in range(nd))
  lo = tuple(X.sym(f'lo{d}') for d in range(nd))
  g = ctx.call('base.grids:Grid', n, domain=tuple(
      (l, plus(l, times(k, s))) for l, k, s in zip(lo, n, h)))
  r = ctx.call('base.grids:domain_interior_masks', g)
  need(len(r) == nd, 'one mask per face direction')
  for d in range(nd):
    # face d sits at lo + (i + 1) h on axis d, at centres elsewhere: only the
    # last face along d touches the wall
    pointwise(r[d], n, lambda *ix, d=d: X.ZERO if
              ix[d].const_value() == n[d] - 1 else X.ONE, f'mask[{d}]')


def eqs(ctx, nd):
  n = tuple(A.dim(n_sym(d)) for d in range(nd))
  G = ctx.anchor('base.grids', 'Grid')
  g1 = ctx.call(G, n, domain=((ZERO, ONE),) * nd)
  g2 = ctx.call(G, n, domain=((ZERO, ONE),) * nd)
  g3 = ctx.call(G, n, domain=((ZERO, Fraction(2)),) * nd)
  need(ev(ctx, 'a == b and hash(a) == hash(b) and len({a, b}) == 1', a=g1, b=g2)
       is True, 'equal grids must compare and hash equal')
  need(ev(ctx, 'a != b and len({a, b}) == 2', a=g1, b=g3) is True,
       'grids with different domains must differ')


def badoff(ctx, w):
  m = ctx.anchor('base.grids', 'Grid.axes')
  for k in {0, w.ndim + 1, w.ndim - 1}:
    if k != w.ndim:
      ctx.raises('ValueError', lambda: meth(ctx, w.grid, 'axes', (HALF,) * k))
      ctx.raises('ValueError', lambda: meth(ctx, w.grid, 'mesh', (HALF,) * k))
