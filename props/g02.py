"""G02: alignment discipline and value semantics of located fields."""
from props.common import *  # pylint: disable=wildcard-import,unused-wildcard-import

EXPLANATION = (
    'Every arithmetic / ufunc route on located arrays, applied(), where(), the '
    'consistency helpers and the pytree protocol are interpreted with symbolic '
    'data for equal and for differing offsets, grids and boundary conditions; '
    'equal alignment must give the elementwise value at the same location, '
    'differing alignment must raise the alignment error.')

BIN = [('add', 'a + b'), ('sub', 'a - b'), ('mul', 'a * b'), ('div', 'a / b')]
NPF = ['np.add(a, b)', 'np.subtract(a, b)', 'np.multiply(a, b)',
       'np.maximum(a, b)', 'np.minimum(a, b)', 'np.power(a, b)',
       'np.true_divide(a, b)']
UN = ['-a', 'abs(a)', 'np.sqrt(a)', 'np.sin(a)', 'np.exp(a)', 'np.square(a)',
      'a ** 2', '+a']


def run(ctx):
  for nd in (1, 2, 3):
    w = World(ctx, nd)
    offs = [center(nd), face(nd, 0)] + ([face(nd, nd - 1)] if nd > 1 else [])
    for o in offs:
      ctx.ob('arithmetic keeps location', f'ndim={nd} offset={fmt(o)}',
             arith, ctx, w, o)
      ctx.ob('pytree', f'ndim={nd} offset={fmt(o)}', pytree, ctx, w, o)
      ctx.ob('applied', f'ndim={nd} offset={fmt(o)}', applied, ctx, w, o)
    ctx.ob('misaligned arithmetic refused', f'ndim={nd}', misaligned, ctx, w)
    ctx.ob('consistency helpers', f'ndim={nd}', helpers, ctx, w)
    ctx.ob('wrap checks', f'ndim={nd}', wrapping, ctx, w)
    ctx.ob('implicit BC loss refused', f'ndim={nd}', bcloss, ctx, w)
    ctx.ob('tensor', f'ndim={nd}', tensor, ctx, w)
    ctx.ob('accessors', f'ndim={nd}', accessors, ctx, w)
    ctx.ob('interior grid', f'ndim={nd}', interior, ctx, w)


def loc(ctx, r, o, w, what):
  need_kind(r, 'GridArray', what)
  need_offset(r, o, what)
  ctx.same(grid_of(r), w.grid, what + ' grid')


def arith(ctx, w, o):
  uf = ctx.anchor('base.grids', 'GridArray.__array_ufunc__')
  a, b = w.array('a', o), w.array('b', o)
  da, db = arr_of(a), arr_of(b)
  s = X.sym('s')
  raw = A.field('r', w.n, (True,) * w.ndim)
  for src in [s for _, s in BIN] + NPF:
    ctx.anchor_ = uf
    r = ev(ctx, src, a=a, b=b)
    loc(ctx, r, o, w, src)
    want = ev(ctx, src.replace('np.', 'jnp.'), a=da, b=db)
    ctx.same(arr_of(r), want, src)
    # scalars and bare arrays on either side
    for k, (x, y, dx, dy) in enumerate(
        [(a, s, da, s), (s, b, s, db), (a, raw, da, raw), (raw, b, raw, db)]):
      r = ev(ctx, src, a=x, b=y)
      loc(ctx, r, o, w, f'{src} case {k}')
      ctx.same(arr_of(r), ev(ctx, src.replace('np.', 'jnp.'), a=dx, b=dy),
               f'{src} case {k}')
  for src in UN:
    r = ev(ctx, src, a=a)
    loc(ctx, r, o, w, src)
    ctx.same(arr_of(r), ev(ctx, src.replace('np.', 'jnp.'), a=da), src)
  for src in ('a < b', 'a >= b', 'a > s'):
    r = ev(ctx, src, a=a, b=b, s=s)
    loc(ctx, r, o, w, src)
    ctx.same(arr_of(r), ev(ctx, src, a=da, b=db, s=s), src)
  # several results: each keeps its location
  for src in ('np.divmod(a, b)', 'np.divmod(a, s)', 'np.modf(a)'):
    rs = ev(ctx, src, a=a, b=b, s=s)
    ws = ev(ctx, src.replace('np.', 'jnp.'), a=da, b=db, s=s)
    need(isinstance(rs, tuple) and len(rs) == len(ws),
         f'{src}: {len(ws)} results expected')
    for k, (r, x) in enumerate(zip(rs, ws)):
      loc(ctx, r, o, w, f'{src} [{k}]')
      ctx.same(arr_of(r), x, f'{src} [{k}]')
  # other ufunc methods and foreign operands are refused
  for src in ('np.add.reduce(a)', 'np.add.accumulate(a)',
              'np.multiply.outer(a, a)',
              'np.add(a, "x")', 'a + "x"', 'np.add(a, [1])', 'a + None'):
    ctx.raises('TypeError', lambda: ev(ctx, src, a=a))
  # operands are left alone
  ctx.same(arr_of(a), da, 'operand a')
  need_offset(a, o)


def misaligned(ctx, w):
  nd = w.ndim
  uf = ctx.anchor('base.grids', 'GridArray.__array_ufunc__')
  a = w.array('a', center(nd))
  w2 = ctx.call('base.grids:Grid', tuple(A.dim(x) for x in w.n),
                domain=((ZERO, ONE),) * nd)
  bad_off = [face(nd, d) for d in range(nd)] + [(ZERO,) * nd]
  ctx.anchor_ = uf
  for o in bad_off:
    b = w.array('b', o)
    for src in [s for _, s in BIN] + NPF[:4]:
      ctx.raises('InconsistentOffsetError', lambda: ev(ctx, src, a=a, b=b))
      ctx.raises('InconsistentOffsetError', lambda: ev(ctx, src, a=b, b=a))
  g = w.array('b', center(nd), grid=w2)
  for src in [s for _, s in BIN] + NPF[:4]:
    ctx.raises('InconsistentGridError', lambda: ev(ctx, src, a=a, b=g))


def helpers(ctx, w):
  nd = w.ndim
  a, b = w.array('a', center(nd)), w.array('b', center(nd))
  c = w.array('c', face(nd, nd - 1))
  w2 = ctx.call('base.grids:Grid', tuple(A.dim(x) for x in w.n),
                domain=((ZERO, ONE),) * nd)
  g = w.array('g', center(nd), grid=w2)
  ctx.same(ctx.call('base.grids:consistent_offset', a, b), center(nd))
  ctx.raises('InconsistentOffsetError',
             lambda: ctx.call('base.grids:consistent_offset', a, b, c))
  ctx.raises('InconsistentOffsetError',
             lambda: ctx.call('base.grids:consistent_offset', c, a))
  ctx.same(ctx.call('base.grids:consistent_grid', a, c), w.grid)
  ctx.raises('InconsistentGridError',
             lambda: ctx.call('base.grids:consistent_grid', a, c, g))
  ctx.raises('InconsistentGridError',
             lambda: ctx.call('base.grids:consistent_grid', g, a))
  p = w.bc([PER] * nd)
  d = w.bc([DIR] * nd)
  d2 = w.bc([DIR] * nd, [(ZERO, ONE)] * nd)
  va, vb, vd, vd2 = (w.var(k, center(nd), q)
                     for k, q in (('a', p), ('b', p), ('d', d), ('e', d2)))
  ctx.same(ctx.call('base.grids:unique_boundary_conditions', va, vb), p)
  ctx.same(ctx.call('base.grids:consistent_offset', va, b), center(nd))
  for pair in ((va, vd), (vd, vd2), (va, vb, vd2)):
    ctx.raises('InconsistentBoundaryConditionsError', lambda: ctx.call(
        'base.grids:unique_boundary_conditions', *pair))


def wrapping(ctx, w):
  nd = w.ndim
  gv = ctx.anchor('base.grids', 'GridVariable')
  a = w.array('a', center(nd))
  for k in (nd - 1, nd + 1):
    if k == 0:
      continue
    bc = ctx.call('base.boundaries:ConstantBoundaryConditions',
                  ((PER, PER),) * k, ((None, None),) * k)
    ctx.raises('ValueError', lambda: ctx.call(gv, a, bc))
  bc = w.bc([PER] * nd)
  v = ctx.call(gv, a, bc)
  ctx.raises('ValueError', lambda: ctx.call(gv, v, bc))
  ctx.raises('ValueError', lambda: ctx.call(gv, arr_of(a), bc))
  ctx.same(v.attrs['bc'], bc)


def bcloss(ctx, w):
  nd = w.ndim
  f = ctx.anchor('base.grids', 'applied')
  a = w.array('a', center(nd))
  v = w.var('v', center(nd))
  g = ctx.call(f, opaque_fn('g'))
  ctx.raises('ValueError', lambda: ctx.call(g, v))
  ctx.raises('ValueError', lambda: ctx.call(g, a, v))
  ctx.raises('ValueError', lambda: ctx.call(g, a, k=v))
  ctx.anchor('base.grids', 'GridVariable')
  for src in ('v + v', 'v * s', 'a + v', 's - v', '-v'):
    ctx.raises('TypeError', lambda: ev(ctx, src, v=v, a=a, s=X.sym('s')))


def applied(ctx, w, o):
  f = ctx.anchor('base.grids', 'applied')
  a, b = w.array('a', o), w.array('b', o)
  s = X.sym('s')
  seen = []

  def host(ip, args, kwargs):
    seen.append((args, kwargs))
    return A.ewise(lambda *e: X.apply_op('user_h', e), *[
        M.to_arr(x) for x in list(args) + [kwargs[k] for k in sorted(kwargs)]])
  g = ctx.call(f, pyfn('host', host))
  r = ctx.call(g, a, s, k=b)
  loc(ctx, r, o, w, 'applied')
  pointwise(r, w.n, lambda *ix: X.apply_op(
      'user_h', (w.rd('a', *ix), s, w.rd('b', *ix))), 'applied value')
  need(len(seen) == 1, 'function must be called once')
  c = w.array('c', (ZERO,) * w.ndim)
  ctx.raises('InconsistentOffsetError', lambda: ctx.call(g, a, c))
  ctx.raises('InconsistentOffsetError', lambda: ctx.call(g, a, k=c))
  w2 = ctx.call('base.grids:Grid', tuple(A.dim(x) for x in w.n),
                domain=((ZERO, ONE),) * w.ndim)
  ctx.raises('InconsistentGridError',
             lambda: ctx.call(g, a, w.array('b', o, grid=w2)))
  wh = ctx.anchor('base.grids', 'where')
  cond = ev(ctx, 'a > b', a=a, b=b)
  r = ctx.call(wh, cond, a, b)
  loc(ctx, r, o, w, 'where')
  pointwise(r, w.n, lambda *ix: X.where(
      X.gt0(minus(w.rd('a', *ix), w.rd('b', *ix))), w.rd('a', *ix),
      w.rd('b', *ix)), 'where')


def pytree(ctx, w, o):
  ga = ctx.anchor('base.grids', 'GridArray.tree_flatten')
  a = w.array('a', o)
  v = w.var('v', o, w.bc([DIR] * w.ndim, [(ONE, X.sym('q'))] * w.ndim))
  for x in (a, v):
    leaves, td = ev(ctx, 'jax.tree_util.tree_flatten(x)', x=x)
    need(len(leaves) == 1, f'{x.cls.name} must have one leaf')
    ctx.same(M.to_arr(leaves[0]), arr_of(x), 'leaf')
    y = ev(ctx, 'jax.tree_util.tree_unflatten(td, ls)', td=td, ls=leaves)
    need(is_kind(y, x.cls.name), 'round trip type')
    ctx.same(y, x, 'round trip')
    z = ev(ctx, 'jax.tree_util.tree_map(lambda q: q * 2, x)', x=x)
    need(is_kind(z, x.cls.name), 'tree_map type')
    need_offset(z, o)
    ctx.same(grid_of(z), w.grid, 'tree_map grid')
    ctx.same(arr_of(z), ev(ctx, 'd * 2', d=arr_of(x)), 'tree_map data')
    if x is v:
      ctx.same(z.attrs['bc'], v.attrs['bc'], 'tree_map bc')


def tensor(ctx, w):
  nd = w.ndim
  t = ctx.anchor('base.grids', 'GridArrayTensor')
  xs = [[w.array(f't{i}{j}', center(nd)) for j in range(nd)] for i in range(nd)]
  T = ctx.call(t, xs)
  for i in range(nd):
    for j in range(nd):
      e = ev(ctx, 'T[i, j]', T=T, i=i, j=j)
      ctx.same(arr_of(e), arr_of(xs[i][j]), f'T[{i},{j}]')
      e = ev(ctx, 'T.T[i, j]', T=T, i=i, j=j)
      ctx.same(arr_of(e), arr_of(xs[j][i]), f'T.T[{i},{j}]')
  y = ev(ctx, 'jax.tree_util.tree_map(lambda q: q * 2, T)', T=T)
  for i in range(nd):
    for j in range(nd):
      e = ev(ctx, 'T[i, j]', T=y, i=i, j=j)
      ctx.same(arr_of(e), ev(ctx, 'd * 2', d=arr_of(xs[i][j])),
               f'tree_map T[{i},{j}]')
      need_offset(e, center(nd))


def accessors(ctx, w):
  nd = w.ndim
  o = face(nd, nd - 1)
  v = w.var('v', o)
  a = v.attrs['array']
  for x in (v, a):
    ctx.same(M.to_arr(prop(ctx, x, 'data')), w.data('v'), 'data')
    ctx.same(prop(ctx, x, 'offset'), o, 'offset')
    ctx.same(prop(ctx, x, 'grid'), w.grid, 'grid')
    ctx.same(prop(ctx, x, 'shape'), w.n, 'shape')


def interior(ctx, w):
  nd = w.ndim
  import itertools as it  # pylint: disable=import-outside-toplevel
  for types in it.product((PER, DIR, NEU), repeat=nd):
    bc = w.bc(types)
    for o in {center(nd), face(nd, 0), face(nd, nd - 1), face(nd, 0, ZERO),
              face(nd, nd - 1, ZERO)}:
      v = w.var('v', o, bc)
      g = meth(ctx, v, '_interior_grid')
      sh, dom = [], []
      for d in range(nd):
        n, (l, u) = E(w.n[d]), w.domain[d]
        if types[d] != PER and o[d] == 1:
          n, u = minus(n, 1), minus(u, w.h[d])
        elif types[d] != PER and o[d] == 0:
          n, l = minus(n, 1), plus(l, w.h[d])
        sh.append(n)
        dom.append((l, u))
      ctx.same(g.attrs['shape'], tuple(sh), f'shape {types} {fmt(o)}')
      ctx.same(g.attrs['domain'], tuple(dom), f'domain {types} {fmt(o)}')
