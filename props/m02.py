"""M02: convolution layers, tilings and towers."""
from props.bclaw import *  # pylint: disable=wildcard-import,unused-wildcard-import

EXPLANATION = (
    'Convolution layers are interpreted on unknown inputs with unknown kernels '
    '(one indeterminate per kernel entry) and compared, entry by entry, with '
    'the circular convolution (its transpose, its mirror-extended variant) of '
    'the same kernel, for kernel sizes, dilations, strides and tile layouts; '
    'tilings are compared as index maps. Towers are interpreted with unknown '
    'convolution modules and activations and their composition is compared '
    'with the documented architecture.')

LA, TI, TO, LU = 'ml.layers:', 'ml.tiling:', 'ml.towers:', 'ml.layers_util:'
F = Fraction


def run(ctx):
  for nd, kernel, rate, lay, stride in convs():
    ctx.ob('periodic convolution', f'{fmt(kernel)} rate={rate} tiles={lay} '
           f'stride={stride}', periodic, ctx, nd, kernel, rate, lay, stride)
  for nd, kernel, stride in ((1, (1,), 1), (1, (2,), 1), (1, (3,), 1),
                             (1, (3,), 2), (1, (2,), 2), (1, (4,), 2),
                             (1, (5,), 2), (1, (4,), 3), (1, (1,), 2),
                             (2, (3, 3), 1), (2, (3, 2), 2), (2, (2, 2), 2),
                             (3, (2, 1, 2), 1)):
    ctx.ob('transposed convolution', f'{fmt(kernel)} stride={stride}',
           transposed, ctx, nd, kernel, stride)
  ctx.ob('transposed convolution', 'tiled', notile, ctx)
  for where in ((HALF, HALF), (ONE, HALF), (HALF, ONE)):
    for types in ((PER, PER), (DIR, DIR), (PER, NEU), (NEU, DIR), (PER, DIR)):
      if any(t == NEU and o == ONE for t, o in zip(types, where)):
        continue
      for kernel, rate in (((3, 3), 1), ((1, 1), 1), ((3, 1), 1), ((1, 3), 1),
                           ((3, 5), 1), ((3, 3), 2)):
        ctx.ob('mirror convolution', f'{fmt(where)} {types} {fmt(kernel)} '
               f'rate={rate}', mirror, ctx, where, types, kernel, rate)
  for k in (1, 2, 3):
    for rate in (1, 2):
      ctx.ob('valid convolution', f'size {k} rate={rate}', valid, ctx, k, rate)
  for nd in (1, 2, 3):
    for lay in LAYS[nd]:
      ctx.ob('tiling', f'ndim={nd} {fmt(lay)}', tiling, ctx, nd, lay)
      for pad in PADS[nd]:
        ctx.ob('halo exchange', f'ndim={nd} {fmt(lay)} {pad}', halo, ctx, nd,
               lay, pad)
    ctx.ob('tiling', f'refusals ndim={nd}', tile_refuse, ctx, nd)
    for lay in (None,) + LAYS[nd]:
      ctx.ob('kernel convolution', f'ndim={nd} {lay}', kernel_conv, ctx, nd,
             lay)
  for axes in ((0,), (0, 1), (1,)):
    ctx.ob('rescaling', f'axes={axes}', rescale, ctx, axes)
  for nd in (1, 2, 3):
    ctx.ob('tower', f'architecture ndim={nd}', architecture, ctx, nd)
    ctx.ob('tower', f'square kernels ndim={nd}', forward, ctx, nd)
    ctx.ob('tower', f'modules ndim={nd}', modules, ctx, nd)
    ctx.ob('tower', f'residual ndim={nd}', residual, ctx, nd)
  for nd in (1, 2):
    ctx.ob('tower', f'translation ndim={nd}', translation, ctx, nd)
    ctx.ob('tower', f'shared perceptron ndim={nd}', mlp, ctx, nd)
  ctx.ob('tower', 'refusals', tower_refuse, ctx)
  for where in ((HALF, HALF), (ONE, HALF)):
    for types in ((PER, PER), (DIR, NEU) if where[0] == ONE else (NEU, DIR)):
      ctx.ob('rescaling', f'fields {fmt(where)} {types}', gridvar, ctx, where,
             types)
  for name in ('relu', 'tanh', 'softplus', 'swish', 'elu', 'gelu'):
    ctx.ob('nonlinearity', name, nonlinearity, ctx, name)


def convs():
  for k in (1, 2, 3, 4, 5):
    for rate in (1, 2, 3):
      eff = (k - 1) * rate + 1
      for lay in (None, (1,), (2,), (4,)):
        if k > 3 and rate > 1 and lay != (2,) or eff > 9:
          continue
        yield 1, (k,), rate, lay, 1
  yield 1, (3,), 1, None, 2
  yield 1, (2,), 1, None, 2
  yield 1, (3,), 2, (2,), 2
  for kernel in ((3, 3), (3, 2), (1, 3), (2, 2)):
    for lay in (None, (2, 1), (1, 2), (2, 2)):
      yield 2, kernel, 1, lay, 1
  yield 2, (3, 2), 2, None, 1
  yield 2, (3, 2), 2, (2, 2), 1
  yield 2, (3, 3), 1, (2, 1), 2
  yield 3, (2, 3, 1), 1, None, 1
  yield 3, (3, 1, 2), 1, (1, 2, 1), 1


def field(name, ns, chan):
  per = tuple(E(n) for n in ns) + (None,)
  return A.field(name, tuple(ns) + (chan,),
                 (True,) * len(ns) + (False,)), per


def cell(name, per, ix, c):
  return X.rd(name, per, tuple(E(i) for i in ix) + (E(c),), True, False)


def entry(name, *ix):
  return X.rd(name, (None,) * len(ix), tuple(E(i) for i in ix), True, False)


def sample(ns):
  return list(itertools.product(*map(range, ns)))


def kernels(ctx):
  """Numbers of the convolutions that were evaluated."""
  return [e for e in ctx.ip.events if e[0] == 'conv.used']


def circular(per, kernel, first, rate, stride, ci, p, o, k, flip=False):
  out = entry(f'conv{k}.b', o)
  for j in sample(kernel):
    ix = [stride * x + f + rate * y for x, f, y in zip(p, first, j)]
    for c in range(ci):
      out = plus(out, times(entry(f'conv{k}.w', *j, c, o),
                            cell('u', per, ix, c)))
  return out


def clear(ctx):
  ctx.ip.events[:] = [e for e in ctx.ip.events if e[0] not in (
      'conv', 'conv.used')]


def compare(ctx, r, ns, co, specs, what):
  """The result must be one of the specs (functions of index, channel)."""
  arr = arr_of(r)
  if arr.shape is None:
    raise Undecided(f'{what}: opaque')
  need(tuple(arr.shape) == tuple(ns) + (co,),
       f'{what} has shape {A.fmt_shape(arr.shape)}, expected '
       f'{fmt(tuple(ns) + (co,))}')
  err = None
  for spec in specs:
    bad = None
    for p in sample(ns):
      for o in range(co):
        g, w = A.at_index(arr, p + (o,)), spec(p, o)
        if not X.equal(g, w):
          bad = f'{what} at {fmt(p)}, channel {o}: {X.show(g, 8)}  expected  ' \
                f'{X.show(w, 8)}'
          break
      if bad:
        break
    if bad is None:
      return
    err = err or bad
  raise Violated(err)


def periodic(ctx, nd, kernel, rate, lay, stride):
  clear(ctx)
  tiles = lay or (1,) * nd
  eff = [(k - 1) * rate + 1 for k in kernel]
  ns = tuple(t * max(stride * 2 if stride > 1 else 2, -(-e // 2) + (e // 2 > 1))
             for t, e in zip(tiles, eff))
  ci, co = (2, 2) if nd == 1 else (1, 2)
  kw = {} if stride == 1 else {'stride': stride}
  m = ctx.call(LA + f'PeriodicConv{nd}D', co, kernel, rate=rate,
               tile_layout=lay, **kw)
  u, per = field('u', ns, ci)
  r = meth(ctx, m, '__call__', u)
  used = kernels(ctx)
  need(len(used) == 1 and used[0][2] == tuple(kernel),
       f'kernel {[e[2] for e in used]}, expected {kernel}')
  k = used[0][1]
  out = tuple(n // stride for n in ns)
  left = itertools.product(*[
      (e // 2,) if e % 2 else (e // 2, e // 2 - 1) for e in eff])
  compare(ctx, r, out, co, [
      lambda p, o, l=l: circular(per, kernel, [-x for x in l], rate, stride, ci,
                                 p, o, k) for l in left], 'convolution')


def transposed(ctx, nd, kernel, stride):
  clear(ctx)
  ns = tuple(max(3 + d, k // stride + 1) for d, k in enumerate(kernel)
            ) if nd < 3 else (3, 2, 3)
  ci, co = (2, 2) if nd == 1 else (1, 2)
  m = ctx.call(LA + f'PeriodicConvTranspose{nd}D', co, kernel, stride)
  u, per = field('u', ns, ci)
  r = meth(ctx, m, '__call__', u)
  used = kernels(ctx)
  need(len(used) == 1 and used[0][2] == tuple(kernel),
       f'kernel {[e[2] for e in used]}, expected {kernel}')
  k = used[0][1]
  out = tuple(n * stride for n in ns)

  def spec(p, o):
    e = entry(f'conv{k}.b', o)
    for q in sample(ns):
      for j in sample(kernel):
        hit = all((stride * x + y - (n - 1) // 2 - z) % m_ == 0
                  for x, y, n, z, m_ in zip(q, j, kernel, p, out))
        if hit:
          w = tuple(n - 1 - y for n, y in zip(kernel, j))
          for c in range(ci):
            e = plus(e, times(entry(f'conv{k}.w', *w, c, o),
                              cell('u', per, q, c)))
    return e
  compare(ctx, r, out, co, [spec], 'transposed convolution')


def notile(ctx):
  ctx.raises(('NotImplementedError', 'ValueError'), lambda: ctx.call(
      LA + 'PeriodicConvTranspose1D', 1, (3,), tile_layout=(2,)))


def mirror(ctx, where, types, kernel, rate):
  clear(ctx)
  eff = [(k - 1) * rate + 1 for k in kernel]
  ns = tuple(max(4, e) for e in eff)
  w = World(ctx, 2, ns)
  val = [(X.sym(f'a{d}'), X.sym(f'b{d}')) if types[d] == DIR else
         (X.ZERO, X.ZERO) if types[d] == NEU else (None, None)
         for d in range(2)]
  if types == (DIR, DIR):  # walls that agree where they meet
    val = [(X.sym('a'), X.sym('a'))] * 2
  bc = w.bc([(t, t) for t in types], val)
  m = ctx.call(LA + 'MirrorConv2D', 2, kernel, rate=rate)
  vs = tuple(ctx.ip.call(ctx.ip.getattr(bc, 'impose_bc'), [
      w.wrap(w.data(f'u{c}', tuple(t == PER for t in types)), where)], {})
             for c in range(2))
  r = ctx.ip.iterate(meth(ctx, m, '__call__', vs))
  need(len(r) == 2, f'{len(r)} fields for 2 inputs')
  used = kernels(ctx)
  need(len(used) == 1 and used[0][2] == tuple(kernel), 'kernel')
  k = used[0][1]
  data = [arr_of(v) for v in vs]

  tt = [(t, t) for t in types]

  def ext(c, order, pos):
    """Field c continued beyond the grid, along the last axis of order first."""
    def go(todo, ix):
      if not todo:
        return A.at_index(data[c], tuple(int(E(i).const_value()) for i in ix))
      d, n = todo[0], ns[todo[0]]

      def line(i):
        i = int(E(i).const_value())
        if types[d] == PER:
          i %= n
        return go(todo[1:], ix[:d] + [i] + ix[d + 1:])
      return val_of(extended(line, n, tt[d], val[d], where[d], w.h[d], MIR)(
          X.const(ix[d])))
    return go(order, list(pos))

  def spec(o, order):
    def f(p):
      e = entry(f'conv{k}.b', o)
      for j in sample(kernel):
        ix = [x - z // 2 + rate * y for x, z, y in zip(p, eff, j)]
        for c in range(2):
          e = plus(e, times(entry(f'conv{k}.w', *j, c, o), ext(c, order, ix)))
      return e
    return f
  for o, v in enumerate(r):
    need_kind(v, 'GridVariable')
    need_offset(v, where)
    ctx.same(bc_of(v), bc, 'boundary condition')

    def against(order):
      want = A.from_entries([spec(o, order)(p) for p in sample(ns)], ns)
      full = ctx.ip.call(ctx.ip.getattr(bc, 'impose_bc'), [
          w.wrap(want, where)], {})
      ctx.same(arr_of(v), arr_of(full), f'field {o}')
    try:
      against((0, 1))
    except Violated:
      # corners beyond two walls depend on the axis continued first
      if types != (DIR, DIR):
        raise
      against((1, 0))


def val_of(v):
  return v.alts[0] if isinstance(v, AnyOf) else v


def valid(ctx, k, rate):
  clear(ctx)
  eff = (k - 1) * rate + 1
  n = eff + 2
  m = ctx.call(LA + 'NonPeriodicConv1D', 2, (k,), rate=rate)
  u, per = field('u', (n,), 2)
  r = meth(ctx, m, '__call__', u)
  q = kernels(ctx)[0][1]
  compare(ctx, r, (3,), 2, [lambda p, o: circular(per, (k,), (0,), rate, 1, 2,
                                                  p, o, q)], 'convolution')


# ------------------------------------------------------------ tilings

LAYS = {1: ((1,), (2,), (4,)), 2: ((1, 1), (2, 1), (1, 3), (2, 3)),
        3: ((1, 1, 1), (2, 1, 2), (1, 2, 3), (2, 3, 1))}
PADS = {1: (((1, 1),), ((0, 2),), ((2, 0),), ((0, 0),)),
        2: (((1, 1), (1, 1)), ((2, 0), (0, 1)), ((1, 2), (2, 1))),
        3: (((1, 0), (0, 1), (1, 1)), ((1, 1), (1, 1), (1, 1)))}


def tiling(ctx, nd, lay):
  t = (2, 3, 1)[:nd]
  ns = tuple(x * y for x, y in zip(lay, t))
  u, per = field('u', ns, 2)
  b = ctx.call(TI + 'space_to_batch', u, lay)
  arr = arr_of(b)
  nb = 1
  for x in lay:
    nb *= x
  need(tuple(arr.shape) == (nb,) + t + (2,), f'tiles of shape {arr.shape}')
  seen = set()
  for k in range(nb):
    at0 = A.at_index(arr, (k,) + (0,) * nd + (0,)).atoms()
    need(len(at0) == 1 and at0[0].op == 'rd', 'tiles are not parts of the input')
    corner = tuple(e.const_value() for e in at0[0].args[2][:nd])
    need(all(c % s == 0 for c, s in zip(corner, t)), f'tile {k} starts at '
         f'{fmt(corner)}')
    seen.add(corner)
    for p in sample(t):
      for c in range(2):
        g = A.at_index(arr, (k,) + p + (c,))
        w = cell('u', per, [x + y for x, y in zip(corner, p)], c)
        need(X.equal(g, w), f'tile {k} at {fmt(p)}: {X.show(g, 3)} expected '
             f'{X.show(w, 3)}')
  need(len(seen) == nb, 'tiles overlap')
  ctx.same(ctx.call(TI + 'batch_to_space', b, lay), u, 'tiled and reassembled')
  x = A.field('t', (nb,) + t + (2,), None)
  s = ctx.ip.call(ctx.anchor('ml.tiling', 'batch_to_space'), [x, lay], {})
  ctx.same(ctx.call(TI + 'space_to_batch', s, lay), x, 'reassembled and tiled')


def halo(ctx, nd, lay, pad):
  t = (2, 3, 2)[:nd]
  ns = tuple(x * y for x, y in zip(lay, t))
  u, per = field('u', ns, 1)
  b = ctx.ip.call(ctx.anchor('ml.tiling', 'space_to_batch'), [u, lay], {})
  r = arr_of(ctx.call(TI + 'halo_exchange_pad', b, lay, pad))
  tiles = arr_of(b)
  big = tuple(x + l + h for x, (l, h) in zip(t, pad))
  need(tuple(r.shape) == (tiles.shape[0],) + big + (1,),
       f'padded tiles of shape {r.shape}')
  for k in range(tiles.shape[0]):
    corner = [e.const_value() for e in A.at_index(
        tiles, (k,) + (0,) * nd + (0,)).atoms()[0].args[2][:nd]]
    for p in sample(big):
      g = A.at_index(r, (k,) + p + (0,))
      w = cell('u', per, [c + x - l for c, x, (l, _) in zip(corner, p, pad)], 0)
      need(X.equal(g, w), f'tile {k} padded, at {fmt(p)}: {X.show(g, 3)} '
           f'expected {X.show(w, 3)}')


def tile_refuse(ctx, nd):
  lay = (2,) * nd
  x = A.field('t', (3,) + (4,) * nd + (1,), None)
  ctx.raises(('ValueError',), lambda: ctx.call(
      TI + 'halo_exchange_pad', x, lay, ((1, 1),) * nd))
  x = A.field('t', (2 ** nd,) + (4,) * nd + (1,), None)
  ctx.raises(('ValueError',), lambda: ctx.call(
      TI + 'halo_exchange_pad', x, lay, ((1, 1),) * (nd + 1)))
  # a halo wider than the neighbouring tile cannot be exchanged
  x = A.field('t', (2 ** nd,) + (2,) * nd + (1,), None)
  ctx.raises(('ValueError', 'TypeError'), lambda: ctx.call(
      TI + 'halo_exchange_pad', x, lay, ((3, 0),) * nd))


def kernel_conv(ctx, nd, lay):
  for ks in ((3, 2, 1)[:nd], (2, 3, 2)[:nd], (1, 1, 3)[:nd]):
    ns = tuple((lay[d] if lay else 1) * 3 for d in range(nd))
    if nd == 3 and lay not in (None, (1, 1, 1)):
      continue
    u, per = field('u', ns, 2)
    w = A.field('ker', ks + (2, 1), None)
    r = ctx.call(LU + 'periodic_convolution', u, w, lay)

    def spec(p, o, ks=ks, per=per):
      e = X.ZERO
      for j in sample(ks):
        ix = [x + y - (n - 1) // 2 for x, y, n in zip(p, j, ks)]
        for c in range(2):
          e = plus(e, times(entry('ker', *j, c, o), cell('u', per, ix, c)))
      return e
    compare(ctx, r, ns, 1, [spec], f'convolution with a kernel {fmt(ks)}')


def fold(f, xs):
  r = xs[0]
  for x in xs[1:]:
    r = f(r, x)
  return r


def rescale(ctx, axes):
  shape = (2, 2, 1)
  x = A.field('x', shape, None)
  lo, hi = X.sym('lo'), X.sym('hi')
  for via in (LA + 'rescale_to_range', TO + 'scale_to_range'):
    if via[:len(TO)] == TO:
      r = ctx.call(via, x, axes, lo, hi)
    else:
      r = ctx.call(via, x, lo, hi, axes)

    def spec(*ix):
      ix = [int(i.const_value()) for i in ix]
      vs = [entry('x', *q) for q in sample(shape)
            if all(q[d] == ix[d] for d in range(3) if d not in axes)]
      mx, mn = fold(X.maximum, vs), fold(X.minimum, vs)
      v = over(minus(entry('x', *ix), mn), minus(mx, mn))
      return plus(times(v, minus(hi, lo)), lo)
    pointwise(r, shape, spec, 'rescaled')
  one = X.sym('one')
  pointwise(ctx.call(TO + 'fixed_scale', x, axes, one), shape,
            lambda *ix: times(one, entry('x', *ix)), 'scaled')


def gridvar(ctx, where, types):
  """Fields are scaled and keep their boundary conditions."""
  w = World(ctx, 2, (4, 3))
  val = [(X.ZERO, X.ZERO) if t != PER else (None, None) for t in types]
  bc = w.bc([(t, t) for t in types], val)
  vs = tuple(ctx.ip.call(ctx.ip.getattr(bc, 'impose_bc'), [
      w.wrap(w.data(f'u{c}', tuple(t == PER for t in types)), where)], {})
             for c in range(2))
  r = ctx.call(TO + 'fixed_scale_gridvar', vs, (0, 1), X.sym('one'))
  r = ctx.ip.iterate(r)
  need(len(r) == 2, f'{len(r)} fields for 2 inputs')
  for u, v in zip(vs, r):
    need_kind(v, 'GridVariable')
    need_offset(v, where)
    ctx.same(bc_of(v), bc, 'boundary condition')
    pointwise(v, (4, 3), lambda *ix: times(
        X.sym('one'), A.at_index(arr_of(u), tuple(
            int(i.const_value()) for i in ix))), 'scaled field')


def nonlinearity(ctx, name):
  f = ctx.anchor('ml.nonlinearities', name)
  x = A.field('x', (3,), None)
  ref = 'jnp.tanh' if name == 'tanh' else f'jax.nn.{name}'
  ctx.same(ctx.ip.call(f, [x], {}), ev(ctx, ref + '(x)', x=x), name)


# ------------------------------------------------------------ towers

class Nets:
  """Unknown convolution modules, activations and scalings, recorded."""

  def __init__(self):
    self.made = []

  def conv(self):
    def make(ip, a, kw):
      k = len(self.made)
      self.made.append((list(a), dict(kw)))
      return opaque_fn(f'conv{k}')
    return pyfn('conv_module', make)

  def scale(self, name, axes):
    def f(ip, a, kw):
      got = kw.get('axes', a[1] if len(a) > 1 else None)
      axes.append(list(ip.iterate(got)))
      return A.unary(lambda e: X.apply_op('user_' + name, (e,)), M.to_arr(a[0]))
    return pyfn(name, f)


def arg_of(rec, k, name, default=None):
  a, kw = rec
  return kw.get(name, a[k] if len(a) > k else default)


def ap(name, e):
  return X.apply_op('user_' + name, (e,))


def run_tower(ctx, name, nd, nets, kw, n):
  axes = []
  kw = dict(kw, conv_module=nets.conv(), nonlinearity=opaque_fn('act'),
            inputs_scale_fn=nets.scale('in', axes),
            output_scale_fn=nets.scale('out', axes))
  t = ctx.call(TO + name, 5, nd, **kw)
  ns = (3, 2, 2)[:nd]
  u = A.field('u', ns + (2,), None)
  r = ctx.ip.call(t, [u], {})

  def spec(*ix):
    e = ap('in', entry('u', *ix))
    for k in range(n):
      e = ap('act', ap(f'conv{k}', e))
    return ap('out', ap(f'conv{n}', e))
  pointwise(r, ns + (2,), spec, 'tower output')
  need(axes == [list(range(nd))] * 2, f'scaled over the axes {axes}')
  need(len(nets.made) == n + 1, f'{len(nets.made)} convolutions')
  for rec in nets.made:
    need(M.as_int(arg_of(rec, 2, 'ndim')) == nd, 'rank of a convolution')


def layer_is(rec, chan, kernel, rate, stride):
  got = (M.as_int(arg_of(rec, 0, 'output_channels')),
         tuple(arg_of(rec, 1, 'kernel_shape')),
         M.as_int(arg_of(rec, 9, 'rate', 1)),
         M.as_int(arg_of(rec, 9, 'stride', 1)))
  want = (chan, tuple(kernel), rate, stride)
  need(got == want, 'convolution (channels, kernel, rate, stride) is '
       f'{got}, expected {want}')


def architecture(ctx, nd):
  ks = tuple(tuple(range(3 + j, 3 + j + nd)) for j in range(3))
  last = (7, 9, 11)[:nd]
  for n in (1, 2, 3):
    for rates, strides in (((2, 3, 4)[:n], (5, 6, 7)[:n]), (2, 3)):
      nets = Nets()
      run_tower(ctx, 'forward_flex_tower_factory', nd, nets, dict(
          channels=(8, 9, 10)[:n], kernel_shapes=ks[:n], rates=rates,
          strides=strides, output_kernel_shape=last, output_rate=6,
          output_stride=4), n)
      for j in range(n):
        layer_is(nets.made[j], 8 + j, ks[j],
                 rates if isinstance(rates, int) else rates[j],
                 strides if isinstance(strides, int) else strides[j])
      layer_is(nets.made[n], 5, last, 6, 4)


def forward(ctx, nd):
  for n in (1, 2, 3):
    nets = Nets()
    run_tower(ctx, 'forward_tower_factory', nd, nets, dict(
        num_hidden_channels=7, kernel_size=4, num_hidden_layers=n, rates=2,
        strides=3, output_kernel_size=5, output_dilation_rate=6,
        output_stride=8), n)
    for j in range(n):
      layer_is(nets.made[j], 7, (4,) * nd, 2, 3)
    layer_is(nets.made[n], 5, (5,) * nd, 6, 8)


def modules(ctx, nd):
  """The default modules are the layers of the right rank."""
  clear(ctx)
  ns = (4, 4, 4)[:nd]
  u, per = field('u', ns, 1)
  m = ctx.call(TO + 'periodic_convolution', 2, (2,) * nd, nd, rate=2)
  r = ctx.ip.call(m, [u], {})
  k = kernels(ctx)[0][1]
  left = itertools.product((1, 0), repeat=nd)
  compare(ctx, r, ns, 2, [lambda p, o, l=l: circular(
      per, (2,) * nd, [-x for x in l], 2, 1, 1, p, o, k) for l in left],
          'convolution')
  clear(ctx)
  m = ctx.call(TO + 'periodic_transpose_convolution', 1, (2,) * nd, nd,
               stride=2, rate=1)
  r = arr_of(ctx.ip.call(m, [u], {}))
  need(tuple(r.shape) == tuple(2 * n for n in ns) + (1,),
       f'transposed convolution of shape {r.shape}')
  ctx.raises(('ValueError',), lambda: ctx.call(
      TO + 'periodic_transpose_convolution', 1, (2,) * nd, nd, rate=2))


def residual(ctx, nd):
  for n in (1, 2, 3):
    made, axes = [], []

    def factory(ip, a, kw):
      made.append((M.as_int(a[0]), M.as_int(a[1])))
      return opaque_fn(f'block{len(made) - 1}')
    nets = Nets()
    skip = lambda ip, a, kw: A.unary(
        lambda e: X.apply_op(f'user_skip{M.as_int(a[1])}', (e,)),
        M.to_arr(a[0]))
    t = ctx.call(TO + 'residual_block_tower_factory', 5, nd, num_blocks=n,
                 block_factory=pyfn('block_factory', factory),
                 skip_connection_fn=pyfn('skip', skip),
                 inputs_scale_fn=nets.scale('in', axes),
                 output_scale_fn=nets.scale('out', axes))
    ns = (2, 2, 2)[:nd]
    r = ctx.ip.call(t, [A.field('u', ns + (3,), None)], {})

    def spec(*ix):
      e = ap('in', entry('u', *ix))
      for k in range(n - 1):
        s = ap(f'skip{k}', e)
        # the block continues from the running value
        e = plus(s, ap(f'block{k}', e))
      return ap('out', ap(f'block{n - 1}', e))
    pointwise(r, ns + (3,), spec, 'residual tower')
    need(made == [(3, nd)] * (n - 1) + [(5, nd)],
         f'blocks (channels, rank) {made}')
    need(axes == [list(range(nd))] * 2, f'scaled over the axes {axes}')
  got = []

  def mod(ip, a, kw):
    got.append((list(a), dict(kw)))
    return opaque_fn('mod')
  t = ctx.call(TO + 'residual_connection', 5, nd, module_factory=pyfn(
      'module_factory', mod), flag=3)
  ns = (2, 2, 2)[:nd]
  r = ctx.ip.call(t, [A.field('u', ns + (3,), None)], {})
  pointwise(r, ns + (3,), lambda *ix: plus(
      entry('u', *ix), ap('mod', entry('u', *ix))), 'residual connection')
  need(got == [([5, nd], {'flag': 3})], f'the module is made with {got}')


def translation(ctx, nd):
  """Shifting the input of a periodic tower shifts its output."""
  n = 4 if nd == 1 else 3
  ns = (n,) * nd
  for kw in (dict(num_hidden_layers=1, kernel_size=3, output_kernel_size=2),
             dict(num_hidden_layers=1, kernel_size=2, rates=2,
                  output_kernel_size=3, output_dilation_rate=1)):
    outs = []
    for axis in (None,) + tuple(range(nd)):
      clear(ctx)
      t = ctx.call(TO + 'forward_tower_factory', 1, nd, num_hidden_channels=1,
                   nonlinearity=opaque_fn('act'), **kw)
      u, _ = field('u', ns, 1)
      x = u if axis is None else A.roll(u, 1, axis)
      outs.append((axis, arr_of(ctx.ip.call(t, [x], {}))))
    need(tuple(outs[0][1].shape) == ns + (1,),
         f'tower output of shape {outs[0][1].shape}')
    for axis, o in outs[1:]:
      ctx.same(o, A.roll(outs[0][1], 1, axis),
               f'tower of an input shifted along {axis}')


def mlp(ctx, nd):
  sizes, axes = [], []

  def MLP(ip, a, kw):
    sizes.append((list(ip.iterate(a[0] if a else kw['output_sizes'])), kw))
    def call(ip_, b, kw_):
      x = M.to_arr(b[0])
      need(len(x.shape) == 1, f'the perceptron sees an array of shape {x.shape}')
      es = tuple(A.at_index(x, (i,)) for i in range(x.shape[0]))
      return A.from_entries([X.apply_op(f'user_mlp{o}', es)
                             for o in range(2)], (2,))
    return pyfn('mlp', call)
  nets = Nets()
  from sa import lib_std  # pylint: disable=import-outside-toplevel
  old = lib_std.STD.get('haiku.nets.MLP')
  lib_std.STD['haiku.nets.MLP'] = MLP
  act = opaque_fn('act')
  try:
    t = ctx.call(TO + 'MlpTowerFactory', 2, nd, 6, 3, nonlinearity=act,
                 inputs_scale_fn=nets.scale('in', axes),
                 output_scale_fn=nets.scale('out', axes))
    ns = (3, 2)[:nd]
    r = meth(ctx, t, '__call__', A.field('u', ns + (2,), None))
  finally:
    if old is None:
      del lib_std.STD['haiku.nets.MLP']
    else:
      lib_std.STD['haiku.nets.MLP'] = old
  need(len(sizes) == 1 and [M.as_int(s) for s in sizes[0][0]] == [6, 6, 6, 2],
       f'layer sizes {[s for s, _ in sizes]}')
  need(sizes[0][1].get('activation') is act, 'the nonlinearity is not used')
  pointwise(r, ns + (2,), lambda *ix: ap('out', X.apply_op(
      f'user_mlp{int(ix[-1].const_value())}',
      tuple(ap('in', entry('u', *ix[:-1], c)) for c in range(2)))),
            'perceptron output')
  need(axes == [list(range(nd))] * 2, f'scaled over the axes {axes}')


def tower_refuse(ctx):
  for bad in (dict(kernel_shapes=((3,),)), dict(rates=(1,)),
              dict(strides=(1, 1, 1))):
    kw = dict(channels=(4, 4), kernel_shapes=((3,), (3,)), rates=(1, 1),
              strides=(1, 1), output_kernel_shape=(3,))
    kw.update(bad)
    ctx.raises(('ValueError',), lambda kw=kw: ctx.call(
        TO + 'forward_flex_tower_factory', 1, 1, **kw))
