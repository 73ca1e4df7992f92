"""U01: array utilities."""
import itertools as it

from props.common import *  # pylint: disable=wildcard-import,unused-wildcard-import

EXPLANATION = (
    'The splitting, slicing, joining, block and interpolation helpers are '
    'interpreted on arrays of unknown content, alone and inside nested '
    'structures, for every axis (negative ones included); each element of the '
    'result must be the element of the input that the definition names, and '
    'joining must undo splitting. The orthogonal decomposition is compared '
    'with the textbook recurrences for unknown matrices, and the linear '
    'interpolation with its defining formula at unknown points.')

AU = 'base.array_utils:'
SHAPES = ((4,), (3, 4), (2, 4, 3), (1, 3), (3, 1), (2, 1, 1))


def run(ctx):
  for shape in SHAPES:
    nd = len(shape)
    for axis in range(-nd, nd):
      for idx in (0, 1, -1, slice(None), slice(1, None), slice(None, -1),
                  slice(1, 2), slice(None, None, 2), slice(-1, None)):
        if isinstance(idx, int) and idx >= shape[axis]:
          continue
        ctx.ob('slice', f'{shape} axis={axis} {idx}', sliced, ctx, shape, axis,
               idx)
      for k in (0, 1, 2, -1):
        ctx.ob('split in two', f'{shape} axis={axis} at {k}', split2, ctx,
               shape, axis, k)
      for keep in (False, True):
        ctx.ob('split axis', f'{shape} axis={axis} keep={keep}', splitall, ctx,
               shape, axis, keep)
      ctx.ob('join', f'{shape} axis={axis}', joined, ctx, shape, axis)
      ctx.ob('unstack', f'{shape} axis={axis}', unstacked, ctx, shape, axis)
      ctx.ob('any size', f'rank {nd} axis={axis}', anysize, ctx, nd, axis)
  ctx.ob('slice', 'different ranks', ranks, ctx)
  ctx.ob('slice', 'refusals', refusals, ctx)
  for shape, block in (((4,), (2,)), ((6,), (3,)), ((4,), (1,)),
                       ((4, 6), (2, 3)), ((4, 6), (2, 2)), ((4, 6), (1, 3)),
                       ((4, 6), (4, 1)), ((2, 4, 6), (2, 2, 3)),
                       ((4, 2, 2), (2, 1, 2))):
    for fn in ('mean', 'sum', 'any'):
      ctx.ob('block reduce', f'{shape} by {block} {fn}', blocks, ctx, shape,
             block, fn)
  ctx.ob('block reduce', 'refusals', badblocks, ctx)
  for rows, cols in ((2, 1), (3, 1), (2, 2), (3, 2), (4, 2)):
    ctx.ob('orthogonal decomposition', f'{rows}x{cols}', qr, ctx, rows, cols)
  for yshape, axis in (((3,), 0), ((3,), -1), ((4, 2), 0), ((2, 4), 1),
                       ((2, 4), -1), ((2, 3, 2), 1), ((2, 3, 2), -2),
                       ((3, 2, 2), 0)):
    for xs in ((), (3,), (2, 2)):
      for fill in ('extrapolate', 'constant_extrapolate', 'nan', 'value'):
        ctx.ob('interpolation', f'y{yshape} axis={axis} x{xs} {fill}', interp,
               ctx, yshape, axis, xs, fill)
  ctx.ob('interpolation', 'unsorted', unsorted_, ctx)
  ctx.ob('interpolation', 'refusals', badinterp, ctx)


# ------------------------------------------------------------ pieces

def arrs(shape, axis=None):
  """A nested structure of arrays; sizes differ off the axis."""
  ax = None if axis is None else axis % len(shape)
  other = tuple(s if j == ax or ax is None else s + 1
                for j, s in enumerate(shape))
  fs = [A.field(n, s, None) for n, s in (('a', shape), ('b', other),
                                         ('c', shape))]
  return (fs[0], {'p': fs[1], 'q': [fs[2]]}), (('a', shape), ('b', other),
                                              ('c', shape))


def leaves(t):
  if isinstance(t, dict):
    return [x for k in sorted(t) for x in leaves(t[k])]
  if isinstance(t, (tuple, list)):
    return [x for v in t for x in leaves(v)]
  return [t]


def skeleton(t):
  if isinstance(t, dict):
    return {k: skeleton(t[k]) for k in sorted(t)}
  if isinstance(t, (tuple, list)):
    return (type(t).__name__, [skeleton(v) for v in t])
  return None


def rd(name, *ix):
  return X.rd(name, (None,) * len(ix), tuple(E(i) for i in ix), True, False)


def same_structure(got, want, what):
  need(skeleton(got) == skeleton(want),
       f'{what}: structure {skeleton(got)}, expected {skeleton(want)}')


def pick(got, name, shape, axis, idx, what):
  """got must be field `name` restricted to idx along axis."""
  ax = axis % len(shape)
  rng = range(shape[ax])[idx]
  if isinstance(rng, int):
    out = shape[:ax] + shape[ax + 1:]
    spec = lambda *ix: rd(name, *ix[:ax], rng, *ix[ax:])
  else:
    out = shape[:ax] + (len(rng),) + shape[ax + 1:]

    def spec(*ix):
      k = int(E(ix[ax]).const_value())
      return rd(name, *ix[:ax], rng[k], *ix[ax + 1:])
  if 0 in out:
    a = arr_of(got)
    need(tuple(a.shape) == tuple(out), f'{what}: shape {a.shape}, expected {out}')
    return
  pointwise(got, out, spec, what)


def sliced(ctx, shape, axis, idx):
  t, info = arrs(shape, axis)
  r = ctx.call(AU + 'slice_along_axis', t, axis, idx)
  same_structure(r, t, 'slice')
  for g, (n, s) in zip(leaves(r), info):
    pick(g, n, s, axis, idx, f'slice of {n}')


def split2(ctx, shape, axis, k):
  t, info = arrs(shape, axis)
  r = ctx.call(AU + 'split_along_axis', t, k, axis)
  need(len(r) == 2, f'{len(r)} parts')
  for part, idx in zip(r, (slice(0, k), slice(k, None))):
    same_structure(part, t, 'part')
    for g, (n, s) in zip(leaves(part), info):
      pick(g, n, s, axis, idx, f'part {idx} of {n}')
  back = ctx.call(AU + 'concat_along_axis', [r[0], r[1]], axis)
  same_structure(back, t, 'joined')
  for g, (n, s) in zip(leaves(back), info):
    pick(g, n, s, axis, slice(None), f'joined {n}')


def splitall(ctx, shape, axis, keep):
  t, info = arrs(shape, axis)
  r = ctx.call(AU + 'split_axis', t, axis, keep_dims=keep)
  n0 = shape[axis]
  need(isinstance(r, tuple) and len(r) == n0,
       f'expected {n0} parts, got {short(r)}')
  for k, part in enumerate(r):
    same_structure(part, t, 'part')
    for g, (n, s) in zip(leaves(part), info):
      pick(g, n, s, axis, slice(k, k + 1) if keep else k, f'part {k} of {n}')
  if keep:
    back = ctx.call(AU + 'concat_along_axis', r, axis)
    same_structure(back, t, 'joined')
    for g, (n, s) in zip(leaves(back), info):
      pick(g, n, s, axis, slice(None), f'joined {n}')


def joined(ctx, shape, axis):
  """Three trees of different lengths along the axis."""
  ax = axis % len(shape)
  parts, sizes = [], []
  for k in range(3):
    s = tuple(v + k if j == ax else v for j, v in enumerate(shape))
    sizes.append(s[ax])
    parts.append((A.field(f'a{k}', s, None), {'p': A.field(f'b{k}', s, None)}))
  r = ctx.call(AU + 'concat_along_axis', parts, axis)
  same_structure(r, parts[0], 'joined')
  total = shape[:ax] + (sum(sizes),) + shape[ax + 1:]

  def spec(name):
    def f(*ix):
      i = int(E(ix[ax]).const_value())
      k = 0
      while i >= sizes[k]:
        i -= sizes[k]
        k += 1
      return rd(f'{name}{k}', *ix[:ax], i, *ix[ax + 1:])
    return f
  for g, name in zip(leaves(r), 'ab'):
    pointwise(g, total, spec(name), f'joined {name}')


def unstacked(ctx, shape, axis):
  r = ctx.call(AU + 'unstack', A.field('a', shape, None), axis)
  need(isinstance(r, tuple) and len(r) == shape[axis],
       f'expected {shape[axis]} slices, got {short(r)}')
  for k, g in enumerate(r):
    pick(g, 'a', shape, axis, k, f'slice {k}')


def anysize(ctx, nd, axis):
  n = tuple(n_sym(d) for d in range(nd))
  a = A.field('a', n, None)
  ax = axis % nd
  drop = n[:ax] + n[ax + 1:]

  def cut(k):
    return n[:ax] + (minus(n[ax], k),) + n[ax + 1:]
  f = lambda i: ctx.call(AU + 'slice_along_axis', a, axis, i)
  pointwise(f(slice(2, None)), cut(2), lambda *ix: rd(
      'a', *shifted(ix, ax, 2)), 'from the second')
  pointwise(f(slice(None, -1)), cut(1), lambda *ix: rd('a', *ix), 'all but one')
  pointwise(f(-1), drop, lambda *ix: rd(
      'a', *ix[:ax], minus(n[ax], 1), *ix[ax:]), 'last')
  pointwise(f(0), drop, lambda *ix: rd('a', *ix[:ax], 0, *ix[ax:]), 'first')
  r = ctx.call(AU + 'split_along_axis', a, 3, axis)
  pointwise(r[0], n[:ax] + (3,) + n[ax + 1:], lambda *ix: rd('a', *ix), 'head')
  pointwise(r[1], cut(3), lambda *ix: rd('a', *shifted(ix, ax, 3)), 'tail')
  pointwise(ctx.call(AU + 'concat_along_axis', r, axis), n,
            lambda *ix: rd('a', *ix), 'joined')


def ranks(ctx):
  a, b = A.field('a', (4,), None), A.field('b', (3, 4), None)
  for axis in (-1, 0):
    ctx.raises('ValueError', lambda axis=axis: ctx.call(
        AU + 'slice_along_axis', (a, b), axis, 0))
    ctx.raises('ValueError', lambda axis=axis: ctx.call(
        AU + 'split_along_axis', (a, b), 1, axis))
    r = ctx.call(AU + 'slice_along_axis', (a, b), axis, 1,
                 expect_same_dims=False)
    pick(r[0], 'a', (4,), axis, 1, 'first')
    pick(r[1], 'b', (3, 4), axis, 1, 'second')
    r = ctx.call(AU + 'split_along_axis', (a, b), 1, axis,
                 expect_same_dims=False)
    for k, idx in enumerate((slice(0, 1), slice(1, None))):
      pick(r[k][0], 'a', (4,), axis, idx, 'first')
      pick(r[k][1], 'b', (3, 4), axis, idx, 'second')


def refusals(ctx):
  a, b = A.field('a', (4, 3), None), A.field('b', (3, 3), None)
  for axis in (2, -3, 5):
    ctx.raises(('ValueError', 'IndexError'), lambda axis=axis: ctx.call(
        AU + 'slice_along_axis', a, axis, 0))
    ctx.raises(('ValueError', 'IndexError'), lambda axis=axis: ctx.call(
        AU + 'split_along_axis', a, 1, axis))
  ctx.raises('ValueError', lambda: ctx.call(AU + 'split_axis', (a, b), 0))
  ctx.raises('ValueError', lambda: ctx.call(AU + 'split_axis', (a, b), -2))


# ------------------------------------------------------------ blocks

def blocks(ctx, shape, block, fn):
  a = A.field('a', shape, None)
  if fn == 'any':
    red = pyfn('reduction', lambda ip, args, kw: A.full((), X.apply_op(
        'user_red', [at(M.to_arr(args[0]), list(zip(
            [None] * len(block), map(X.const, ix))))
                     for ix in it.product(*map(range, block))])))
  else:
    red = ev(ctx, f'jnp.{fn}')
  out = tuple(s // b for s, b in zip(shape, block))

  def spec(*ix):
    xs = [rd('a', *[plus(times(i, b), k) for i, b, k in zip(ix, block, ks)])
          for ks in it.product(*map(range, block))]
    if fn == 'any':
      return X.apply_op('user_red', xs)
    return times(plus(*xs), 1 if fn == 'sum' else Fraction(1, len(xs)))
  r = ctx.call(AU + 'block_reduce', a, block, red)
  pointwise(r, out, spec, 'block values')


def badblocks(ctx):
  for shape, block in (((4,), (3,)), ((4, 6), (2, 4)), ((5, 4), (2, 2))):
    ctx.raises('ValueError', lambda s=shape, b=block: ctx.call(
        AU + 'block_reduce', A.field('a', s, None), b, ev(ctx, 'jnp.mean')))


# ------------------------------------------------------------ QR

def qr(ctx, rows, cols):
  a = A.field('a', (rows, cols), None)
  want = ev(ctx, '''
cs = [a[:, k] for k in range(cols)]
qs = []
for c in cs:
  v = c
  for q in qs:
    v = v - jnp.dot(v, q) * q
  qs.append(v / jnp.sqrt(jnp.sum(v * v)))
rs = [[jnp.dot(cs[j], qs[i]) for j in range(cols)] for i in range(cols)]
signs = [jnp.sign(rs[i][i]) for i in range(cols)]
''', a=a, cols=cols)
  q, r = ctx.call(AU + 'gram_schmidt_qr', a)
  pointwise(q, (rows, cols), lambda i, j: times(
      at(M.to_arr(want['qs'][cv(j)]), [(None, i)]), want['signs'][cv(j)]),
            'orthonormal factor')
  pointwise(r, (cols, cols), lambda i, j: X.ZERO if cv(i) > cv(j) else times(
      want['rs'][cv(i)][cv(j)], want['signs'][cv(i)]), 'triangular factor')


def cv(e):
  return int(E(e).const_value())


# ------------------------------------------------------------ interp1d

def interp(ctx, yshape, axis, xs, fill):
  ax = axis % len(yshape)
  n = yshape[ax]
  x = ev(ctx, 'jnp.asarray(v)', v=[times(3, k) for k in range(n)])
  y = A.field('y', yshape, None)
  fv = X.sym('fill')
  kw = {'nan': {}, 'value': {'fill_value': A.full((), fv)}}.get(
      fill, {'fill_value': fill})
  pts = [-2, 0, 1, 3, 4, 3 * (n - 1) - 1, 3 * (n - 1), 3 * n]
  size = 1
  for s in xs:
    size *= s
  f = ctx.call(AU + 'interp1d', x, y, axis=axis, **kw)
  for k0 in range(0, len(pts), size):
    mine = [pts[(k0 + k) % len(pts)] for k in range(size)]
    xn = ev(ctx, 'jnp.reshape(jnp.asarray(v), s)', v=list(mine), s=tuple(xs))
    got = ctx.ip.call(f, [xn], {})

    def spec(*ix):
      flat = 0
      for d, s in enumerate(xs):
        flat = flat * s + cv(ix[ax + d])
      lead, tail = ix[:ax], ix[ax + len(xs):]
      p = mine[flat]
      v = lambda k: rd('y', *lead, k, *tail)
      out = p < 0 or p > 3 * (n - 1)
      if out and fill == 'nan':
        return E(ev(ctx, 'jnp.asarray(jnp.nan)'))
      if out and fill == 'value':
        return fv
      if out and fill == 'constant_extrapolate':
        return v(0) if p < 0 else v(n - 1)
      k = min(max(p // 3, 0), n - 2)
      t = Fraction(p, 3) - k
      return plus(times(1 - t, v(k)), times(t, v(k + 1)))
    pointwise(got, yshape[:ax] + tuple(xs) + yshape[ax + 1:], spec,
              'interpolated')


def unsorted_(ctx):
  order = [2, 0, 3, 1]
  x = ev(ctx, 'jnp.asarray(v)', v=[times(2, k) for k in order])
  for axis in (0, 1, -1):
    shape = (4, 2) if axis == 0 else (2, 4)
    y = A.field('y', shape, None)
    f = ctx.call(AU + 'interp1d', x, y, axis=axis, assume_sorted=False,
                 fill_value='extrapolate')
    got = ctx.ip.call(f, [ev(ctx, 'jnp.asarray([1, 3, 5, 7])')], {})

    def spec(*ix):
      i, j = (ix[0], ix[1]) if axis == 0 else (ix[1], ix[0])
      v = lambda k: (rd('y', order.index(k), j) if axis == 0
                     else rd('y', j, order.index(k)))
      k = min(cv(i), 2)
      t = Fraction(2 * cv(i) + 1, 2) - k
      return plus(times(1 - t, v(k)), times(t, v(k + 1)))
    pointwise(got, shape, spec, 'interpolated')


def badinterp(ctx):
  mk = lambda n: ev(ctx, 'jnp.asarray(v)', v=list(range(n)))
  y = A.field('y', (3,), None)
  c = lambda *a, **k: (lambda: ctx.call(AU + 'interp1d', *a, **k))
  ctx.raises('ValueError', c(mk(3), y, fill_value='nearest'))
  ctx.raises('ValueError', c(mk(3), y, fill_value=A.field('f', (2,), None)))
  ctx.raises('ValueError', c(mk(4), y))
  ctx.raises('ValueError', c(A.field('x', (3, 1), None), y))
  ctx.raises('ValueError', c(mk(1), A.field('y', (1,), None)))
  ctx.raises(('ValueError', 'IndexError'), c(mk(3), y, axis=1))
  ctx.raises(('ValueError', 'IndexError'), c(mk(3), y, axis=-2))
