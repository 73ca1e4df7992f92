"""B01: ghost cells."""
import itertools as it

from props.bclaw import *  # pylint: disable=wildcard-import,unused-wildcard-import

EXPLANATION = (
    'shift, pad, pad_all and trim of the constant boundary conditions are '
    'interpreted for every combination of type, side, offset, width, mode and '
    'axis with symbolic data, sizes, steps and boundary constants; the value of '
    'the result at every index next to an end and at the generic interior index '
    'is compared with the one-dimensional boundary law.')

PAIRS = [(PER, PER), (DIR, DIR), (NEU, NEU), (DIR, NEU), (NEU, DIR)]


def values(d):
  return (X.sym(f'a{d}'), X.sym(f'b{d}'))


def setup(ctx, nd, axis, pair, off, other=None):
  """World, field and bc with `pair` on `axis`."""
  w = World(ctx, nd)
  types = [other or (DIR, DIR)] * nd
  types[axis] = pair
  vals = [(None, None) if t[0] == PER else values(d)
          for d, t in enumerate(types)]
  bc = w.bc(types, vals)
  o = tuple(off if d == axis else HALF for d in range(nd))
  per = tuple(t[0] == PER for t in types)
  u = w.array('u', o, per)
  return w, bc, u, o, per, vals


def defined(pair, off, width, both=False):
  """Whether an extension is defined for this alignment."""
  if pair[0] == PER or off % 1 == HALF:
    return True
  if off % 1 != 0:
    return False
  # the upper (lower) condition decides the upper (lower) side
  return pair == (DIR, DIR)


def run(ctx):
  for nd in (1, 2, 3):
    for axis in range(nd):
      for pair in PAIRS:
        for off in (HALF, ZERO, ONE):
          if off != HALF and pair[0] != pair[1]:
            continue
          ctx.ob('shift', f'ndim={nd} axis={axis} {pair} offset={off}',
                 shift, ctx, nd, axis, pair, off)
          ctx.ob('pad', f'ndim={nd} axis={axis} {pair} offset={off}',
                 pad, ctx, nd, axis, pair, off)
  for pair in PAIRS:
    for off in (HALF, ZERO, ONE):
      if defined(pair, off, 1):
        ctx.ob('wide pad', f'{pair} offset={off}', wide, ctx, pair, off)
        ctx.ob('re-padding', f'{pair} offset={off}', repad, ctx, pair, off)
        ctx.ob('mixed with periodic', f'{pair} offset={off}', mixed, ctx, pair,
               off)
    ctx.ob('pad then trim', f'{pair}', padtrim, ctx, pair)
  for nd in (1, 2, 3):
    ctx.ob('pad_all', f'ndim={nd}', padall, ctx, nd)
    ctx.ob('variable.shift', f'ndim={nd}', varshift, ctx, nd)
    ctx.ob('trim', f'ndim={nd}', trim, ctx, nd)
  ctx.ob('undefined refused', 'alignment/mode', undefined, ctx)
  ctx.ob('operand untouched', '', untouched, ctx)


def check(ctx, r, w, u, o, off, axis, per, bc_types, vals, lo, hi, mode, what,
          shiftby=None):
  """r: result of extending u by lo below and hi above (then trimming)."""
  need_kind(r, 'GridArray', what)
  k = -lo if shiftby is None else shiftby
  need_offset(r, tuple(x + k if d == axis else x for d, x in enumerate(o)), what)
  ctx.same(grid_of(r), w.grid, what + ' grid')
  at_ = along(w, 'u', axis, per)
  shape = [E(x) for x in w.n]
  if shiftby is None:
    shape[axis] = plus(shape[axis], lo + hi)

  def spec(*ix):
    f = extended(at_(ix), w.n[axis], bc_types, vals[axis], off, w.h[axis], mode,
                 (lo > 0, hi > 0))
    return f(plus(ix[axis], k))
  pointwise_any(r, shape, spec, what,
                [4 if d == axis else 1 for d in range(w.ndim)])


def shift(ctx, nd, axis, pair, off):
  w, bc, u, o, per, vals = setup(ctx, nd, axis, pair, off)
  for k in ((1, -1) if nd > 1 else (1, -1, 2, -2)):
    for mode in (EXT, MIR):
      if not defined(pair, off, k):
        ctx.raises(('ValueError', 'NotImplementedError'),
                   lambda: meth(ctx, bc, 'shift', u, k, axis, mode=mode))
        continue
      r = meth(ctx, bc, 'shift', u, k, axis, mode=mode)
      check(ctx, r, w, u, o, off, axis, per, pair, vals, max(-k, 0), max(k, 0),
            mode, f'shift {k} {mode}', k)
  if defined(pair, off, 1):
    r = meth(ctx, bc, 'shift', u, 1, axis)
    check(ctx, r, w, u, o, off, axis, per, pair, vals, 0, 1, EXT, 'default', 1)
    r = meth(ctx, bc, 'shift', u, 0, axis)
    check(ctx, r, w, u, o, off, axis, per, pair, vals, 0, 0, EXT, 'shift 0', 0)


def pad(ctx, nd, axis, pair, off):
  w, bc, u, o, per, vals = setup(ctx, nd, axis, pair, off)
  for width in (1, -1, (1, 1)):
    lo, hi = (max(-width, 0), max(width, 0)) if isinstance(width, int) else width
    for mode in (EXT, MIR):
      if not defined(pair, off, 1):
        ctx.raises(('ValueError', 'NotImplementedError'),
                   lambda: meth(ctx, bc, 'pad', u, width, axis, mode=mode))
        continue
      r = meth(ctx, bc, 'pad', u, width, axis, mode=mode)
      check(ctx, r, w, u, o, off, axis, per, pair, vals, lo, hi, mode,
            f'pad {width} {mode}')


def wide(ctx, pair, off):
  for nd, axis in ((1, 0), (2, 1)):
    w, bc, u, o, per, vals = setup(ctx, nd, axis, pair, off)
    for width in (2, 3, -2, -3, (2, 1), (1, 3), (0, 2), (3, 0), (2, 2)):
      lo, hi = (max(-width, 0), max(width, 0)) if isinstance(
          width, int) else width
      for mode in (EXT, MIR):
        r = meth(ctx, bc, 'pad', u, width, axis, mode=mode)
        check(ctx, r, w, u, o, off, axis, per, pair, vals, lo, hi, mode,
              f'pad {width} {mode}')


def mixed(ctx, pair, off):
  """Conditions of the other axes must not matter."""
  for other in ((PER, PER), (NEU, NEU)):
    for nd, axis in ((2, 0), (2, 1), (3, 1)):
      w, bc, u, o, per, vals = setup(ctx, nd, axis, pair, off, other)
      for width in (-2, 2, 1, -1):
        lo, hi = max(-width, 0), max(width, 0)
        for mode in (EXT, MIR):
          r = meth(ctx, bc, 'pad', u, width, axis, mode=mode)
          check(ctx, r, w, u, o, off, axis, per, pair, vals, lo, hi, mode,
                f'pad {width} {mode} next to {other[0]}')


def repad(ctx, pair, off):
  """Padding a padded array extends the same continuation."""
  w, bc, u, o, per, vals = setup(ctx, 1, 0, pair, off)
  for mode in (EXT, MIR):
    for s in (1, -1):
      once = meth(ctx, bc, 'pad', u, s, 0, mode=mode)
      twice = meth(ctx, bc, 'pad', once, s, 0, mode=mode)
      direct = meth(ctx, bc, 'pad', u, 2 * s, 0, mode=mode)
      if pair[0] == PER:
        continue
      need_offset(twice, offset_of(direct), f'{mode} {s} twice')
      ctx.same(arr_of(twice), arr_of(direct), f'{mode} {s} twice')


def padtrim(ctx, pair):
  for nd in (1, 2):
    for axis in range(nd):
      w, bc, u, o, per, vals = setup(ctx, nd, axis, pair, HALF)
      for k in (1, -1, 2, -2):
        r = meth(ctx, bc, 'pad', u, k, axis)
        r = meth(ctx, bc, 'trim', r, k, axis)
        need_offset(r, o)
        ctx.same(arr_of(r), arr_of(u), f'trim(pad({k}))')


def trim(ctx, nd):
  w = World(ctx, nd)
  bc = w.bc([DIR] * nd, [values(d) for d in range(nd)])
  u = w.array('u', center(nd), False)
  for axis in range(nd):
    for k in (1, -1, 2, -2, 0):
      r = meth(ctx, bc, 'trim', u, k, axis)
      lo = max(-k, 0)
      need_offset(r, tuple(x + lo if d == axis else x
                           for d, x in enumerate(center(nd))))
      shape = [minus(n, abs(k)) if d == axis else E(n)
               for d, n in enumerate(w.n)]
      pointwise(r, shape, lambda *ix: w.rd('u', *shifted(ix, axis, lo),
                                           periodic=False), f'trim {k}')


def padall(ctx, nd):
  for pair in PAIRS:
    w = World(ctx, nd)
    types = [PAIRS[(PAIRS.index(pair) + d) % len(PAIRS)] for d in range(nd)]
    vals = [(None, None) if t[0] == PER else values(d)
            for d, t in enumerate(types)]
    bc = w.bc(types, vals)
    per = tuple(t[0] == PER for t in types)
    u = w.array('u', center(nd), per)
    for mode in (EXT, MIR):
      for width in (tuple((1, 1) for _ in range(nd)),
                    tuple((d, 2 - d) for d in range(nd))):
        r = meth(ctx, bc, 'pad_all', u, width, mode=mode)
        need_offset(r, tuple(HALF - k for k, _ in width))
        shape = [plus(n, sum(k)) for n, k in zip(w.n, width)]

        def val(ix, d):
          if d < 0:
            return w.rd('u', *ix, periodic=per)
          f = extended(lambda i: val(ix[:d] + (E(i),) + ix[d + 1:], d - 1),
                       w.n[d], types[d], vals[d], HALF, w.h[d], mode)
          return f(ix[d])

        def spec(*ix):
          ix = tuple(plus(i, -k[0]) for i, k in zip(ix, width))
          return val(ix, nd - 1)
        pointwise_any(r, shape, spec, f'pad_all {width} {mode}', 3)


def varshift(ctx, nd):
  for pair in PAIRS:
    for axis in range(nd):
      w, bc, u, o, per, vals = setup(ctx, nd, axis, pair, HALF)
      v = ctx.call('base.grids:GridVariable', u, bc)
      for k in (1, -1, 2):
        for mode in (EXT, MIR):
          r = meth(ctx, v, 'shift', k, axis, mode=mode)
          check(ctx, r, w, u, o, HALF, axis, per, pair, vals, max(-k, 0),
                max(k, 0), mode, f'shift {k} {mode}', k)
      r = meth(ctx, v, 'shift', 2, axis)
      check(ctx, r, w, u, o, HALF, axis, per, pair, vals, 0, 2, EXT,
            'shift default', 2)


def undefined(ctx):
  for nd in (1, 2):
    for axis in range(nd):
      for off in (Fraction(1, 4), Fraction(3, 4)):
        w, bc, u, o, per, vals = setup(ctx, nd, axis, (DIR, DIR), off)
        for k in (1, -1):
          ctx.raises('ValueError', lambda: meth(ctx, bc, 'pad', u, k, axis))
        w, bc, u, o, per, vals = setup(ctx, nd, axis, (NEU, NEU), off)
        for k in (1, -1):
          ctx.raises('ValueError', lambda: meth(ctx, bc, 'pad', u, k, axis))
      for off in (ZERO, ONE):
        w, bc, u, o, per, vals = setup(ctx, nd, axis, (NEU, NEU), off)
        for k in (1, -1, (1, 1)):
          ctx.raises('NotImplementedError',
                     lambda: meth(ctx, bc, 'pad', u, k, axis))
      # no interior information
      for pair in ((PER, PER), (DIR, DIR), (NEU, NEU)):
        w, bc, u, o, per, vals = setup(ctx, nd, axis, pair, HALF)
        shape = tuple(A.dim(plus(n, -1 if d == axis else 0))
                      for d, n in enumerate(w.n))
        s = w.array('s', o, False, shape=shape)
        ctx.raises('ValueError', lambda: meth(ctx, bc, 'pad', s, 1, axis))
      for pair in ((DIR, DIR), (NEU, NEU)):
        w, bc, u, o, per, vals = setup(ctx, nd, axis, pair, HALF)
        ctx.raises('NotImplementedError', lambda: meth(
            ctx, bc, 'pad', u, 2, axis, mode='nonsense'))
      w, bc, u, o, per, vals = setup(ctx, nd, axis, (DIR, DIR), ONE)
      ctx.raises('NotImplementedError', lambda: meth(
          ctx, bc, 'pad', u, 2, axis, mode='nonsense'))


def untouched(ctx):
  for pair in PAIRS:
    w, bc, u, o, per, vals = setup(ctx, 2, 0, pair, HALF)
    d = arr_of(u)
    meth(ctx, bc, 'pad', u, 2, 0)
    meth(ctx, bc, 'shift', u, -1, 1)
    ctx.same(arr_of(u), d, 'data')
    need_offset(u, o)
    ctx.same(bc.attrs['bc_values'], tuple(vals), 'boundary constants')
