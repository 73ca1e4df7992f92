"""W01: images and movies of trajectories."""
from props.common import *  # pylint: disable=wildcard-import,unused-wildcard-import

EXPLANATION = (
    'The rendering helpers are interpreted against an abstract imaging library '
    '(an image is its rows of pixels, a colour is a normalisation and colour '
    'map applied to one value): every pixel of every frame, stitched frame and '
    'saved movie must be the colour of the value at that place and time.')

VI = 'data.visualization:'


def run(ctx):
  for shape in ((1, 2, 3), (2, 3, 2), (3, 2, 4), (2, 1, 1)):
    ctx.ob('frames', f'{shape}', frames, ctx, shape, None)
    for side in (4, 6):
      ctx.ob('frames', f'{shape} longest side {side}', frames, ctx, shape, side)
    ctx.ob('default normalisation', f'{shape}', defaults, ctx, shape)
  for q in (None, Fraction(1, 2), X.sym('q')):
    ctx.ob('range', f'quantile {q}', quantile, ctx, q)
  for size in ((2, 3), (3, 2), (4, 4), (5, 2), (1, 4)):
    for side in (1, 4, 7, 8):
      ctx.ob('resize', f'{size} to {side}', resized, ctx, size, side)
  for series in (1, 2, 3):
    for count in (1, 2):
      for size in ((4, 2), (3, 1)):
        for rel in (Fraction(1, 2), Fraction(1, 4), Fraction(1), 0):
          for rgb in (None, (1, 2, 3)):
            ctx.ob('facet', f'{series} series of {count} {size} gap {rel} '
                   f'colour {rgb}', facet, ctx, series, count, size, rel, rgb)
  for n in (1, 2, 3):
    ctx.ob('movie', f'{n} frames', movie, ctx, n)


def lib(ctx, mod, name):
  return ctx.ip.getattr(ctx.ip.import_module(mod), name)


def shape_of(img):
  return tuple(img.attrs['size'])


def rows_of(img):
  return img.attrs['rows']


def image(ctx, tag, size):
  w, h = size
  rows = [[(tag, j, i) for i in range(w)] for j in range(h)]
  return ctx.ip.call(lib(ctx, 'PIL.Image', 'Image'), ['RGBA', size, rows], {})


def same_pixels(img, want, what):
  need(is_kind(img, 'Image'), f'{what}: expected an image, got {short(img)}')
  rows = rows_of(img)
  need(len(rows) == len(want) and all(
      len(r) == len(q) for r, q in zip(rows, want)),
       f'{what}: size {shape_of(img)}, expected '
       f'{(len(want[0]) if want else 0, len(want))}')
  for j, (r, q) in enumerate(zip(rows, want)):
    for i, (p, e) in enumerate(zip(r, q)):
      need(p == e, f'{what}: pixel ({i}, {j}) is {short(p)}, expected '
           f'{short(e)}')


def colours(img, norm, cmap, value, what):
  rows = rows_of(img)
  for j, r in enumerate(rows):
    for i, p in enumerate(r):
      need(isinstance(p, tuple) and p[0] == 'colour', f'{what}: pixel {short(p)}')
      _, n, c, alpha, v = p
      need(n is norm, f'{what}: normalised by {short(n)}')
      need(c is cmap or c == cmap, f'{what}: colour map {short(c)}')
      need(alpha is None, f'{what}: opacity {short(alpha)}')
      w = value(j, i)
      need(X.equal(E(v), w), f'{what}: pixel ({i}, {j}) shows {short(v)}, '
           f'expected {X.show(w)}')


def scaled(size, side):
  m = max(size)
  return tuple(round(Fraction(s * side, m)) for s in size)


def pick(n, m, i):
  """Index of the nearest of n source cells for cell i of m."""
  return ((2 * i + 1) * n) // (2 * m)


def frames(ctx, shape, side):
  u = A.field('u', shape, None)
  norms, log = [], []

  def norm(ip, args, kwargs):
    log.append(args)
    norms.append(ctx.ip.call(lib(ctx, 'matplotlib.colors', 'Normalize'),
                             [Fraction(len(norms)), ONE], {}))
    return norms[-1]
  cmap = ctx.ip.call(lib(ctx, 'matplotlib.colors', 'ListedColormap'), [], {})
  kw = {} if side is None else {'longest_side': side}
  if side is not None and min(scaled(shape[:0:-1], side)) == 0:
    return
  r = ctx.call(VI + 'trajectory_to_images', u, pyfn('norm', norm), cmap, **kw)
  need(isinstance(r, (list, tuple)) and len(r) == shape[0],
       f'one image per time, got {short(r)}')
  need(len(log) == shape[0], f'{len(log)} normalisations')
  h, w = shape[1:]
  nw, nh = (w, h) if side is None else scaled((w, h), side)
  for k, img in enumerate(r):
    need(is_kind(img, 'Image'), f'frame {k}: {short(img)}')
    need(shape_of(img) == (nw, nh), f'frame {k}: size {shape_of(img)}, expected '
         f'{(nw, nh)}')
    pointwise(log[k][0], (h, w), lambda j, i: X.rd(
        'u', (None,) * 3, (E(k), E(j), E(i))), f'data normalised for frame {k}')
    ctx.same(log[k][1], k, 'frame number')
    colours(img, norms[k], cmap, lambda j, i: X.rd(
        'u', (None,) * 3, (E(k), E(pick(h, nh, j)), E(pick(w, nw, i)))),
            f'frame {k}')


def defaults(ctx, shape):
  """Without options each frame has a symmetric range of its own."""
  u = A.field('u', shape, None)
  r = ctx.call(VI + 'trajectory_to_images', u)
  need(len(r) == shape[0], f'{len(r)} images')
  h, w = shape[1:]
  for k, img in enumerate(r):
    need(shape_of(img) == (w, h), f'frame {k}: size {shape_of(img)}')
    norm, cmap = rows_of(img)[0][0][1:3]
    symmetric(ctx, norm, ev(ctx, 'u[k]', u=u, k=k), Fraction(999, 1000),
              f'frame {k}')
    colours(img, norm, cmap, lambda j, i: X.rd(
        'u', (None,) * 3, (E(k), E(j), E(i))), f'frame {k}')


def symmetric(ctx, norm, data, q, what):
  need_kind(norm, 'Normalize', what)
  top = ev(ctx, 'np.quantile(np.abs(u), q)', u=data, q=q)
  ctx.same(E(norm.attrs['vmax']), E(top), what + ' upper end')
  ctx.same(E(norm.attrs['vmin']), times(-1, E(top)), what + ' lower end')


def quantile(ctx, q):
  u = A.field('u', (3, 2), None)
  kw = {} if q is None else {'quantile': q}
  for k in (0, 5):
    norm = ctx.call(VI + 'quantile_normalize_fn', u, k, **kw)
    symmetric(ctx, norm, u, Fraction(999, 1000) if q is None else q, 'range')


def resized(ctx, size, side):
  nw, nh = scaled(size, side)
  img = image(ctx, 'a', size)
  if not nw or not nh:
    ctx.raises('ValueError', ctx.call, VI + 'resize_image', img, side)
    return
  r = ctx.call(VI + 'resize_image', img, side)
  same_pixels(r, [[('a', pick(size[1], nh, j), pick(size[0], nw, i))
                   for i in range(nw)] for j in range(nh)], 'resized image')
  same_pixels(img, [[('a', j, i) for i in range(size[0])]
                    for j in range(size[1])], 'original image')
  if (nw, nh) != size:
    r = ctx.call(VI + 'resize_image', img, side, 3)
    p = rows_of(r)[0][0]
    need(p[:2] == ('resampled', 3), f'requested filter not used: {short(p)}')


def facet(ctx, series, count, size, rel, rgb):
  w, h = size
  ims = [[image(ctx, (s, k), size) for k in range(count)]
         for s in range(series)]
  kw = {} if rgb is None else {'separation_rgb': rgb}
  r = ctx.call(VI + 'horizontal_facet', ims, rel, **kw)
  need(isinstance(r, (list, tuple)) and len(r) == count,
       f'one stitched image per time, got {short(r)}')
  gap = round(w * Fraction(rel))
  bar = (255, 255, 255) if rgb is None else rgb
  for k, img in enumerate(r):
    want = []
    for j in range(h):
      row = []
      for s in range(series):
        if s:
          row += [bar] * gap
        row += [((s, k), j, i) for i in range(w)]
      want.append(row)
    same_pixels(img, want, f'stitched frame {k}')
  for s in range(series):
    for k in range(count):
      same_pixels(ims[s][k], [[((s, k), j, i) for i in range(w)]
                              for j in range(h)], 'original image')


def movie(ctx, n):
  saved = lib(ctx, 'PIL.Image', 'SAVED')
  for kw in ({}, dict(duration=Fraction(40), loop=2), dict(optimize=True)):
    del saved[:]
    ims = [image(ctx, k, (2, 1)) for k in range(n)]
    ctx.call(VI + 'save_movie', ims, 'movie.gif', **kw)
    need(len(saved) == 1, f'{len(saved)} files written')
    first, fp, _, opts = saved[0]
    need(first is ims[0], 'first frame')
    need(fp == 'movie.gif', f'written to {short(fp)}')
    opts = dict(opts)
    need(opts.pop('save_all', False) is True, 'only the first frame is saved')
    rest = list(ctx.ip.iterate(opts.pop('append_images', ())))
    need(len(rest) == n - 1 and all(a is b for a, b in zip(rest, ims[1:])),
         'the following frames, in order')
    ctx.same(opts.pop('duration', None), kw.get('duration', Fraction(150)),
             'duration')
    ctx.same(opts.pop('loop', None), kw.get('loop', 0), 'loops')
    need(opts == {k: v for k, v in kw.items() if k == 'optimize'},
         f'options {opts}')
