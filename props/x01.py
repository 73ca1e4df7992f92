"""X01: labelled datasets and evaluation quantities."""
from props.common import *  # pylint: disable=wildcard-import,unused-wildcard-import
from sa import lib_stub

entries = lib_stub.entries

EXPLANATION = (
    'The conversion and evaluation code is interpreted over an abstract xarray '
    '(named dimensions, index coordinates, alignment, broadcasting by name) on '
    'datasets of unknown values for several ranks, sizes and dimension orders; '
    'every labelled result is compared, entry by entry in closed form, with '
    'its definition, together with its dimensions, coordinates and name. '
    'Discrete transforms of small sizes are expanded into exact sums.')

XU, EV = 'data.xarray_utils:', 'data.evaluation:'
DIMS = ('x', 'y', 'z')
VEL = ('u', 'v', 'w')


def run(ctx):
  for nd in (1, 2, 3):
    for samples in (False, True):
      for scalar in (0, 1):
        for kind in ('array', 'GridArray', 'GridVariable'):
          ctx.ob('conversion', f'{nd}d samples={samples} scalars={scalar} '
                 f'{kind}', convert, ctx, nd, samples, scalar, kind)
    ctx.ob('conversion', f'{nd}d without grid', bare, ctx, nd)
    ctx.ob('coordinates', f'{nd}d', coords, ctx, nd)
  for nd in (1, 2, 3):
    for legacy in (False, True):
      ctx.ob('grid from attributes', f'{nd}d legacy={legacy}', square, ctx, nd,
             legacy)
  ctx.ob('grid from attributes', 'rectangle', rectangle, ctx)
  ctx.ob('grid from attributes', 'unknown size', unknown, ctx)
  for order in (('time', 'x', 'y'), ('sample', 'time', 'x', 'y'),
                ('y', 'time', 'x'), ('x', 'y'), ('model', 'x', 'time', 'y')):
    k = ' '.join(order)
    for f in (vorticity, enstrophy):
      ctx.ob(f.__name__, k, f, ctx, order)
  for nd in (1, 2, 3):
    for cplx in (False, True):
      ctx.ob('speed and energy', f'{nd}d complex={cplx}', energies, ctx, nd,
             cplx)
      ctx.ob('magnitude', f'{nd} complex={cplx}', magnitude, ctx, nd, cplx)
  for order, sizes in ((('x',), (4,)), (('x',), (3,)), (('time', 'x'), (2, 6)),
                       (('x', 'time'), (4, 2)), (('x', 'y'), (4, 3)),
                       (('time', 'x', 'y'), (2, 3, 4)),
                       (('y', 'x'), (3, 4)), (('x', 'time', 'y'), (3, 2, 2)),
                       (('x', 'y', 'z'), (2, 3, 2))):
    k = f'{order} {sizes}'
    ctx.ob('transform', k, transform, ctx, order, sizes)
    if order != ('x', 'time'):
      ctx.ob('energy spectrum', k, espectrum, ctx, order, sizes)
  for order, sizes, ax in ((('x',), (4,), 'x'), (('x',), (3,), 'x'),
                           (('time', 'x'), (2, 6), 'x'),
                           (('x', 'time'), (4, 2), 'x'),
                           (('x', 'y'), (2, 4), 'y'),
                           (('x', 'y'), (4, 3), 'x')):
    ctx.ob('autocorrelation', f'{order} {sizes} {ax}', autocorr, ctx, order,
           sizes, ax)
    ctx.ob('velocity correlation', f'{order} {sizes} {ax}', velcorr, ctx, order,
           sizes, ax)
  for order, sizes in ((('kx',), (6,)), (('kx',), (9,)), (('kx', 'ky'), (6, 6)),
                       (('time', 'kx', 'ky'), (2, 5, 5)),
                       (('kx', 'ky'), (5, 6)), (('ky', 'kx'), (8, 6)),
                       (('kx', 'ky', 'kz'), (6, 5, 6))):
    ctx.ob('shell sums', f'{order} {sizes}', binsum, ctx, order, sizes, True,
           {})
  for dk in ({'kx': Fraction(2)}, {'ky': Fraction(3, 2)},
             {'kx': Fraction(3), 'ky': Fraction(3)}):
    ctx.ob('shell sums', f'spacings {dk}', binsum, ctx, ('kx', 'ky'), (8, 10),
           True, dk)
  ctx.ob('shell sums', 'default for 1d', binsum, ctx, ('kx',), (6,), False, {})
  ctx.ob('shell sums', 'default for 3d', binsum, ctx, ('kx', 'ky', 'kz'),
         (5, 6, 5), False, {})
  for order, sizes in ((('kx', 'ky'), (6, 6)), (('time', 'kx', 'ky'), (2, 5, 7)),
                       (('ky', 'kx'), (8, 6))):
    for m in (None, 'interpolation'):
      for q in (4, 5):
        ctx.ob('circle integrals', f'{order} {sizes} method={m} points={q}',
               circles, ctx, order, sizes, m, q)
  ctx.ob('isotropic spectrum', 'refusals', refusals, ctx)
  for av in ((), ('time',), ('time', 'sample')):
    ctx.ob('isotropic spectrum', f'averaged over {av}', isospec, ctx, av)
  for sd in (('x',), ('x', 'y'), ('y', 'time')):
    ctx.ob('normalize', str(sd), normal, ctx, sd)
  # ---- evaluation
  for order in (('model', 'time', 'x'), ('sample', 'x', 'model', 'y'),
                ('time', 'model')):
    for names in (None, ('a', 'b'), ('b', 'a')):
      ctx.ob('absolute error', f'{order} {names}', abserr, ctx, order, names)
      ctx.ob('error threshold', f'{order} {names}', below, ctx, order, names)
  for order in (('model', 'sample', 'time', 'x'), ('sample', 'x', 'model', 'y'),
                ('time', 'sample', 'model', 'x', 'y')):
    for names in (None, ('b', 'a')):
      ctx.ob('state correlation', f'{order} {names}', statecorr, ctx, order,
             names)
  for order in (('sample', 'time', 'x'), ('x', 'time', 'y'), ('time', 'y'),
                ('sample', 'x', 'y', 'z', 'time')):
    for nd in (1, 2, 3):
      ctx.ob('averages', f'{order} ndim={nd}', averages, ctx, order, nd)
  ctx.ob('averages', 'complex values are refused', avcomplex, ctx)
  for thr in (None, Fraction(3, 4)):
    ctx.ob('spectrum metric', f'threshold={thr}', smetric, ctx, thr)
    ctx.ob('correlation metric', f'space threshold={thr}', xmetric, ctx, thr)
    ctx.ob('correlation metric', f'time threshold={thr}', tmetric, ctx, thr)
  for n, dt in ((3, Fraction(1)), (4, HALF), (3, Fraction(2)),
                (5, Fraction(2, 5))):
    ctx.ob('time autocorrelation', f'{n} steps of {dt}', timecorr, ctx, n, dt)
  ctx.ob('quantiles', '', quantiles, ctx)
  for nd in (1, 2, 3):
    ctx.ob('summary', f'{nd}d', summary, ctx, nd)


# ------------------------------------------------------------ datasets

def xr(ctx, name):
  return ctx.ip.getattr(ctx.ip.load_stub('xarray'), name)


SIZES = {'x': 3, 'y': 4, 'z': 2, 'time': 2, 'sample': 2, 'model': 2}


def steps(d):
  return {'x': HALF, 'y': Fraction(1, 3), 'z': Fraction(2),
          'time': Fraction(3, 2), 'kx': ONE, 'ky': ONE, 'kz': ONE}[d]


def labels(d, n):
  """Index values along a dimension."""
  if d == 'model':
    return ['learned', 'ground_truth'][:n]
  if d == 'sample':
    return list(range(n))
  if d in DIMS:
    return [steps(d) * (i + HALF) for i in range(n)]
  if d[0] == 'k':
    return [steps(d) * (i - n // 2) for i in range(n)]
  return [steps(d) * i for i in range(n)]


def cube(name, shape, real=True, pos=False):
  return A.field(name + '+' * pos, tuple(shape), None, real=real, pos=pos)


def cell(name, ix, real=True, pos=False):
  return X.rd(name + '+' * pos, (None,) * len(ix), tuple(E(i) for i in ix), real,
              pos)


def vec(xs):
  if isinstance(xs[0], str):
    return list(xs)
  return A.from_entries([E(x) for x in xs], (len(xs),))


def array(ctx, name, dims, sizes=None, real=True, pos=False, over=None):
  """A DataArray of unknown values (field called `name`)."""
  sizes = sizes or tuple(SIZES[d] for d in dims)
  over = over or {}
  cs = {d: vec(over.get(d) or labels(d, n)) for d, n in zip(dims, sizes)}
  return ctx.make(xr(ctx, 'DataArray'), cube(name, sizes, real, pos), cs,
                  tuple(dims), name)


def dataset(ctx, dims, sizes=None, names=None, real=True, attrs=None,
            over=None):
  nd = sum(d in DIMS for d in dims)
  names = names or VEL[:nd]
  return ctx.make(xr(ctx, 'Dataset'),
                  {k: array(ctx, k, dims, sizes, real, over=over)
                   for k in names}, None, attrs)


def ndix(sizes):
  return list(itertools.product(*map(range, sizes)))


def is_array(v):
  return isinstance(v, Inst) and v.cls.name == 'DataArray'


def dims_of(da):
  return tuple(da.attrs['dims'])


def shape_of(da):
  return dict(zip(da.attrs['dims'], M.to_arr(da.attrs['data']).shape))


def check(ctx, da, dims, sizes, want, coords=None, name=False, what='result'):
  """da holds want(index dict) along dims, whatever their order."""
  need(is_array(da), f'{what}: expected a labelled array, got {short(da)}')
  got = dims_of(da)
  need(sorted(got) == sorted(dims), f'{what} has dimensions {got}, expected '
       f'{tuple(dims)}')
  data = M.to_arr(da.attrs['data'])
  size = dict(zip(dims, sizes))
  need(data.shape == tuple(size[d] for d in got),
       f'{what} has sizes {dict(zip(got, data.shape))}, expected {size}')
  spec = [E(want(dict(zip(got, ix)))) for ix in ndix(data.shape)]
  for ix, a, b in zip(ndix(data.shape), entries(data), spec):
    if not X.equal(a, b):
      raise Violated(f'{what} at {dict(zip(got, ix))}: {X.show(a)[:140]} '
                     f'instead of {X.show(b)[:140]}')
  for d, xs in (coords or {}).items():
    check_coord(da, d, xs, what)
  if name is not False:
    need(da.attrs['name'] == name,
         f'{what} is named {da.attrs["name"]!r}, expected {name!r}')


def check_coord(da, d, xs, what='result'):
  cs = da.attrs['_coords']
  need(d in cs, f'{what} has no coordinate {d}')
  var = cs[d]
  need(tuple(var.attrs['dims']) == (d,), f'{what}: coordinate {d} lies along '
       f'{var.attrs["dims"]}')
  data = var.attrs['data']
  if isinstance(xs[0], str):
    need(data == list(xs), f'{what}: {d} is labelled {data}, expected {xs}')
    return
  got = entries(data)
  need(len(got) == len(xs) and all(
      X.equal(a, E(b)) for a, b in zip(got, xs)),
       f'{what}: coordinate {d} is {[X.show(a)[:30] for a in got]}, expected '
       f'{[X.show(E(b))[:30] for b in xs]}')


def variable(ds, name):
  vs = ds.attrs['_vars']
  need(name in vs, f'dataset has variables {sorted(vs)}, {name} is missing')
  return vs[name]


def ds_array(ctx, ds, name):
  variable(ds, name)
  return ctx.make(ctx.ip.getattr(ds, '_dataarray'), name)


# ------------------------------------------------------------ conversion

def convert(ctx, nd, samples, scalar, kind):
  w = World(ctx, nd, shape=(3, 4, 2)[:nd])
  lead = ((2,) if samples else ()) + (3,)
  shape = lead + (3, 4, 2)[:nd]
  offs = [(Fraction(1, 4),) * nd] * scalar + [face(nd, d) for d in range(nd)]
  names = ['c'] * scalar + list(VEL[:nd])

  def wrap(n, off):
    a = cube(n, shape)
    if kind == 'array':
      return a
    return w.wrap(a, off, None if kind == 'GridArray' else w.periodic())

  traj = tuple(wrap(n, o) for n, o in zip(names, offs))
  time = vec([Fraction(5), Fraction(7), Fraction(11)])
  attrs = {'seed': 3}
  for prefix in ('', 'p_'):
    kw = {'prefix_name': prefix} if prefix else {}
    ds = ctx.call(XU + 'velocity_trajectory_to_xarray', traj, w.grid, time,
                  attrs, samples, **kw)
    need(is_kind(ds, 'Dataset'), f'expected a dataset, got {short(ds)}')
    need(sorted(ds.attrs['_vars']) == sorted(prefix + n for n in names),
         f'variables {sorted(ds.attrs["_vars"])} for components {names}')
    dims = (('sample',) if samples else ()) + ('time',) + DIMS[:nd]
    for n, off in zip(names, offs):
      v = variable(ds, prefix + n)
      need(tuple(v.attrs['dims']) == dims,
           f'{n} has dimensions {v.attrs["dims"]}, expected {dims}')
      ctx.same(M.to_arr(v.attrs['data']), cube(n, shape), f'data of {n}')
      o = v.attrs['attrs'].get('offset')
      if kind != 'array' or n != 'c':
        need(o is not None and tuple(Fraction(x) for x in o) == off,
             f'offset attribute of {n} is {o}, expected {fmt(off)}')
    want = {d: [plus(w.lo[k], times(w.h[k], i + HALF))
                for i in range(shape[len(lead) + k])]
            for k, d in enumerate(DIMS[:nd])}
    want['time'] = [5, 7, 11]
    if samples:
      want['sample'] = [0, 1]
    need(sorted(ds.attrs['_coords']) == sorted(want),
         f'coordinates {sorted(ds.attrs["_coords"])}, expected {sorted(want)}')
    for d, xs in want.items():
      check_coord(ds, d, xs, 'dataset')
    need(ds.attrs['attrs'] == attrs, f'attributes {ds.attrs["attrs"]}')


def bare(ctx, nd):
  shape = (3, 4, 2)[:nd]
  traj = tuple(cube(VEL[d], (2,) + shape) for d in range(nd))
  ds = ctx.call(XU + 'velocity_trajectory_to_xarray', traj)
  for d in range(nd):
    v = variable(ds, VEL[d])
    need(tuple(v.attrs['dims']) == ('time',) + DIMS[:nd],
         f'{VEL[d]} has dimensions {v.attrs["dims"]}')
    ctx.same(M.to_arr(v.attrs['data']), cube(VEL[d], (2,) + shape), VEL[d])
  need(not ds.attrs['_coords'], f'coordinates {sorted(ds.attrs["_coords"])} '
       'although neither a grid nor times were given')


def coords(ctx, nd):
  w = World(ctx, nd, shape=(3, 4, 2)[:nd])
  t, s = vec([2, 3]), vec([0, 1, 2])
  for g, ti, sa in itertools.product((None, w.grid), (None, t), (None, s)):
    cs = ctx.call(XU + 'construct_coords', g, ti, sa)
    want = {}
    if g is not None:
      for k, d in enumerate(DIMS[:nd]):
        want[d] = [plus(w.lo[k], times(w.h[k], i + HALF))
                   for i in range((3, 4, 2)[k])]
    if ti is not None:
      want['time'] = [2, 3]
    if sa is not None:
      want['sample'] = [0, 1, 2]
    need(sorted(cs) == sorted(want), f'coordinates {sorted(cs)}, expected '
         f'{sorted(want)}')
    for d, xs in want.items():
      ctx.same(M.to_arr(cs[d]), vec(xs), f'coordinate {d}')


def grid_is(ctx, g, shape, domain):
  need_kind(g, 'Grid')
  need(tuple(g.attrs['shape']) == tuple(shape),
       f'grid shape {g.attrs["shape"]}, expected {shape}')
  got = [tuple(E(x) for x in p) for p in g.attrs['domain']]
  want = [tuple(E(x) for x in p) for p in domain]
  need(len(got) == len(want) and all(
      X.equal(a, b) for p, q in zip(got, want) for a, b in zip(p, q)),
       f'domain {[[X.show(a) for a in p] for p in got]}, expected '
       f'{[[X.show(a) for a in p] for p in want]}')


def square(ctx, nd, legacy):
  size = X.sym('L', pos=True)
  attrs = {'ndim': nd, 'save_grid_size': 6}
  if legacy:
    attrs['domain_size_multiple'] = size
    size = times(2, X.PI, size)
  else:
    attrs['domain_size'] = size
  grid_is(ctx, ctx.call(XU + 'grid_from_attrs', attrs), (6,) * nd,
          [(0, size)] * nd)


def rectangle(ctx):
  r = X.sym('L', pos=True)
  attrs = {'ndim': 2, 'save_grid_size_x': 6, 'save_grid_size_y': 4,
           'aspect_ratio': r}
  grid_is(ctx, ctx.call(XU + 'grid_from_attrs', attrs), (6, 4),
          [(0, r), (0, 1)])


def unknown(ctx):
  ctx.raises(('ValueError', 'KeyError'), lambda: ctx.call(
      XU + 'grid_from_attrs', {'ndim': 2, 'save_grid_size': 6}))


# ------------------------------------------------------------ flow fields

def read(name, order, real=True):
  """Value at an index dict (spatial indices wrap)."""
  def f(p, **move):
    return cell(name, tuple(
        (p[d] + move.get(d, 0)) % SIZES[d] for d in order), real)
  return f


def curl(order):
  u, v = read('u', order), read('v', order)
  return lambda p: minus(over(minus(v(p, x=1), v(p)), steps('x')),
                         over(minus(u(p, y=1), u(p)), steps('y')))


def shape(order):
  return tuple(SIZES[d] for d in order)


def lab(order):
  return {d: labels(d, SIZES[d]) for d in order}


def vorticity(ctx, order):
  r = ctx.call(XU + 'vorticity_2d', dataset(ctx, order))
  check(ctx, r, order, shape(order), curl(order), lab(order), 'vorticity',
        'vorticity')


def enstrophy(ctx, order):
  r = ctx.call(XU + 'enstrophy_2d', dataset(ctx, order))
  c = curl(order)
  check(ctx, r, order, shape(order), lambda p: times(HALF, c(p), c(p)),
        lab(order), 'enstrophy', 'enstrophy')


def norm2(vals, real):
  return plus(*[X.mul(E(v), E(v) if real else X.conj(E(v))) for v in vals])


def energies(ctx, nd, cplx):
  order = ('time',) + DIMS[:nd]
  ds = dataset(ctx, order, real=not cplx)
  fs = [read(n, order, not cplx) for n in VEL[:nd]]
  q = lambda p: X.real(norm2([f(p) for f in fs], not cplx))
  r = ctx.call(XU + 'kinetic_energy', ds)
  check(ctx, r, order, shape(order), lambda p: times(HALF, q(p)), lab(order),
        'kinetic_energy', 'kinetic energy')
  r = ctx.call(XU + 'speed', ds)
  check(ctx, r, order, shape(order), lambda p: X.power(q(p), HALF), lab(order),
        'speed', 'speed')


def magnitude(ctx, nd, cplx):
  order = ('x', 'time')
  ds = [array(ctx, n, order, real=not cplx) for n in VEL[:nd]]
  fs = [read(n, order, not cplx) for n in VEL[:nd]]
  q = lambda p: X.real(norm2([f(p) for f in fs], not cplx))
  r = ctx.call(XU + 'magnitude', *ds)
  check(ctx, r, order, shape(order), lambda p: X.power(q(p), HALF), lab(order),
        what='magnitude')


# ------------------------------------------------------------ spectra

def dft(name, order, sizes):
  """Fourier coefficient of a field at integer wave numbers (index dict)."""
  space = [d for d in order if d in DIMS]
  size = dict(zip(order, sizes))

  def f(p, k):
    t = []
    for ix in itertools.product(*[range(size[d]) for d in space]):
      q = dict(p)
      q.update(zip(space, ix))
      w = X.ONE
      for d, i in zip(space, ix):
        w = X.mul(w, A._root((k[d] * i) % size[d], size[d], -1))
      t.append(X.mul(w, cell(name, tuple(q[d] for d in order))))
    return X.add_many(t)
  return f


def waves(order, sizes):
  return {'k' + d: [times(2, X.PI, over(i - n // 2, n * steps(d)))
                    for i in range(n)]
          for d, n in zip(order, sizes) if d in DIMS}


def wave_of(p, order, sizes):
  """Integer wave numbers of the position p of a spectrum."""
  return {d: p['k' + d] - n // 2 for d, n in zip(order, sizes) if d in DIMS}


def kdims(order):
  return tuple('k' + d if d in DIMS else d for d in order)


def exact(f):
  def g(*args):
    A.EXPAND = True
    try:
      return f(*args)
    finally:
      A.EXPAND = False
  return g


@exact
def transform(ctx, order, sizes):
  r = ctx.call(XU + 'fourier_transform', array(ctx, 'u', order, sizes))
  f = dft('u', order, sizes)
  cs = waves(order, sizes)
  check(ctx, r, kdims(order), sizes,
        lambda p: f({d: p[d] for d in order if d not in DIMS},
                    wave_of(p, order, sizes)), cs, what='transform')


def spectral_energy(order, sizes):
  nd = sum(d in DIMS for d in order)
  fs = [dft(n, order, sizes) for n in VEL[:nd]]

  def f(p):
    k = wave_of(p, order, sizes)
    q = {d: p[d] for d in order if d not in DIMS}
    return times(HALF, norm2([g(q, k) for g in fs], False))
  return f


@exact
def espectrum(ctx, order, sizes):
  r = ctx.call(XU + 'energy_spectrum', dataset(ctx, order, sizes))
  check(ctx, r, kdims(order), sizes, spectral_energy(order, sizes),
        waves(order, sizes), what='energy spectrum')


def corr_of(name, order, sizes, ax):
  n = dict(zip(order, sizes))[ax]

  def f(p):
    out = []
    for i in range(n):
      q = {k: v for k, v in p.items()}
      q[ax] = i
      a = cell(name, tuple(q[d] for d in order))
      q[ax] = (i + p['d' + ax]) % n
      out.append(times(a, cell(name, tuple(q[d] for d in order))))
    return over(plus(*out), n)
  return f


def disp(order, sizes, ax):
  """Dimensions, sizes and displacement labels of a correlation."""
  dims = tuple('d' + d if d == ax else d for d in order)
  ns = tuple(n // 2 if d == ax else n for d, n in zip(order, sizes))
  n = dict(zip(order, sizes))[ax] // 2
  return dims, ns, {'d' + ax: [steps(ax) * i for i in range(n)]}


@exact
def autocorr(ctx, order, sizes, ax):
  a = array(ctx, 'u', order, sizes)
  kw = {} if ax == 'x' else {'spatial_axis': ax}
  r = ctx.call(XU + 'spatial_autocorrelation', a, **kw)
  dims, ns, cs = disp(order, sizes, ax)
  check(ctx, r, dims, ns, corr_of('u', order, sizes, ax), cs,
        what='autocorrelation')


@exact
def velcorr(ctx, order, sizes, ax):
  ds = dataset(ctx, order, sizes)
  r = ctx.call(XU + 'velocity_spatial_correlation', ds, ax)
  nd = sum(d in DIMS for d in order)
  dims, ns, cs = disp(order, sizes, ax)
  names = [f'{n}_{ax}_correlation' for n in VEL[:nd]]
  need(sorted(r.attrs['_vars']) == sorted(names),
       f'variables {sorted(r.attrs["_vars"])}, expected {names}')
  for n, k in zip(VEL, names):
    check(ctx, ds_array(ctx, r, k), dims, ns, corr_of(n, order, sizes, ax), cs,
          what=k)


def levels(da, top, dk):
  """Number of levels 1..n of a spectrum reaching (about) top."""
  n = shape_of(da).get('k')
  need(n is not None, f'spectrum along {dims_of(da)}')
  hi = top / dk
  need(n and hi - 1 <= n <= hi, f'{n} levels of width {dk} for wave numbers up '
       f'to {top}')
  return n


def binsum(ctx, order, sizes, explicit, dk):
  ks = [d for d in order if d[0] == 'k']
  size = dict(zip(order, sizes))
  val = {d: [dk.get(d, ONE) * (i - size[d] // 2) for i in range(size[d])]
         for d in ks}
  a = array(ctx, 'e', order, sizes, over=val)
  kw = {'method': 'binsum'} if explicit else {}
  r = ctx.call(XU + 'isotropize', a, **kw)
  rest = tuple(d for d in order if d not in ks)
  step = max(dk.get(d, ONE) for d in ks)
  n = levels(r, min(val[d][-1] for d in ks), step)

  def want(p):
    out = []
    m = p['k'] + 1
    for ix in itertools.product(*[range(size[d]) for d in ks]):
      k2 = sum(val[d][i] ** 2 for d, i in zip(ks, ix)) / step ** 2
      if (Fraction(m) - HALF) ** 2 < k2 <= (Fraction(m) + HALF) ** 2:
        q = dict(p)
        q.update(zip(ks, ix))
        out.append(cell('e', tuple(q[d] for d in order)))
    return plus(*out)
  check(ctx, r, rest + ('k',), tuple(size[d] for d in rest) + (n,), want,
        {'k': [step * (i + 1) for i in range(n)]}, what='shell sum')


def circles(ctx, order, sizes, method, points):
  ctx.fresh()
  a = array(ctx, 'e', order, sizes, pos=True)
  kw = {'method': method} if method else {}
  r = ctx.call(XU + 'isotropize', a, num_quadrature_points=points,
               interpolation_method='nearest', **kw)
  evs = [e for e in ctx.ip.events if e[0] == 'interp']
  need(len(evs) == 1, f'{len(evs)} interpolations')
  _, data, grid, pts, how, _ = evs[0]
  need(how == 'nearest', f'interpolated with method {how!r} although '
       "'nearest' was requested")
  ks = [d for d in order if d[0] == 'k']
  size = dict(zip(order, sizes))
  rest = tuple(d for d in order if d not in ks)
  n = levels(r, Fraction(min((size[d] - 1) - size[d] // 2 for d in ks)), 1)
  # the interpolated quantity is the logarithm of the spectrum
  flip_ = not X.equal(entries(grid[0])[0], E(labels('kx', size['kx'])[0])) or \
      M.to_arr(grid[0]).shape[0] != size['kx']
  axes = ('ky', 'kx') if flip_ else ('kx', 'ky')
  full = rest + axes
  for ix, got in zip(ndix(data.shape), entries(data)):
    p = dict(zip(full, ix))
    want = X.log(cell('e', tuple(p[d] for d in order), pos=True))
    need(X.equal(got, want), f'interpolates {X.show(got)[:90]} instead of '
         f'{X.show(want)[:90]}')
  for d, g in zip(axes, grid):
    ctx.same(M.to_arr(g), vec(labels(d, size[d])), f'interpolation grid {d}')
  # sampled at every angle of every circle (in any order of the angles)
  where = dict(zip(axes, pts))
  shp = M.to_arr(where['kx']).shape
  need(sorted(shp) == sorted((n, points)), f'samples of shape {shp}')
  xs = dict(zip(ndix(shp), entries(where['kx'])))
  ys = dict(zip(ndix(shp), entries(where['ky'])))
  kax = 0 if shp[0] == n and (shp[1] == points) else 1
  for m in range(n):
    want = []
    for j in range(points):
      th = times(2, X.PI, Fraction(j, points))
      want.append((times(m + 1, X.cos(th)), times(m + 1, X.sin(th))))
    for j in range(points):
      key = (m, j) if kax == 0 else (j, m)
      need(any(X.equal(xs[key], a) and X.equal(ys[key], b) for a, b in want),
           f'sampled at ({X.show(xs[key])[:60]}, {X.show(ys[key])[:60]}), which '
           f'is not on the circle of radius {m + 1}')
    need(len({(xs[(m, j) if kax == 0 else (j, m)],
               ys[(m, j) if kax == 0 else (j, m)])
              for j in range(points)}) == points, 'angles repeat')

  def want_(p):
    out = []
    for j in range(points):
      key = (p['k'], j) if kax == 0 else (j, p['k'])
      out.append(X.exp(cell('interp0', tuple(p[d] for d in rest) + key)))
    return over(times(2, X.PI, p['k'] + 1, plus(*out)), points)
  check(ctx, r, rest + ('k',), tuple(size[d] for d in rest) + (n,), want_,
        {'k': [i + 1 for i in range(n)]}, what='circle integral')


def refusals(ctx):
  f = lambda *a: ctx.call(XU + 'isotropize', *a)
  ctx.raises(('ValueError',), f, array(ctx, 'e', ('time', 'x')))
  ctx.raises(('ValueError',), f, array(ctx, 'e', ('kx', 'ky'), (4, 4)), 'other')
  for order, sizes in ((('kx',), (4,)), (('kx', 'ky', 'kz'), (2, 2, 2))):
    ctx.raises(('ValueError',), f, array(ctx, 'e', order, sizes),
               'interpolation')


def isospec(ctx, average):
  """Averages of the energy spectrum first, then circles."""
  ctx.fresh()
  order, sizes = ('sample', 'time', 'x', 'y'), (2, 2, 4, 4)
  seen = {}

  def spec(ip, f, v):
    seen['ds'] = v
    return array(ctx, 'e', ('sample', 'time', 'kx', 'ky'), (2, 2, 6, 6),
                 pos=True)
  ctx.ip.overrides['jax_cfd.data.xarray_utils.energy_spectrum'] = spec
  try:
    ds = dataset(ctx, order, sizes)
    r = ctx.call(XU + 'isotropic_energy_spectrum', ds,
                 *((average,) if average else ()))
  finally:
    ctx.ip.overrides.clear()
  need(ds in list(seen.get('ds', {}).values()),
       'the spectrum is not that of the dataset')
  _, data, _, _, how, _ = [e for e in ctx.ip.events if e[0] == 'interp'][0]
  need(how == 'linear', f'interpolation {how!r}')
  lead = tuple(d for d in ('sample', 'time') if d not in average)
  got = entries(data)
  need(data.shape == (2,) * len(lead) + (6, 6), f'spectrum of shape '
       f'{data.shape} after averaging over {average}')
  for ix, g in zip(ndix(data.shape), got):
    p = dict(zip(lead + ('kx', 'ky'), ix))
    vals = []
    for s, t in itertools.product(range(2), range(2)):
      q = (s, t, p['kx'], p['ky'])
      if all(q[('sample', 'time').index(d)] == p[d] for d in lead):
        vals.append(cell('e', q, pos=True))
    want = X.log(over(plus(*vals), len(vals)))
    need(X.equal(g, want), f'spectrum averaged over {average}: '
         f'{X.show(g)[:120]} instead of {X.show(want)[:120]}')
  need(sorted(dims_of(r)) == sorted(lead + ('k',)), f'dimensions {dims_of(r)}')


def normal(ctx, sd):
  order = ('time', 'x', 'y')
  r = ctx.call(XU + 'normalize', array(ctx, 'u', order), sd)
  check(ctx, r, order, shape(order),
        lambda p: unit('u', order, sd, p), lab(order), what='normalized')


def unit(name, order, sd, p, size=None):
  size = size or SIZES
  sq = []
  for ix in itertools.product(*[range(size[d]) for d in sd]):
    q = dict(p)
    q.update(zip(sd, ix))
    v = cell(name, tuple(q[d] for d in order))
    sq.append(times(v, v))
  return over(cell(name, tuple(p[d] for d in order)),
              X.power(plus(*sq), HALF))


# ------------------------------------------------------------ evaluation

def two(ctx, order, names, name='u'):
  """An array over two models, the arguments naming them and their indices."""
  if names is None:
    return array(ctx, name, order), (), 0, 1
  a = array(ctx, name, order, over={'model': ['a', 'b']})
  return a, names, ('a', 'b').index(names[0]), ('a', 'b').index(names[1])


def without(order):
  return tuple(d for d in order if d != 'model')


def gap(name, order, i, j):
  f = read(name, order)
  return lambda p: minus(f(dict(p, model=i)), f(dict(p, model=j)))


def abserr(ctx, order, names):
  a, args, i, j = two(ctx, order, names)
  r = ctx.call(EV + 'absolute_error', a, *args)
  o = without(order)
  g = gap('u', order, i, j)
  check(ctx, r, o, shape(o), lambda p: X.absolute(g(p)), lab(o), 'u_error',
        'absolute error')


def below(ctx, order, names):
  a, args, i, j = two(ctx, order, names)
  t = X.sym('thr')
  r = ctx.call(EV + 'below_error_threshold', a,
               ctx.make(xr(ctx, 'DataArray'), t), *args)
  o = without(order)
  g = gap('u', order, i, j)
  check(ctx, r, o, shape(o),
        lambda p: X.lnot(X.gt0(minus(X.absolute(g(p)), t))), lab(o),
        what='threshold test')


def statecorr(ctx, order, names):
  a, args, i, j = two(ctx, order, names)
  o = without(order)
  for non, av in ((None, None), (('time', 'sample'), ()),
                  (('time', 'sample'), ('time', 'sample')),
                  (('sample',), ('sample',))):
    n_ = ('sample', 'time') if non is None else non
    v_ = ('sample',) if av is None else av
    if not set(v_) <= set(o):
      continue
    kw = {} if non is None else {'non_state_dims': non,
                                 'non_state_dims_to_average': av}
    r = ctx.call(EV + 'state_correlation', a, *args, **kw)
    sd = tuple(d for d in o if d not in n_)
    keep = tuple(d for d in o if d in n_ and d not in v_)

    def want(p, sd=sd, v_=v_):
      out = []
      for ix in itertools.product(*[range(SIZES[d]) for d in sd + v_]):
        q = dict(p)
        q.update(zip(sd + v_, ix))
        out.append(times(unit('u', order, sd, dict(q, model=i)),
                         unit('u', order, sd, dict(q, model=j))))
      n = 1
      for d in v_:
        n *= SIZES[d]
      return over(plus(*out), n)
    check(ctx, r, keep, shape(keep), want, name='u_correlation',
          what='correlation')


def averages(ctx, order, nd):
  for non in (None, ('time',), ('sample', 'time'), ()):
    kw = {} if non is None else {'non_spatial_dims': non}
    r = ctx.call(EV + 'average', array(ctx, 'u', order), nd, **kw)
    gone = tuple(d for d in order
                 if d in DIMS[:nd] + (('sample',) if non is None else non))
    keep = tuple(d for d in order if d not in gone)
    f = read('u', order)

    def want(p, gone=gone, f=f):
      out = [f(dict(p, **dict(zip(gone, ix))))
             for ix in itertools.product(*[range(SIZES[d]) for d in gone])]
      return over(plus(*out), len(out))
    check(ctx, r, keep, shape(keep), want, lab(keep), what='average')


def avcomplex(ctx):
  ctx.raises(('ValueError',), lambda: ctx.call(
      EV + 'average', array(ctx, 'u', ('time', 'x'), real=False), 1))


def masked(g, a, gt, thr, dist, size):
  """distance where the truth is above, size where only the model is."""
  up = lambda v: X.gt0(minus(v, thr))
  down = lambda v: X.gt0(minus(thr, v))
  return plus(X.where(up(g(gt)), dist, X.ZERO),
              X.where(X.land(up(g(a)), down(g(gt))), size, X.ZERO))


def metric(ctx, fname, thr, dim, default, g, dist, size, pos):
  f = ctx.call(EV + fname, *(() if thr is None else (thr,)))
  thr = default if thr is None else thr
  for order in (('sample', dim), (dim, 'sample', 'time'),
                ('time', 'sample', dim)):
    sizes = tuple(3 if d == dim else 2 for d in order)
    over_ = {dim: [0, 1, 2]}
    a = array(ctx, 'a', order, sizes, pos=pos, over=over_)
    b = array(ctx, 'b', order, sizes, pos=pos, over=over_)
    r = ctx.call(f, a, b)
    keep = tuple(d for d in order if d not in (dim, 'sample'))

    def want(p, order=order):
      out = []
      for s, k in itertools.product(range(2), range(3)):
        q = dict(p, sample=s, **{dim: k})
        x, y = [cell(n, tuple(q[d] for d in order), pos=pos) for n in 'ab']
        out.append(masked(g, x, y, thr, dist(x, y), size(x)))
      return over(plus(*out), 2)
    check(ctx, r, keep, (2,) * len(keep), want, what='metric')


def smetric(ctx, thr):
  lg = lambda v: X.log(v)
  metric(ctx, 'energy_spectrum_metric', thr, 'kx', Fraction(1, 100),
         lambda v: v, lambda x, y: X.absolute(minus(lg(x), lg(y))),
         lambda x: X.absolute(lg(x)), True)


def xmetric(ctx, thr):
  metric(ctx, 'u_x_correlation_metric', thr, 'dx', HALF, X.absolute,
         lambda x, y: X.absolute(minus(x, y)), X.absolute, False)


def tmetric(ctx, thr):
  f = ctx.call(EV + 'u_t_correlation_metric', *(() if thr is None else (thr,)))
  thr = HALF if thr is None else thr
  sh = (2, 2, 3)
  r = ctx.call(f, cube('a', sh), cube('b', sh))
  out = []
  for ix in ndix(sh):
    x, y = cell('a', ix), cell('b', ix)
    out.append(masked(X.absolute, x, y, thr, X.absolute(minus(x, y)),
                      X.absolute(x)))
  need(X.equal(E(r), over(plus(*out), 4)),
       f'metric is {X.show(E(r))[:200]} for values summed along the last axis '
       'and averaged over the others')


def timecorr(ctx, n, dt):
  order = ('sample', 'time', 'model', 'x')
  sizes = (2, n, 2, 3)
  ts = [dt * i for i in range(n)]
  ds = dataset(ctx, order, sizes, names=('u',), over={'time': ts})
  r = ctx.call(EV + 'temporal_autocorrelation', ds)
  sub = max(1, int(1 / dt))
  lags = list(range(0, n, sub))
  v = variable(r, 't_corr')
  dims = ('time', 'sample', 'x', 'model')
  need(tuple(v.attrs['dims']) == dims, f'dimensions {v.attrs["dims"]}')
  data = M.to_arr(v.attrs['data'])
  need(data.shape == (len(lags), 2, 3, 2), f'correlations of shape '
       f'{data.shape}')
  for ix, got in zip(ndix(data.shape), entries(data)):
    d, s, x, m = lags[ix[0]], ix[1], ix[2], ix[3]
    want = over(plus(*[times(cell('u', (s, i, m, x)), cell('u', (s, i - d, m, x)))
                       for i in range(d, n)]), n)
    need(X.equal(got, want), f'correlation at lag {d}: {X.show(got)[:140]} '
         f'instead of {X.show(want)[:140]}')
  check_coord(r, 'dt', [ts[d] for d in lags], 'time correlation')
  check_coord(r, 'model', ['learned', 'ground_truth'], 'time correlation')


def quantiles(ctx):
  ctx.fresh()
  ds = dataset(ctx, ('x', 'time', 'y'))
  q = vec([Fraction(1, 10), Fraction(9, 10)])
  r = ctx.call(EV + 'approximate_quantiles', ds, q)
  evs = [e for e in ctx.ip.events if e[0] == 'quantile']
  for n in ('u', 'v'):
    e = [e for e in evs if e[1] == n]
    need(len(e) == 1, f'{len(e)} quantile computations of {n}')
    for ix, g in zip(ndix((3, 4)), entries(e[0][2])):
      want = cell(n, (ix[0], 0, ix[1]))
      need(X.equal(g, want), f'quantiles of {n} over {X.show(g)}')
    ctx.same(M.to_arr(e[0][3]), q, 'quantile levels')
    ctx.same(M.to_arr(variable(r, n).attrs['data']), M.to_arr(e[0][4]),
             f'quantiles of {n}')


def summary(ctx, nd):
  """Every summary is the stated average of the stated quantity."""
  ctx.fresh()
  order = ('sample', 'time') + DIMS[:nd]
  sizes = {'sample': 2, 'time': 2, 'x': 4, 'y': 4, 'z': 2}
  ns = tuple(sizes[d] for d in order)
  over_ = {'time': [0, 1]}

  def make(tag):
    arrs = {}
    for k in VEL[:nd]:
      a = array(ctx, tag + k, order, ns, over=over_)
      a.attrs['name'] = k
      arrs[k] = a
    return ctx.make(xr(ctx, 'Dataset'), arrs, None, {'ndim': nd})
  model, truth = make('m'), make('t')
  fake = {}

  def spectral(name):
    def f(ip, fn, v):
      (arg,) = [x for x in v.values() if is_kind(x, 'Dataset')][:1]
      fake[name] = arg
      dims = [d for d in dims_of(ds_array(ctx, arg, 'u'))]
      size = shape_of(ds_array(ctx, arg, 'u'))
      if name == 'iso':
        av = v.get('average_dims', ())
        dims = [d for d in dims if d not in DIMS and d not in av] + ['k']
      else:
        dims = ['k' + d if d in DIMS else d for d in dims]
      sz = [4 if d[0] == 'k' else size[d] for d in dims]
      cs = {d: [0, 1, 2, 3] for d in dims if d[0] == 'k'}
      cs['time'] = [0, 1]
      cs['model'] = arg.attrs['_coords']['model'].attrs['data']
      return array(ctx, name, tuple(dims), tuple(sz), pos=True, over=cs)
    return f
  p = 'jax_cfd.data.xarray_utils.'
  ctx.ip.overrides[p + 'energy_spectrum'] = spectral('spec')
  ctx.ip.overrides[p + 'isotropic_energy_spectrum'] = spectral('iso')
  try:
    r = ctx.call(EV + 'compute_summary_dataset', model, truth)
  finally:
    ctx.ip.overrides.clear()
  vs = r.attrs['_vars']
  fields = [sizes[d] for d in DIMS[:nd]]
  cells_ = list(itertools.product(range(2), *map(range, fields)))

  def val(tag, k, s, t, ix):
    return cell(tag + k, (s, t) + tuple(ix))

  def mean_over(f):
    return lambda p: over(plus(*[f(c[0], p['time'], c[1:]) for c in cells_]),
                          len(cells_))

  def q2(tag, s, t, ix):
    return plus(*[times(val(tag, k, s, t, ix), val(tag, k, s, t, ix))
                  for k in VEL[:nd]])
  pointwise_ = {k: (lambda tag, s, t, ix, k=k: val(tag, k, s, t, ix))
                for k in VEL[:nd]}
  pointwise_['kinetic_energy'] = lambda *a: times(HALF, q2(*a))
  pointwise_['speed'] = lambda *a: X.power(q2(*a), HALF)
  if nd == 2:
    def vort(tag, s, t, ix):
      i, j = ix
      v = minus(val(tag, 'v', s, t, ((i + 1) % 4, j)), val(tag, 'v', s, t, ix))
      u = minus(val(tag, 'u', s, t, (i, (j + 1) % 4)), val(tag, 'u', s, t, ix))
      return minus(over(v, steps('x')), over(u, steps('y')))
    pointwise_['vorticity'] = vort
    pointwise_['enstrophy'] = lambda *a: times(HALF, vort(*a), vort(*a))
  evs = {}
  for e in ctx.ip.events:
    if e[0] == 'quantile':
      evs[e[1]] = e
  for name, f in pointwise_.items():
    need(f'{name}_mean' in vs, f'no mean of {name} among {sorted(vs)}')
    check(ctx, ds_array(ctx, r, f'{name}_mean'), ('time',), (2,),
          mean_over(lambda s, t, ix: f('m', s, t, ix)), what=f'mean {name}')
    err = lambda s, t, ix: X.absolute(minus(f('m', s, t, ix),
                                            f('t', s, t, ix)))
    check(ctx, ds_array(ctx, r, f'{name}_error'), ('time',), (2,),
          mean_over(err), what=f'{name} error')
    _, _, data, q, out = evs[name]
    ctx.same(M.to_arr(q), vec([Fraction(1, 10), ONE]), 'quantile levels')
    outname = 'quantile%d' % [e for e in ctx.ip.events
                              if e[0] == 'quantile'].index(evs[name])
    del out
    for j, lvl in enumerate(('0.1', '1.0')):
      hits = [k for k in vs if k.startswith(f'{name}_within_q=')]
      need(len(hits) == 2, f'thresholds of {name}: {hits}')
      key = [k for k in hits if k.endswith(lvl) or k.endswith(
          {'0.1': '1/10', '1.0': '=1'}[lvl])]
      need(len(key) == 1, f'thresholds of {name}: {hits}')
      thr = cell(outname, (j,))
      check(ctx, ds_array(ctx, r, key[0]), ('time',), (2,),
            mean_over(lambda s, t, ix: X.lnot(X.gt0(minus(err(s, t, ix), thr)))),
            what=key[0])
  for name in VEL[:nd] + (('vorticity',) if nd == 2 else ()):
    f = pointwise_[name]
    space = list(itertools.product(*map(range, fields)))

    def want(p, f=f):
      out = []
      for s in range(2):
        nn = [X.power(plus(*[times(f(tag, s, p['time'], ix),
                                   f(tag, s, p['time'], ix))
                             for ix in space]), HALF) for tag in 'mt']
        out.append(over(plus(*[times(f('m', s, p['time'], ix),
                                     f('t', s, p['time'], ix))
                               for ix in space]), times(*nn)))
      return over(plus(*out), 2)
    check(ctx, ds_array(ctx, r, f'{name}_correlation'), ('time',), (2,), want,
          what=f'{name} correlation')
  if nd == 1:
    # decorrelation in time: one number, repeated over the times
    def tcorr(tag, d, s, x):
      return over(plus(*[times(cell(tag + 'u', (s, i, x)),
                               cell(tag + 'u', (s, i - d, x)))
                         for i in range(d, 2)]), 2)
    out = []
    for d, s, x in itertools.product(range(2), range(2), range(sizes['x'])):
      a, b = tcorr('m', d, s, x), tcorr('t', d, s, x)
      out.append(masked(X.absolute, a, b, HALF, X.absolute(minus(a, b)),
                        X.absolute(a)))
    need('autocorrelation' in vs, 'no time autocorrelation')
    check(ctx, ds_array(ctx, r, 'autocorrelation'), ('time',), (2,),
          lambda p: over(plus(*out), 4), what='time autocorrelation')
  for k, arg in fake.items():
    for j, tag in enumerate('mt'):
      a = ds_array(ctx, arg, 'u')
      need(dims_of(a).count('model') == 1, 'spectra of one model only')
  need('energy_spectrum_mean' in vs and 'energy_spectrum_error' in vs,
       f'no spectrum among {sorted(vs)}')
