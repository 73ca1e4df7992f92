"""S02: spectral utilities."""
from props.common import *  # pylint: disable=wildcard-import,unused-wildcard-import

EXPLANATION = (
    'Spectral utilities are interpreted on spectra of unknown values with '
    'symbolic grid sizes; discrete Fourier transforms are uninterpreted linear '
    'functionals with their inversion law. Dealiasing pairs are compared with '
    'the zero-padded transforms and with the identity, filters with their '
    'masks, and the recovered velocity with the equations it solves.')

SU = 'spectral.utils:'
F = Fraction
M_, P_ = (X.sym(s, pos=True, big=True, integer=True) for s in 'mp')


def run(ctx):
  for n in (X.scale(M_, 4), 8, 12, 16, 20, 32):
    ctx.ob('3/2 padding', f'n={n}', pad, ctx, n)
    ctx.ob('2/3 truncation', f'n={n}', trunc, ctx, n)
    ctx.ob('3/2 round trip', f'n={n}', roundtrip, ctx, n)
  for n in (X.scale(M_, 2), 2, 4, 6, 8, 10, 16):
    ctx.ob('2x padding', f'n={n}', pad2, ctx, n)
    ctx.ob('2x truncation', f'n={n}', trunc2, ctx, n)
    ctx.ob('2x round trip', f'n={n}', roundtrip2, ctx, n)
  for n in ((X.scale(M_, 12), X.scale(P_, 12)), (6, 6), (12, 18), (8, 8),
            (16, 12), (9, 16), (7, 8), (8, 7), (10, 14), (16, 32)):
    ctx.ob('brick wall filter', f'{n[0]} {n[1]}', brick, ctx, n)
  for n in ((X.scale(M_, 2), X.scale(P_, 2)), (4, 6), (6, 4), (5, 8), (8, 5)):
    ctx.ob('circular filter', f'{n[0]} {n[1]}', circular, ctx, n)
  for n in ((X.scale(M_, 2), X.scale(P_, 2)),
            (X.add(X.scale(M_, 2), X.ONE), X.scale(P_, 2)), (4, 6), (3, 4),
            (5, 5), (2, 8)):
    ctx.ob('Biot-Savart', f'{n[0]} {n[1]}', biot, ctx, n)
  for n in (X.scale(M_, 2), 4, 6, 8):
    ctx.ob('exponential filter', f'{n}', expfilter, ctx, n, None)
    ctx.ob('exponential filter', f'{n} options', expfilter, ctx, n,
           (F(1, 1000), 3))
  ctx.ob('curl', '', curl, ctx)
  ctx.ob('filtered step', '', filt, ctx)


def spectrum(name, *n):
  return A.field(name, n, None, False)


def half(n):
  return A.dim(X.add(X.floor(X.scale(E(n), HALF)), X.ONE))


def mul_(n, f):
  r = X.scale(E(n), f)
  return A.dim(r)


def pad(ctx, n):
  """Interpolation to 3/2 n points: same spectrum, unit gain."""
  u = spectrum('u', half(n))
  got = ctx.call(SU + 'padded_irfft', u)
  big = mul_(n, F(3, 2))
  extra = A.dim(X.add(E(half(big)), X.scale(E(half(n)), -1)))
  want = ev(ctx, 'jnp.fft.irfft(jnp.pad(u, (0, k)), b) * 3 / 2', u=u, k=extra,
            b=big)
  need_shape(got, (big,), 'padded signal')
  ctx.same(got, want, 'padded signal')


def need_shape(v, shape, what):
  a = arr_of(v)
  need(a.shape is not None and len(a.shape) == len(shape) and all(
      A.same_dim(x, A.dim(y)) for x, y in zip(a.shape, shape)),
       f'{what}: shape {a.shape}, expected {tuple(map(str, shape))}')


def trunc(ctx, n):
  big = mul_(n, F(3, 2))
  v = A.field('v', (big,))
  got = ctx.call(SU + 'truncated_rfft', v)
  need_shape(got, (half(n),), 'truncated spectrum')
  want = ev(ctx, 'jnp.fft.rfft(v)[:k] * 2 / 3', v=v, k=half(n))
  ctx.same(got, want, 'truncated spectrum')


def roundtrip(ctx, n):
  u = spectrum('u', half(n))
  got = ctx.call(SU + 'truncated_rfft', ctx.call(SU + 'padded_irfft', u))
  need_shape(got, (half(n),), 'spectrum')
  ctx.same(got, u, 'spectrum after padding and truncating')


def pad2(ctx, n):
  u = spectrum('u', n)
  got = ctx.call(SU + 'padded_ifft_2x', u)
  need_shape(got, (mul_(n, 2),), 'padded signal')
  # wave numbers 0..n/2-1 first, -n/2..-1 last
  h = mul_(n, HALF)
  want = ev(ctx, '''
s = jnp.concatenate([u[:h], jnp.zeros(n), u[h:]])
jnp.fft.ifft(s) * 2''', u=u, h=h, n=A.dim(n))
  ctx.same(got, want, 'padded signal')


def trunc2(ctx, n):
  v = spectrum('v', mul_(n, 2))
  got = ctx.call(SU + 'truncated_fft_2x', v)
  need_shape(got, (n,), 'truncated spectrum')
  h = mul_(n, HALF)
  want = ev(ctx, '''
w = jnp.fft.fft(v)
jnp.concatenate([w[:h], w[h + n:]]) / 2''', v=v, h=h, n=A.dim(n))
  ctx.same(got, want, 'truncated spectrum')


def roundtrip2(ctx, n):
  u = spectrum('u', n)
  got = ctx.call(SU + 'truncated_fft_2x', ctx.call(SU + 'padded_ifft_2x', u))
  need_shape(got, (n,), 'spectrum')
  ctx.same(got, u, 'spectrum after padding and truncating')


# ------------------------------------------------------------- filters


def world(ctx, n):
  return World(ctx, 2, shape=n)


def wave(n):
  """Signed integer wave number of index i on a full axis."""
  def k(i):
    i = E(i)
    s = X.sign_of(minus(times(2, i), E(n)))
    if s is None:
      raise Undecided(f'wave number of index {i}')
    return minus(i, n) if s >= 0 else i
  return k


def brick(ctx, n):
  """One below the cut-off of each axis, zero above it.

  The mask of the first axis may be one-sided at the cut-off itself.
  """
  w = world(ctx, n)
  f = arr_of(ctx.call(SU + 'brick_wall_filter_2d', w.grid))
  need_shape(f, (n[0], half(n[1])), 'filter')
  two3 = lambda v: X.floor(X.scale(E(v), F(2, 3)))
  cx, cy = two3(n[0]), two3(half(n[1]))
  # keep |kx| < floor(cx / 2), drop |kx| > ceil(cx / 2)
  lo = X.floor(X.scale(cx, HALF))
  hi = X.scale(X.floor(X.scale(cx, -HALF)), -1)
  if isinstance(A.dim(n[0]), int):
    ii = [(X.const(i), abs(i if 2 * i < n[0] else i - n[0]))
          for i in range(n[0])]
    jj = [(X.const(j), j) for j in range(half(n[1]))]
    lo, hi, cy = (int(v.const_value()) for v in (lo, hi, cy))
    for i, k in ii:
      for j, q in jj:
        v = at(f, [(None, i), (None, j)])
        if k < lo and q < cy:
          need(X.equal(v, X.ONE), f'mode {k}, {q} is not kept')
        elif k > hi or q >= cy:
          need(X.equal(v, X.ZERO), f'mode {k}, {q} is not removed')
        else:
          need(v in (X.ZERO, X.ONE), f'mode {k}, {q}: {v} is not a mask')
    return
  one, n0 = X.ONE, E(n[0])
  rows = [(X.ZERO, 1), (one, 1), (minus(lo, 1), 1), (plus(lo, 1), 0),
          (X.scale(n0, HALF), 0), (minus(X.scale(n0, HALF), 1), 0),
          (minus(n0, plus(hi, 1)), 0), (minus(n0, minus(lo, 1)), 1),
          (minus(n0, 1), 1)]
  cols = [(X.ZERO, 1), (one, 1), (minus(cy, 1), 1), (cy, 0), (plus(cy, 1), 0),
          (X.scale(E(n[1]), HALF), 0)]
  for i, a in rows:
    for j, b in cols:
      v = at(f, [(None, i), (None, j)])
      need(X.equal(v, X.const(a * b)), f'filter at ({i}, {j}): {X.show(v)}, '
           f'expected {a * b}')


def circular(ctx, n):
  w = world(ctx, n)
  f = ctx.call(SU + 'circular_filter_2d', w.grid)
  # the last entry of the half axis is the largest wave number
  top = over(X.floor(X.scale(E(n[1]), HALF)), times(n[1], w.h[1]))
  want = ev(ctx, '''
kx = jnp.fft.fftfreq(n0, h0)[:, np.newaxis]
ky = jnp.fft.rfftfreq(n1, h1)[np.newaxis, :]
r = jnp.sqrt(kx ** 2 + ky ** 2)
c = cut
jnp.where(r <= c, 1, jnp.exp(-g * (r - c) ** 4))''', n0=A.dim(n[0]),
            n1=A.dim(n[1]), h0=w.h[0], h1=w.h[1], cut=X.scale(top, F(13, 20)),
            g=F(118, 5))
  need_shape(f, (n[0], half(n[1])), 'filter')
  ctx.same(f, want, 'circular filter')


def expfilter(ctx, n, opt):
  s = A.field('s', (n, n))
  kw = {} if opt is None else dict(alpha=opt[0], order=opt[1])
  got = ctx.call(SU + 'exponential_filter', s, **kw)
  al, order = opt or (F(1, 10 ** 6), 2)
  want = ev(ctx, '''
kx = jnp.fft.fftfreq(n)[:, np.newaxis]
ky = jnp.fft.rfftfreq(n)[np.newaxis, :]
e2 = kx ** 2 + ky ** 2
jnp.fft.irfft2(jnp.exp(jnp.log(a) * e2 ** p) * jnp.fft.rfft2(s))''', s=s,
            n=A.dim(n), a=al, p=order)
  ctx.same(got, want, 'filtered signal')


def curl(ctx):
  n = (X.scale(M_, 2), X.scale(P_, 2))
  u, v, kx, ky = (spectrum(s, n[0], half(n[1])) for s in ('u', 'v', 'a', 'b'))
  got = ctx.call(SU + 'spectral_curl_2d', (kx, ky), (u, v))
  want = ev(ctx, '2j * jnp.pi * (kx * v - ky * u)', u=u, v=v, kx=kx, ky=ky)
  ctx.same(got, want, 'curl')


def biot(ctx, n):
  w = world(ctx, n)
  om = spectrum('om', n[0], half(n[1]))
  f = ctx.call(SU + 'vorticity_to_velocity', w.grid)
  r = ctx.ip.call(f, [om], {})
  need(isinstance(r, tuple) and len(r) == 2, 'two components')
  vx, vy = r
  for v in r:
    need_shape(v, (n[0], half(n[1])), 'velocity')
  nm = dict(n0=A.dim(n[0]), n1=A.dim(n[1]), h0=w.h[0], h1=w.h[1], vx=vx, vy=vy,
            om=om)
  div = ev(ctx, KK + 'kx * vx + ky * vy', **nm)
  ctx.same(div, A.unary(lambda e: X.ZERO, om), 'divergence of the velocity')
  res = ev(ctx, KK + '2j * jnp.pi * (kx * vy - ky * vx) - om', **nm)
  want = ev(ctx, 'z.at[0, 0].set(-om[0, 0])', om=om,
            z=A.unary(lambda e: X.ZERO, om))
  ctx.same(res, want, 'curl of the velocity minus the vorticity')
  for v in r:
    need(X.equal(at(arr_of(v), [(None, X.ZERO)] * 2), X.ZERO),
         'the velocity has a mean')


KK = '''
kx = jnp.fft.fftfreq(n0, h0)[:, np.newaxis]
ky = jnp.fft.rfftfreq(n1, h1)[np.newaxis, :]
'''


def filt(ctx):
  n = (X.scale(M_, 2), X.scale(P_, 2))
  x, f = spectrum('x', *n), spectrum('f', *n)
  log = []
  g = ctx.call(SU + 'filter_step', opaque_fn('step', log), f)
  r = ctx.ip.call(g, [x], {})
  need(len(log) == 1, f'step called {len(log)} times')
  ctx.same(r, A.ewise(lambda a, b: X.mul(X.apply_op('user_step', (a,)), b), x,
                      f), 'filtered step')
