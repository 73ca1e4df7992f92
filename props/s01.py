"""S01: spectral equations."""
from props.s02 import *  # pylint: disable=wildcard-import,unused-wildcard-import
import itertools as it

EXPLANATION = (
    'Each spectral equation object is interpreted on a grid of symbolic size '
    'with an unknown complex state; explicit terms, implicit terms and '
    'implicit solve are compared with the transform of the stated PDE written '
    'from wave numbers and zero-padded or plain transforms, for every option; '
    'the solve is also checked to invert identity minus step times the '
    'implicit part.')

EQ = 'spectral.equations:'
NU, DRAG = X.sym('nu', pos=True), X.sym('drag', pos=True)
DT = X.sym('dt', pos=True)
SIZES1 = (X.scale(M_, 4), 8, 12)
SIZES2 = ((X.scale(M_, 12), X.scale(P_, 12)), (6, 6), (12, 18), (8, 8))


def run(ctx):
  for n in SIZES1:
    for smooth in (None, True, False):
      k = f'n={n} smooth={smooth}'
      ctx.ob('Kuramoto-Sivashinsky explicit', k, ks, ctx, n, smooth, 'ex')
      ctx.ob('Kuramoto-Sivashinsky implicit', k, ks, ctx, n, smooth, 'im')
      ctx.ob('Schroedinger explicit', k, nls, ctx, n, smooth, 'ex')
      ctx.ob('Schroedinger implicit', k, nls, ctx, n, smooth, 'im')
    for forced in ('none', 'custom', 'factory'):
      ctx.ob('Burgers explicit', f'n={n} {forced}', burgers, ctx, n, forced,
             'ex')
      ctx.ob('Burgers implicit', f'n={n} {forced}', burgers, ctx, n, forced,
             'im')
    ctx.ob('Burgers default forcing', f'n={n}', burgers_default, ctx, n)
  ctx.ob('Schroedinger odd sizes', '', nls_odd, ctx)
  for n in SIZES2:
    for drag, smooth, force in it.product((None, True), (None, True, False),
                                          (False, True)):
      k = f'n={n[0]},{n[1]} drag={drag} smooth={smooth} forcing={force}'
      ctx.ob('Navier-Stokes explicit', k, ns, ctx, n, drag, smooth, force,
             'ex')
      ctx.ob('Navier-Stokes implicit', k, ns, ctx, n, drag, smooth, force,
             'im')
    for smooth in (True, False):
      ctx.ob('forced Navier-Stokes', f'n={n[0]},{n[1]} smooth={smooth}',
             forced_ns, ctx, n, smooth)


PADDED = '''
def irfft(x):
  return jnp.fft.irfft(jnp.pad(x, (0, extra)), big) * 3 / 2
def rfft(x):
  return jnp.fft.rfft(x)[:keep] * 2 / 3
'''
PLAIN = '''
def irfft(x):
  return jnp.fft.irfft(x)
def rfft(x):
  return jnp.fft.rfft(x)
'''
KX = 'k = 2j * jnp.pi * jnp.fft.rfftfreq(n, h)\n'


def setup1(ctx, n, name='u'):
  w = World(ctx, 1, shape=(n,))
  u = spectrum(name, half(n))
  big = mul_(n, F(3, 2))
  nm = dict(n=A.dim(n), h=w.h[0], u=u, big=big, keep=half(n), dt=DT, nu=NU,
            extra=A.dim(X.add(E(half(big)), X.scale(E(half(n)), -1))))
  return w, u, nm


def solve_checks(ctx, eq, u, lin, nm, pick=lambda s: s, put=lambda x: x):
  """implicit_terms = lin * u and (1 - dt lin) implicit_solve(u) = u."""
  im = pick(meth(ctx, eq, 'implicit_terms', put(u)))
  ctx.same(im, ev(ctx, lin + 'L * u', **nm), 'implicit terms')
  s = pick(meth(ctx, eq, 'implicit_solve', put(u), DT))
  ctx.same(s, ev(ctx, lin + 'u / (1 - dt * L)', **nm), 'implicit solve')
  back = pick(meth(ctx, eq, 'implicit_terms', put(s)))
  ctx.same(ev(ctx, 's - dt * b', s=s, b=back, dt=DT), u,
           'identity minus step times implicit part, applied to the solve')


def ks(ctx, n, smooth, part):
  w, u, nm = setup1(ctx, n)
  kw = {} if smooth is None else dict(smooth=smooth)
  eq = ctx.call(EQ + 'KuramotoSivashinsky', w.grid, **kw)
  if part == 'im':
    return solve_checks(ctx, eq, u, KX + 'L = -k ** 2 - k ** 4\n', nm)
  got = meth(ctx, eq, 'explicit_terms', u)
  want = ev(ctx, (PLAIN if smooth is False else PADDED) + KX +
            '-k * rfft(irfft(u) ** 2) / 2', **nm)
  need_shape(got, (half(n),), 'explicit terms')
  ctx.same(got, want, 'explicit terms')


def forcing_module(log, shape):
  """An unknown time-dependent forcing."""
  def module(ip, args, kwargs):
    log.append((args, kwargs))

    def f(ip_, a, k):
      t = E(a[0])
      return A.unary(lambda e: X.apply_op('forc', (e, t)), A.field(
          'xs', shape))
    return pyfn('forcing', f)
  return pyfn('module', module)


def burgers(ctx, n, forced, part):
  w, u, nm = setup1(ctx, n)
  t = X.sym('t')
  log = []
  seed = X.sym('seed', integer=True)
  if forced == 'factory':
    eq = ctx.call(EQ + 'BurgersEquation', NU, w.grid)
  elif forced == 'none':
    eq = ctx.call(EQ + 'ForcedBurgersEquation', viscosity=NU, grid=w.grid,
                  forcing_module=None)
  else:
    eq = ctx.call(EQ + 'ForcedBurgersEquation', NU, w.grid, seed,
                  forcing_module(log, (n,)))
    need(len(log) == 1, 'forcing module built once')
    a, k = log[0]
    full = dict(zip(('grid', 'seed'), a), **k)
    ctx.same(full.get('grid'), w.grid, 'grid of the forcing')
    ctx.same(full.get('seed'), seed, 'seed of the forcing')

  def pick(s):
    need(isinstance(s, tuple) and len(s) == 2, f'(spectrum, time): {short(s)}')
    return s[0]
  put = lambda x: (x, t)
  if part == 'im':
    im = meth(ctx, eq, 'implicit_terms', (u, t))
    pick(im)
    ctx.same(E(im[1]), X.ZERO, 'implicit change of time')
    s = meth(ctx, eq, 'implicit_solve', (u, t), DT)
    pick(s)
    ctx.same(E(s[1]), t, 'time after the implicit solve')
    return solve_checks(ctx, eq, u, KX + 'L = nu * k ** 2\n', nm, pick, put)
  got = meth(ctx, eq, 'explicit_terms', (u, t))
  ctx.same(E(got[1]) if len(got) == 2 else None, X.ONE, 'rate of time')
  want = ev(ctx, PADDED + KX + '-rfft(irfft(u) * irfft(k * u))', **nm)
  if forced == 'custom':
    f = A.unary(lambda e: X.apply_op('forc', (e, t)), A.field('xs', (n,)))
    want = ev(ctx, 'w + jnp.fft.rfft(f)', w=want, f=f)
  need_shape(pick(got), (half(n),), 'explicit terms')
  ctx.same(pick(got), want, 'explicit terms')


def burgers_default(ctx, n):
  """The default forcing is the random waves of the grid and seed."""
  w, u, nm = setup1(ctx, n)
  t = X.sym('t')
  eq = ctx.call(EQ + 'ForcedBurgersEquation', NU, w.grid, 7)
  got = meth(ctx, eq, 'explicit_terms', (u, t))
  f = ctx.ip.call(ctx.call('spectral.forcings:random_forcing_module', w.grid,
                           7), [t], {})
  want = ev(ctx, PADDED + KX + 'jnp.fft.rfft(f) - rfft(irfft(u) * '
            'irfft(k * u))', f=f, **nm)
  ctx.same(got[0], want, 'explicit terms')


def nls(ctx, n, smooth, part):
  w, _, nm = setup1(ctx, n)
  psi = spectrum('psi', n)
  nm.update(u=psi, half=mul_(n, HALF))
  kw = {} if smooth is None else dict(smooth=smooth)
  eq = ctx.call(EQ + 'NonlinearSchrodinger', w.grid, **kw)
  kx = 'k = 2j * jnp.pi * jnp.fft.fftfreq(n, h)\n'
  if part == 'im':
    return solve_checks(ctx, eq, psi, kx + 'L = -1j * k ** 2 / 8\n', nm)
  got = meth(ctx, eq, 'explicit_terms', psi)
  if smooth is False:
    src = '''
p = jnp.fft.ifft(u)
-1j * jnp.fft.fft(p * jnp.abs(p) ** 2) / 2'''
  else:
    src = '''
p = 2 * jnp.fft.ifft(jnp.concatenate([u[:half], jnp.zeros(n), u[half:]]))
w = jnp.fft.fft(p * jnp.abs(p) ** 2)
-1j * jnp.concatenate([w[:half], w[half + n:]]) / 4'''
  need_shape(got, (n,), 'explicit terms')
  ctx.same(got, ev(ctx, src, **nm), 'explicit terms')


def nls_odd(ctx):
  for n in (5, 7):
    w = World(ctx, 1, shape=(n,))
    ctx.raises('AssertionError', ctx.call, EQ + 'NonlinearSchrodinger', w.grid)


# ------------------------------------------------------------- 2D


def setup2(ctx, n):
  w = world(ctx, n)
  om = spectrum('om', n[0], half(n[1]))
  nm = dict(n0=A.dim(n[0]), n1=A.dim(n[1]), h0=w.h[0], h1=w.h[1], om=om)
  return w, om, nm


VEL = KK + '''
tp = 2j * jnp.pi
lap = ((tp * kx) ** 2 + (tp * ky) ** 2).at[0, 0].set(1)
psi = -om / lap
vx = jnp.fft.irfftn(tp * ky * psi)
vy = jnp.fft.irfftn(-tp * kx * psi)
'''


def forcing2(ctx, w, n, log):
  def make(ip, args, kwargs):
    log.append(('grid', args, kwargs))

    def f(ip_, a, k):
      log.append(('call', a, k))
      v = [arr_of(x) for x in a[0]]
      return tuple(ctx.call('base.grids:GridArray', A.ewise(
          lambda *e, d=d: X.apply_op(f'forc{d}', e), *v), (ZERO, ZERO), w.grid)
                   for d in range(2))
    return pyfn('forcing', f)
  return pyfn('make_forcing', make)


def make_ns(ctx, n, drag, smooth, force):
  w, om, nm = setup2(ctx, n)
  kw, log = {}, []
  if drag:
    kw['drag'] = DRAG
  if smooth is not None:
    kw['smooth'] = smooth
  if force:
    kw['forcing_fn'] = forcing2(ctx, w, n, log)
  eq = ctx.call(EQ + 'NavierStokes2D', NU, w.grid, **kw)
  return w, om, nm, eq, log


def ns(ctx, n, drag, smooth, force, part):
  w, om, nm, eq, log = make_ns(ctx, n, drag, smooth, force)
  if part == 'im':
    nm.update(nu=NU, drag=DRAG if drag else 0, dt=DT, u=om)
    lin = KK + ('L = -4 * jnp.pi ** 2 * nu * (kx ** 2 + ky ** 2) - drag\n')
    return solve_checks(ctx, eq, om, lin, nm)
  nm['filt'] = (1 if smooth is False else
                ctx.call(SU + 'brick_wall_filter_2d', w.grid))
  got = meth(ctx, eq, 'explicit_terms', om)
  need_shape(got, (n[0], half(n[1])), 'explicit terms')
  env = ev(ctx, VEL + '''
gx, gy = jnp.fft.irfftn(tp * kx * om), jnp.fft.irfftn(tp * ky * om)
adv = -jnp.fft.rfftn(vx * gx + vy * gy) * filt
pass''', **nm)
  want = env['adv']
  if force:
    need(len([e for e in log if e[0] == 'grid']) == 1, 'forcing built once')
    calls = [e for e in log if e[0] == 'call']
    need(len(calls) == 1, 'forcing evaluated once')
    v = calls[0][1][0]
    need(len(v) == 2, 'velocity of two components')
    for d, s in enumerate(('vx', 'vy')):
      need_kind(v[d], 'GridVariable', 'velocity of the forcing')
      ctx.same(arr_of(v[d]), arr_of(env[s]), f'velocity {d} of the forcing')
      ctx.same(grid_of(v[d]), w.grid, 'grid of the forcing velocity')
    f = [A.ewise(lambda *e, d=d: X.apply_op(f'forc{d}', e), arr_of(env['vx']),
                 arr_of(env['vy'])) for d in range(2)]
    want = ev(ctx, KK + 'adv + 2j * jnp.pi * (kx * jnp.fft.rfft2(fy) - '
              'ky * jnp.fft.rfft2(fx))', adv=want, fx=f[0], fy=f[1], **nm)
  ctx.same(got, want, 'explicit terms')


def forced_ns(ctx, n, smooth):
  """Kolmogorov flow: drag 0.1 and forcing sin(4 y) at the grid corners."""
  w, om, nm = setup2(ctx, n)
  eq = ctx.call(EQ + 'ForcedNavierStokes2D', NU, w.grid, smooth)
  nm.update(nu=NU, dt=DT, u=om, drag=F(1, 10))
  lin = KK + 'L = -4 * jnp.pi ** 2 * nu * (kx ** 2 + ky ** 2) - drag\n'
  solve_checks(ctx, eq, om, lin, nm)
  nm['filt'] = ctx.call(SU + 'brick_wall_filter_2d', w.grid) if smooth else 1
  got = meth(ctx, eq, 'explicit_terms', om)
  want = ev(ctx, VEL + '''
gx, gy = jnp.fft.irfftn(tp * kx * om), jnp.fft.irfftn(tp * ky * om)
y = (lo + h1 * jnp.arange(n1))[np.newaxis, :] + jnp.zeros((n0, 1))
-jnp.fft.rfftn(vx * gx + vy * gy) * filt - tp * ky * jnp.fft.rfft2(
    jnp.sin(4 * y))''', lo=w.lo[1], **nm)
  ctx.same(got, want, 'explicit terms')
