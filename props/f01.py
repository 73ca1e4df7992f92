"""F01: forcings."""
from props.rk import *  # pylint: disable=wildcard-import,unused-wildcard-import
import itertools as it

EXPLANATION = (
    'Every forcing factory is interpreted on grids of symbolic size, domain '
    'and step with unknown velocities; each returned component is compared '
    'with its formula evaluated at the location of the velocity component, '
    'for each rank, orientation, offset choice and default.')

FO, MF, SF = 'base.forcings:', 'ml.forcings:', 'spectral.forcings:'
SC, K, CO = (X.sym('scale', pos=True), X.sym('wave', pos=True, integer=True),
             X.sym('coef'))
F = Fraction


def run(ctx):
  for nd in (2, 3):
    for swap in (None, False, True):
      for offs in ('none', 'faces', 'centers', 'corners', 'mixed'):
        if nd == 3 and offs == 'mixed':
          continue
        k = f'ndim={nd} swap={swap} offsets={offs}'
        ctx.ob('kolmogorov', k, kolmogorov, ctx, nd, swap, offs, FO)
        for lin in (False, True):
          ctx.ob('ml kolmogorov', f'{k} linear={lin}', kolmogorov, ctx, nd,
                 swap, offs, MF, lin)
    ctx.ob('kolmogorov defaults', f'ndim={nd}', kdefault, ctx, nd)
    ctx.ob('taylor green', f'ndim={nd}', taylor, ctx, nd, FO)
    ctx.ob('taylor green defaults', f'ndim={nd}', taylor, ctx, nd, FO, True)
    for lin in (False, True):
      ctx.ob('ml taylor green', f'ndim={nd} linear={lin}', taylor, ctx, nd, MF,
             False, lin)
    for kind, default in (('kolmogorov', True), ('kolmogorov', False),
                          ('taylor_green', False)):
      ctx.ob('turbulence', f'ndim={nd} {kind} {default}', turbulence, ctx, nd,
             kind, default)
    ctx.ob('turbulence defaults', f'ndim={nd}', turbulence_defaults, ctx, nd)
    ctx.ob('turbulence unknown', f'ndim={nd}', unknown, ctx, nd)
  for nd in (1, 2, 3):
    for where in ('faces', 'centers'):
      for base in (FO, MF):
        k = f'{base} ndim={nd} {where}'
        ctx.ob('linear', k, linear, ctx, nd, where, base)
        ctx.ob('no forcing', k, nothing, ctx, nd, where, base)
        ctx.ob('sum', k, summed, ctx, nd, where, base)
        ctx.ob('filtered linear', k, filtlinear, ctx, nd, where, base)
      ctx.ob('filtered', f'ndim={nd} {where}', filtered, ctx, nd, where)
  ctx.ob('filtered linear defaults', '', mlfiltdefault, ctx)
  for name in ('kolmogorov_forcing', 'taylor_green_forcing'):
    for nd in (1, 4):
      ctx.ob('ranks refused', f'{name} {nd}', refused, ctx, name, nd)
  ctx.ob('spectral kolmogorov', '', specko, ctx)
  for n in (4, 6):
    ctx.ob('vorticity space', f'n={n}', vorticity, ctx, n)
  for n in (None, 3):
    for off in (None, HALF):
      ctx.ob('random waves', f'n={n} offset={off}', waves, ctx, n, off)
  ctx.ob('random waves keys', '', wavekeys, ctx)


def velocity(ctx, w, offs):
  return tuple(w.var(f'u{d}', o) for d, o in enumerate(offs))


def offsets(nd, where):
  return {'faces': tuple(face(nd, d) for d in range(nd)),
          'none': tuple(face(nd, d) for d in range(nd)),
          'centers': (center(nd),) * nd,
          'corners': ((ZERO,) * nd,) * nd,
          'mixed': ((ZERO, F(1, 4)), (F(3, 4), ONE), None)[:nd]}[where]


def coord(w, d, i, off):
  return plus(w.lo[d], times(plus(i, off[d]), w.h[d]))


def forcing_vec(ctx, w, f, us, offs, spec, what='force'):
  """Component d at offs[d] on the grid with data spec(d, ix)."""
  r = ctx.ip.call(f, [us], {})
  need(isinstance(r, tuple) and len(r) == w.ndim,
       f'{what}: one component per axis, got {short(r)}')
  for d, v in enumerate(r):
    need_kind(v, 'GridArray', f'{what} {d}')
    need_offset(v, offs[d], f'{what} {d}')
    ctx.same(grid_of(v), w.grid, f'{what} {d} grid')
    pointwise(v, w.n, lambda *ix, d=d: spec(d, ix), f'{what} {d}', 1)


def kspec(w, offs, swap, scale, k, us=None, lin=None):
  def spec(d, ix):
    if swap:
      v = (times(scale, X.apply_op('sin', (times(k, coord(
          w, 0, ix[0], offs[1])),))) if d == 1 else X.ZERO)
    else:
      v = (times(scale, X.apply_op('sin', (times(k, coord(
          w, 1, ix[1], offs[0])),))) if d == 0 else X.ZERO)
    if lin is not None:
      v = plus(v, times(lin, w.rd(f'u{d}', *ix)))
    return v
  return spec


def kolmogorov(ctx, nd, swap, where, base, lin=False):
  w = World(ctx, nd)
  offs = offsets(nd, where)
  kw = {}
  if swap is not None:
    kw['swap_xy'] = swap
  if where != 'none':
    kw['offsets'] = offs
  if base == FO:
    f = ctx.call(FO + 'kolmogorov_forcing', w.grid, SC, K, **kw)
  else:
    if lin:
      kw['linear_coefficient'] = X.sym('lin', pos=True)
    f = ctx.call(MF + 'kolmogorov_forcing', w.grid, scale=SC, wavenumber=K,
                 **kw)
  us = velocity(ctx, w, offs)
  forcing_vec(ctx, w, f, us, offs, kspec(
      w, offs, swap, SC, K, us, kw.get('linear_coefficient')))


def kdefault(ctx, nd):
  w = World(ctx, nd)
  offs = offsets(nd, 'faces')
  us = velocity(ctx, w, offs)
  f = ctx.call(FO + 'kolmogorov_forcing', w.grid)
  forcing_vec(ctx, w, f, us, offs, kspec(w, offs, False, ONE, 2))
  f = ctx.call(MF + 'kolmogorov_forcing', w.grid)
  forcing_vec(ctx, w, f, us, offs, kspec(w, offs, False, ZERO, 2))


def tspec(w, offs, scale, k, lin=None):
  """Taylor-Green cells with k periods per axis of the domain."""
  def ph(d, i, c):
    return times(k, 2, X.sym('pi', pos=True), over(plus(i, offs[c][d]),
                                                   w.n[d]))

  def spec(c, ix):
    if c == 2:
      v = X.ZERO
    else:
      f = ('cos', 'sin') if c == 0 else ('sin', 'cos')
      v = times(scale, 1 if c == 0 else -1,
                X.apply_op(f[0], (ph(0, ix[0], c),)),
                X.apply_op(f[1], (ph(1, ix[1], c),)))
    if lin is not None:
      v = plus(v, times(lin, w.rd(f'u{c}', *ix)))
    return v
  return spec


def taylor(ctx, nd, base, default=False, lin=False):
  w = World(ctx, nd)
  offs = offsets(nd, 'faces')
  us = velocity(ctx, w, offs)
  lc = X.sym('lin', pos=True) if lin else None
  if default:
    f = ctx.call(FO + 'taylor_green_forcing', w.grid)
    return forcing_vec(ctx, w, f, us, offs, tspec(w, offs, ONE, 2))
  if base == FO:
    f = ctx.call(FO + 'taylor_green_forcing', w.grid, SC, K)
  else:
    kw = dict(linear_coefficient=lc) if lin else {}
    f = ctx.call(MF + 'taylor_green_forcing', w.grid, scale=SC, wavenumber=K,
                 **kw)
  forcing_vec(ctx, w, f, us, offs, tspec(w, offs, SC, K, lc))


def turbulence(ctx, nd, kind, default):
  w = World(ctx, nd)
  offs = offsets(nd, 'faces')
  us = velocity(ctx, w, offs)
  kw = {} if default else dict(forcing_type=kind)
  f = ctx.call(FO + 'simple_turbulence_forcing', w.grid, SC, K, CO, **kw)
  spec = (kspec(w, offs, False, SC, K, us, CO) if kind == 'kolmogorov'
          else tspec(w, offs, SC, K, CO))
  forcing_vec(ctx, w, f, us, offs, spec)


def turbulence_defaults(ctx, nd):
  """Terms that are not asked for are absent."""
  w = World(ctx, nd)
  offs = offsets(nd, 'faces')
  us = velocity(ctx, w, offs)
  two = E(2)
  for kw, spec in (
      ({}, lambda d, ix: X.ZERO),
      (dict(linear_coefficient=CO),
       lambda d, ix: times(CO, w.rd(f'u{d}', *ix))),
      (dict(constant_magnitude=SC),
       kspec(w, offs, False, SC, two, us, X.ZERO)),
      (dict(constant_magnitude=SC, forcing_type='taylor_green'),
       tspec(w, offs, SC, two, X.ZERO))):
    f = ctx.call(FO + 'simple_turbulence_forcing', w.grid, **kw)
    forcing_vec(ctx, w, f, us, offs, spec)


def unknown(ctx, nd):
  w = World(ctx, nd)
  ctx.raises('ValueError', lambda: ctx.call(
      FO + 'simple_turbulence_forcing', w.grid, forcing_type='other'))


def linear(ctx, nd, where, base):
  w = World(ctx, nd)
  offs = offsets(nd, where)
  f = ctx.call(base + 'linear_forcing', w.grid, CO)
  forcing_vec(ctx, w, f, velocity(ctx, w, offs), offs,
              lambda d, ix: times(CO, w.rd(f'u{d}', *ix)))


def nothing(ctx, nd, where, base):
  w = World(ctx, nd)
  offs = offsets(nd, where)
  f = ctx.call(base + 'no_forcing', w.grid)
  forcing_vec(ctx, w, f, velocity(ctx, w, offs), offs, lambda d, ix: X.ZERO)


def summed(ctx, nd, where, base):
  w = World(ctx, nd)
  offs = offsets(nd, where)
  us = velocity(ctx, w, offs)
  fs = []
  for j in range(3):
    fs.append(pyfn(f'f{j}', lambda ip, a, k, j=j: tuple(ctx.call(
        'base.grids:GridArray', A.unary(lambda e: X.apply_op(f'f{j}', (e,)),
                                        arr_of(u)), offset_of(u), w.grid)
                                                        for u in a[0])))
  for n in (1, 2, 3):
    f = ctx.call(base + 'sum_forcings', *fs[:n])
    forcing_vec(ctx, w, f, us, offs, lambda d, ix: plus(*[
        X.apply_op(f'f{j}', (w.rd(f'u{d}', *ix),)) for j in range(n)]),
                f'sum of {n}')


FILT = '''
def kmag(axes):
  return jnp.sqrt(sum(k ** 2 for k in axes))
'''


def kmag(ctx, w):
  """|2 pi k| on the full transform mesh."""
  ks = []
  for d in range(w.ndim):
    k = ev(ctx, '2 * jnp.pi * jnp.fft.fftfreq(n, h)', n=A.dim(w.n[d]),
           h=w.h[d])
    ks.append(A.transpose(k, (0,)) if w.ndim == 1 else A.reshape(
        k, [A.dim(w.n[d]) if j == d else 1 for j in range(w.ndim)]))
  return ev(ctx, 'jnp.sqrt(sum(k ** 2 for k in ks))', ks=ks)


def apply_filter(ctx, w, u, dens):
  return ev(ctx, 'jnp.real(jnp.fft.ifftn(jnp.fft.fftn(u) * '
            'jnp.where(k > 0, f, 0)))', u=arr_of(u), k=kmag(ctx, w), f=dens)


def same_vec(ctx, w, f, us, offs, want, what='force'):
  r = ctx.ip.call(f, [us], {})
  need(isinstance(r, tuple) and len(r) == w.ndim, f'{what}: {short(r)}')
  for d, v in enumerate(r):
    need_kind(v, 'GridArray', f'{what} {d}')
    need_offset(v, offs[d], f'{what} {d}')
    ctx.same(grid_of(v), w.grid, f'{what} {d} grid')
    ctx.same(arr_of(v), arr_of(want[d]), f'{what} {d}')


def filtered(ctx, nd, where):
  w = World(ctx, nd)
  offs = offsets(nd, where)
  us = velocity(ctx, w, offs)
  f = ctx.call(FO + 'filtered_forcing', opaque_fn('dens'), w.grid)
  dens = A.unary(lambda e: X.apply_op('user_dens', (e,)), kmag(ctx, w))
  same_vec(ctx, w, f, us, offs, [apply_filter(ctx, w, u, dens) for u in us])


def band(ctx, w, lo, hi, c):
  return ev(ctx, 'jnp.where((k >= 2 * jnp.pi * lo) & (k <= 2 * jnp.pi * hi), '
            'c, 0)', k=kmag(ctx, w), lo=lo, hi=hi, c=c)


def filtlinear(ctx, nd, where, base):
  w = World(ctx, nd)
  offs = offsets(nd, where)
  us = velocity(ctx, w, offs)
  lo, hi = X.sym('klo', pos=True), X.sym('khi', pos=True)
  if base == FO:
    f = ctx.call(FO + 'filtered_linear_forcing', lo, hi, CO, w.grid)
  else:
    f = ctx.call(MF + 'filtered_linear_forcing', w.grid, CO, lo, hi)
  dens = band(ctx, w, lo, hi, CO)
  same_vec(ctx, w, f, us, offs, [apply_filter(ctx, w, u, dens) for u in us])


def mlfiltdefault(ctx):
  w = World(ctx, 2)
  offs = offsets(2, 'faces')
  us = velocity(ctx, w, offs)
  f = ctx.call(MF + 'filtered_linear_forcing', w.grid, CO)
  dens = band(ctx, w, 0, 4, CO)
  same_vec(ctx, w, f, us, offs, [apply_filter(ctx, w, u, dens) for u in us])


def refused(ctx, name, nd):
  w = World(ctx, nd, shape=(4,) * nd)
  ctx.raises(('NotImplementedError', 'ValueError', 'IndexError', 'TypeError'),
             ctx.call, FO + name, w.grid)


def specko(ctx):
  w = World(ctx, 2)
  offs = offsets(2, 'corners')
  us = velocity(ctx, w, offs)
  f = ctx.call(MF + 'spectral_kolmogorov_forcing', w.grid)
  forcing_vec(ctx, w, f, us, offs, kspec(w, offs, False, ONE, 4))


def vorticity(ctx, n):
  """Forcing of the vorticity is the curl of the velocity forcing."""
  m = n + 2
  w = World(ctx, 2, shape=(n, m))
  log = []

  def module(ip, args, kwargs):
    log.append(('module', args, kwargs))

    def f(ip_, a, k):
      log.append(('call', a[0]))
      v = [arr_of(x) for x in a[0]]
      return tuple(ctx.call('base.grids:GridArray', A.ewise(
          lambda *e, d=d: X.apply_op(f'forc{d}', e), *v), (ZERO, ZERO), w.grid)
                   for d in range(2))
    return pyfn('forcing', f)
  f = ctx.call(MF + 'vorticity_space_forcing', w.grid, pyfn('module', module))
  om = A.field('om', (n, m, 1))
  got = ctx.ip.call(f, [om], {})
  env = ev(ctx, '''
kx = jnp.fft.fftfreq(n, h0)[:, np.newaxis]
ky = jnp.fft.rfftfreq(m, h1)[np.newaxis, :]
tp = 2j * jnp.pi
lap = ((tp * kx) ** 2 + (tp * ky) ** 2).at[0, 0].set(1)
psi = -jnp.fft.rfft2(om[:, :, 0]) / lap
vx = jnp.fft.irfft2(tp * ky * psi)
vy = jnp.fft.irfft2(-tp * kx * psi)
pass''', om=om, n=n, m=m, h0=w.h[0], h1=w.h[1])
  call = [e for e in log if e[0] == 'call']
  need(len(call) == 1, 'forcing evaluated once')
  for _, a, k in [e for e in log if e[0] == 'module']:
    if 'offsets' in k:
      ctx.same(k['offsets'], ((ZERO, ZERO),) * 2, 'offsets of the forcing')
  for d, s in enumerate(('vx', 'vy')):
    v = call[0][1][d]
    need_kind(v, 'GridVariable', 'velocity')
    need_offset(v, (ZERO, ZERO), 'velocity')
    ctx.same(arr_of(v), arr_of(env[s]), f'velocity {d} of the forcing')
  fx, fy = (A.ewise(lambda *e, d=d: X.apply_op(f'forc{d}', e),
                    arr_of(env['vx']), arr_of(env['vy'])) for d in range(2))
  want = ev(ctx, 'jnp.fft.irfft2(tp * (kx * jnp.fft.rfft2(fy) - ky * '
            'jnp.fft.rfft2(fx)))', fx=fx, fy=fy,
            **{k: env[k] for k in ('kx', 'ky', 'tp')})
  ctx.same(got, want, 'vorticity forcing')


# ------------------------------------------------------------- random waves


def draws(ctx, n, seed, off=None):
  ctx.ip.events.clear()
  w = World(ctx, 1)
  kw = {} if n is None else dict(n=n)
  if off is not None:
    kw['offset'] = (off,)
  f = ctx.call(SF + 'random_forcing_module', w.grid, seed, **kw)
  t = X.sym('t')
  v = ctx.ip.call(f, [t], {})
  ev_ = [e for e in ctx.ip.events if e[0] == 'rng' and e[1] != 'split']
  return w, t, v, ev_


def waves(ctx, n, off):
  w, t, v, dr = draws(ctx, n, X.sym('seed', integer=True), off)
  num = n or 20
  ch = [e for e in dr if e[1] == 'choice']
  un = [e for e in dr if e[1] == 'uniform']
  need(len(ch) == 1 and len(un) == 3 and len(dr) == 4, f'draws: {len(dr)}')
  for e in dr:
    need(e[3] == (num,), f'{e[1]} draws {e[3]} numbers, expected {num}')
  ctx.same(arr_of(ch[0][4]['a']), A.stack([A.lift(X.const(k)) for k in
                                           (3, 4, 5, 6)], 0), 'wave numbers')
  by = {}
  for e in un:
    by[(E(e[4]['minval']), E(e[4]['maxval']))] = arr_of(e[5])
  want = {'amp': (X.const(F(-1, 2)), X.const(F(1, 2))),
          'om': (X.const(F(-2, 5)), X.const(F(2, 5))),
          'phi': (X.ZERO, times(2, X.sym('pi', pos=True)))}
  got = {}
  for k, (lo, hi) in want.items():
    m = [a for (x, y), a in by.items() if X.equal(x, lo) and X.equal(y, hi)]
    need(len(m) == 1, f'range of {k}: {[(str(x), str(y)) for x, y in by]}')
    got[k] = m[0]
  o = ZERO if off is None else off

  def spec(i):
    x = coord(w, 0, i, (o,))
    tot = X.ZERO
    for j in range(num):
      g = {k: at(a, [(None, X.const(j))]) for k, a in got.items()}
      kx = at(arr_of(ch[0][5]), [(None, X.const(j))])
      tot = plus(tot, times(g['amp'], X.apply_op('sin', (plus(
          times(g['om'], t), times(-1, x, kx), g['phi']),))))
    return tot
  pointwise(v, w.n, spec, 'forcing', 1)


def wavekeys(ctx):
  """Independent keys per draw; the same seed gives the same waves."""
  w, t, v, dr = draws(ctx, 3, 5)
  keys = [M.tokey(e[2]) for e in dr]
  need(len(set(keys)) == len(keys), 'two draws share a random key')
  _, _, v2, dr2 = draws(ctx, 3, 5)
  need([M.tokey(e[2]) for e in dr2] == keys, 'same seed, different keys')
  _, _, _, dr3 = draws(ctx, 3, 6)
  need(not set(M.tokey(e[2]) for e in dr3) & set(keys),
       'keys do not depend on the seed')
