"""N01: initial conditions and the reference flow."""
from props.f01 import *  # pylint: disable=wildcard-import,unused-wildcard-import

EXPLANATION = (
    'Every factory of initial velocities is interpreted on grids of symbolic '
    'size with opaque random draws, user functions and projection; every '
    'component is compared with its definition at the requested location, '
    'boundary conditions and random keys included.')

IC, CI, VP = ('base.initial_conditions:', 'collocated.initial_conditions:',
              'base.validation_problems:')
VM, PK = X.sym('vmax', pos=True), X.sym('kpeak', pos=True)
B = 'base.boundaries:'


def run(ctx):
  for nd in (1, 2, 3):
    for kind in ('periodic', 'walls', 'neumann', 'mixed'):
      for offs in ('none', 'faces', 'zeros', 'centers'):
        for batch in (False, True):
          ctx.ob('wrap variables', f'ndim={nd} {kind} {offs} batch={batch}',
                 wrapped, ctx, nd, kind, offs, batch)
    ctx.ob('filter', f'ndim={nd}', filtering, ctx, nd)
    for f in (IC, CI):
      for it_ in (None, 0, 1, 2):
        for vel in (False, True):
          ctx.ob('random velocity', f'{f} ndim={nd} iterations={it_} '
                 f'vmax={vel}', randomvel, ctx, f, nd, it_, vel)
      ctx.ob('random keys', f'{f} ndim={nd}', keys, ctx, f, nd)
    for kind in (None, 'walls', 'mixed'):
      for it_ in (None, 0, 1, 2):
        for solver in (False, True):
          ctx.ob('velocity functions', f'ndim={nd} bc={kind} iterations={it_} '
                 f'solver={solver}', functions, ctx, nd, kind, it_, solver)
  for offs in ('none', 'faces', 'centers', 'zeros', 'mixed'):
    for full in (False, True):
      ctx.ob('taylor green problem', f'{offs} {full}', problem, ctx, offs,
             full)


def conditions(ctx, w, kind):
  """One condition per component and its (types, values)."""
  out = []
  for c in range(w.ndim):
    if kind == 'periodic' or kind is None:
      types = ((PER, PER),) * w.ndim
      vals = ((None, None),) * w.ndim
    else:
      types, vals = [], []
      for d in range(w.ndim):
        t = {'walls': (DIR, DIR), 'neumann': (NEU, NEU),
             'mixed': ((PER, PER) if d == w.ndim - 1 and w.ndim > 1
                       else (DIR, NEU))}[kind]
        types.append(t)
        vals.append((None, None) if t[0] == PER else tuple(
            X.ZERO if (t[s] == NEU and kind == 'mixed') else
            X.sym(f'b{c}_{s}') for s in (0, 1)))
    out.append((tuple(types), tuple(vals)))
  return out


def imposed(w, name, off, types, vals, pre=()):
  """Stored value: aligned Dirichlet walls hold the boundary value."""
  def spec(*ix):
    lead, ix = ix[:len(ix) - w.ndim], ix[len(ix) - w.ndim:]
    for d in range(w.ndim):
      # offset 1: the last value is on the upper wall; 0: the first on the
      # lower one
      if off[d] == 1 and types[d][1] == DIR and X.equal(
          plus(ix[d], 1), E(w.n[d])):
        return E(vals[d][1])
      if off[d] == 0 and types[d][0] == DIR and not E(ix[d]).t:
        return E(vals[d][0])
    ix = tuple(E(i) for i in tuple(lead) + tuple(ix))
    return X.rd(name, (None,) * len(ix), ix, True, False)
  return spec


def wrapped(ctx, nd, kind, where, batch):
  w = World(ctx, nd)
  cs = conditions(ctx, w, kind)
  bcs = tuple(w.bc(t, v) for t, v in cs)
  offs = (((ZERO,) * nd,) * nd if where == 'zeros' else offsets(nd, where))
  if kind != 'periodic' and not allowed(nd, kind, offs):
    return
  b = 3
  shape = ((b,) if batch else ()) + w.n
  per = tuple(False for _ in shape)
  data = tuple(A.field(f'u{d}', shape, per) for d in range(nd))
  kw = {} if where == 'none' else dict(offsets=offs)
  if batch:
    kw['batch_dim'] = True
  vs = ctx.call(IC + 'wrap_variables', data, w.grid, bcs, **kw)
  need(isinstance(vs, tuple) and len(vs) == nd, f'components: {short(vs)}')
  for d, v in enumerate(vs):
    need_kind(v, 'GridVariable', f'component {d}')
    need_offset(v, offs[d], f'component {d}')
    ctx.same(grid_of(v), w.grid, 'grid')
    ctx.same(bc_of(v), bcs[d], f'condition {d}')
    spec = imposed(w, f'u{d}', offs[d], *cs[d])
    pointwise(v, shape, spec, f'component {d}', 1)


def allowed(nd, kind, offs):
  """Imposing Neumann values on the wall itself is refused (B02)."""
  for o in offs:
    for d in range(nd):
      t = {'walls': (DIR, DIR), 'neumann': (NEU, NEU),
           'mixed': ((PER, PER) if d == nd - 1 and nd > 1
                     else (DIR, NEU))}[kind]
      if t[0] != PER and o[d] in (0, 1) and NEU in t:
        return False
  return True


# ------------------------------------------------------------ random fields


PDF = '''
mu = jnp.log(peak) + 0.25
lk = jnp.log(k)
jnp.exp(-(lk - mu) ** 2 / 0.5 - lk) / k ** (nd - 1)
'''


def noise_component(ctx, w, draw, peak):
  k = kmag(ctx, w)
  dens = ev(ctx, PDF, k=k, peak=peak, nd=w.ndim)
  return apply_filter(ctx, w, draw, dens)


def filtering(ctx, nd):
  w = World(ctx, nd)
  u = w.data('u')
  dens = A.unary(lambda e: X.apply_op('user_dens', (e,)), kmag(ctx, w))
  want = apply_filter(ctx, w, u, dens)
  got = ctx.call('base.filter_utils:filter', opaque_fn('dens'), u, w.grid)
  ctx.same(got, want, 'filtered noise')


def project_override(ctx, w, log):
  def proj(ip, f, v):
    log.append(v['solve'])
    es = [arr_of(u) for u in v['v']]
    return tuple(ctx.call('base.grids:GridVariable', ctx.call(
        'base.grids:GridArray', A.ewise(lambda *e, d=d: X.apply_op(
            f'P{d}', e), *es), offset_of(u), w.grid), bc_of(u))
                 for d, u in enumerate(v['v']))
  return proj


def projected(arrs):
  return [A.ewise(lambda *e, d=d: X.apply_op(f'P{d}', e), *arrs)
          for d in range(len(arrs))]


def draws_of(ctx):
  return [e for e in ctx.ip.events if e[0] == 'rng' and e[1] != 'split']


def randomvel(ctx, base, nd, iters, vel):
  ctx.fresh()
  log = []
  w = World(ctx, nd)
  mod = base.split('.')[0]
  ctx.ip.overrides[f'jax_cfd.{mod}.pressure.projection'] = project_override(
      ctx, w, log)
  try:
    ctx.ip.events.clear()
    peak = 3 if iters == 0 and not vel else PK
    kw = {} if peak == 3 else dict(peak_wavenumber=PK)
    if iters is not None:
      kw['iterations'] = iters
    if vel:
      kw['maximum_velocity'] = VM
    vs = ctx.call(base + 'filtered_velocity_field', key0(ctx), w.grid, **kw)
    n = 3 if iters is None else iters
    need(len(log) == n, f'{len(log)} projections, expected {n}')
    dr = draws_of(ctx)
    need(len(dr) == nd and all(e[1] == 'normal' for e in dr),
         f'draws: {[e[1] for e in dr]}')
    cur = [arr_of(noise_component(ctx, w, e[5], peak)) for e in dr]
    for _ in range(n):
      cur = projected(cur)
      cur = [arr_of(c) for c in ev(
          ctx, 'top = jnp.max(jnp.sqrt(sum(p ** 2 for p in ps)))\n'
          '[vm * p / top for p in ps]', ps=cur, vm=VM if vel else 1)]
    need(isinstance(vs, tuple) and len(vs) == nd, f'components: {short(vs)}')
    for d, v in enumerate(vs):
      need_kind(v, 'GridVariable', f'component {d}')
      need_offset(v, face(nd, d) if base == IC else center(nd),
                  f'component {d}')
      ctx.same(grid_of(v), w.grid, 'grid')
      ctx.same(bc_of(v), w.periodic(), f'condition {d}')
      ctx.same(arr_of(v), cur[d], f'component {d}')
  finally:
    ctx.fresh()


def key0(ctx, seed=7):
  return ev(ctx, 'jax.random.PRNGKey(s)', s=seed)


def keys(ctx, base, nd):
  """Components use independent keys that derive from the given one."""
  ctx.fresh()
  w = World(ctx, nd)
  mod = base.split('.')[0]
  ctx.ip.overrides[f'jax_cfd.{mod}.pressure.projection'] = project_override(
      ctx, w, [])
  try:
    seen = []
    for s in (7, 7, 8):
      ctx.ip.events.clear()
      ctx.call(base + 'filtered_velocity_field', key0(ctx, s), w.grid)
      dr = draws_of(ctx)
      for e in dr:
        need(tuple(map(str, e[3])) == tuple(str(A.dim(n)) for n in w.n),
             f'noise of shape {short(e[3])}')
      ks = [M.tokey(e[2]) for e in dr]
      need(len(set(ks)) == len(ks) == nd, 'components share a random key')
      need(M.tokey(key0(ctx, s)) not in ks, 'the key is used after a split')
      seen.append(ks)
    need(seen[0] == seen[1], 'same key, different draws')
    need(not set(seen[0]) & set(seen[2]), 'draws do not depend on the key')
  finally:
    ctx.fresh()


def functions(ctx, nd, kind, iters, solver):
  ctx.fresh()
  log = []
  w = World(ctx, nd)
  ctx.ip.overrides['jax_cfd.base.pressure.projection'] = project_override(
      ctx, w, log)
  try:
    fns = tuple(opaque_fn(f'f{d}') for d in range(nd))
    kw = {}
    bcs = [w.periodic()] * nd
    if kind is not None:
      bcs = [w.bc(t, v) for t, v in conditions(ctx, w, kind)]
      kw['velocity_bc'] = tuple(bcs)
    if iters is not None:
      kw['iterations'] = iters
    sv = opaque_fn('solve')
    if solver:
      kw['pressure_solve'] = sv
    vs = ctx.call(IC + 'initial_velocity_field', fns, w.grid, **kw)
    need(len(log) == (iters or 0), f'{len(log)} projections')
    for s in log:
      if solver:
        need(s is sv, 'the given pressure solver is used')
      else:
        need(getattr(s, 'qual', None) ==
             'jax_cfd.base.pressure.solve_fast_diag', 'default solver')
    need(isinstance(vs, tuple) and len(vs) == nd, f'components: {short(vs)}')

    def spec(d, k, ix):
      if k == 0:
        return X.apply_op(f'user_f{d}', tuple(
            coord(w, a, ix[a], face(nd, d)) for a in range(nd)))
      return X.apply_op(f'P{d}', tuple(spec(e, k - 1, ix)
                                       for e in range(nd)))
    for d, v in enumerate(vs):
      need_kind(v, 'GridVariable', f'component {d}')
      need_offset(v, face(nd, d), f'component {d}')
      ctx.same(grid_of(v), w.grid, 'grid')
      ctx.same(bc_of(v), bcs[d], f'condition {d}')
      pointwise(v, w.n, lambda *ix, d=d: spec(d, iters or 0, ix),
                f'component {d}', 1)
  finally:
    ctx.fresh()


# ---------------------------------------------------------------- reference


def problem(ctx, where, full):
  """Momentum decays at (kx^2 + ky^2) nu/rho; velocities at their faces."""
  n = (n_sym(0), n_sym(1))
  kw = {}
  rho, nu, kx, ky = X.ONE, X.ZERO, X.ONE, X.ONE
  if full:
    rho, nu, kx, ky = (X.sym('rho', pos=True), X.sym('nu', nonneg=True),
                       X.sym('kx', pos=True), X.sym('ky', pos=True))
    kw = dict(density=rho, viscosity=nu, kx=kx, ky=ky)
  p = ctx.call(VP + 'TaylorGreen', tuple(A.dim(x) for x in n), **kw)
  offs = (((ZERO,) * 2,) * 2 if where == 'zeros' else offsets(2, where))
  vkw = {} if where == 'none' else dict(offsets=offs)
  t = X.sym('t')
  pi2 = times(2, X.sym('pi', pos=True))
  for args, tt in (((), X.ZERO), ((t,), t)):
    vs = meth(ctx, p, 'velocity', *args, **vkw)
    need(isinstance(vs, tuple) and len(vs) == 2, 'two components')
    for d, v in enumerate(vs):
      need_kind(v, 'GridVariable', f'component {d}')
      need_offset(v, offs[d], f'component {d}')
      ctx.same(grid_of(v), prop(ctx, p, 'grid'), 'grid')
      ctx.same(bc_of(v), ctx.call(B + 'periodic_boundary_conditions', 2),
               'condition')
      decay = X.apply_op('exp', (times(-1, plus(times(kx, kx), times(ky, ky)),
                                       nu, over(1, rho), tt),))

      def spec(i, j, d=d, decay=decay):
        x, y = (times(k, pi2, over(plus(q, o), m)) for k, q, o, m in zip(
            (kx, ky), (i, j), offs[d], n))
        f = ('cos', 'sin') if d == 0 else ('sin', 'cos')
        return times(decay, 1 if d == 0 else -1, X.apply_op(f[0], (x,)),
                     X.apply_op(f[1], (y,)))
      pointwise(v, n, spec, f'component {d}', 1)
  ctx.same(prop(ctx, p, 'density'), rho, 'density')
  ctx.same(prop(ctx, p, 'viscosity'), nu, 'viscosity')
  need(meth(ctx, p, 'force') is None, 'no force')
