"""E01: assembly of the Navier-Stokes steps."""
import itertools as it

from props.fdlaw import *  # pylint: disable=wildcard-import,unused-wildcard-import

EXPLANATION = (
    'The step factories are interpreted with unknown convection, diffusion, '
    'forcing, projection and implicit solve (uninterpreted functions of the '
    'whole state). The value of every component after one step is compared '
    'with the momentum equation assembled term by term, for every combination '
    'of present and absent terms, default and custom components, and '
    'boundary conditions.')

EQ, CE = 'base.equations:', 'collocated.equations:'
RHO, NU, DT = (X.sym('rho', pos=True), X.sym('nu', pos=True),
               X.sym('dt', pos=True))
PROJ = {EQ: 'jax_cfd.base.pressure.projection',
        CE: 'jax_cfd.collocated.pressure.projection'}


def run(ctx):
  for nd in (1, 2, 3):
    ctx.ob('stable step', f'ndim={nd}', stable, ctx, nd)
    ctx.ob('dynamic step', f'ndim={nd}', dynamic, ctx, nd)
    for visc, force in it.product((True, False), repeat=2):
      t = f'ndim={nd} viscosity={visc} forcing={force}'
      for types in kinds(nd):
        k = f'{t} {types[0][0][0]}'
        ctx.ob('explicit terms', k, explicit, ctx, nd, types, visc, force)
        ctx.ob('explicit step', k, step, ctx, nd, types, visc, force)
        if visc:
          ctx.ob('implicit diffusion step', k, implicit, ctx, nd, types, force)
      ctx.ob('collocated step', t, collocated, ctx, nd, visc, force)
    ctx.ob('default components', f'ndim={nd}', defaults, ctx, nd)
    ctx.ob('default components implicit', f'ndim={nd}', idefaults, ctx, nd)
    ctx.ob('default components collocated', f'ndim={nd}', cdefaults, ctx, nd)
    ctx.ob('custom stepper', f'ndim={nd}', stepper, ctx, nd)


def kinds(nd):
  return [(P2,) * nd, (D2,) + (P2,) * (nd - 1)][:2]


class Terms:
  """Unknown components; records what each of them was given."""

  def __init__(self, ctx, w, us, base=EQ):
    self.ctx, self.w, self.us, self.log, self.base = ctx, w, us, [], base

  def vec(self, name):
    """Unknown vector function of the whole velocity."""
    def fn(ip, args, kwargs):
      v = args[0]
      self.log.append((name, args, kwargs))
      es = [arr_of(u) for u in v]
      return tuple(self.w_array(A.ewise(lambda *e, d=d: X.apply_op(
          f'{name}{d}', e), *es), u.offset) for d, u in enumerate(self.us))
    return pyfn(name, fn)

  def w_array(self, data, offset):
    return self.ctx.call('base.grids:GridArray', data, tuple(offset),
                         self.w.grid)

  def one(self, name):
    """Unknown function of one component and further scalars."""
    def fn(ip, args, kwargs):
      self.log.append((name, args, kwargs))
      a = arr_of(args[0])
      extra = tuple(E(x) for x in args[1:]) + tuple(
          E(x) for x in kwargs.values())
      return self.w_array(A.unary(lambda e: X.apply_op(name, (e,) + extra), a),
                          offset_of(args[0]))
    return pyfn(name, fn)

  def variables(self, name, extra=()):
    """Unknown map of the velocity to a velocity with the same conditions."""
    def fn(ip, args, kwargs):
      self.log.append((name, args, kwargs))
      v = args[0]
      es = [arr_of(u) for u in v]
      ex = tuple(E(x) for x in args[1:] if M.is_scalar(x)) + tuple(
          E(x) for x in kwargs.values() if M.is_scalar(x))
      return tuple(self.ctx.call('base.grids:GridVariable', self.w_array(
          A.ewise(lambda *e, d=d: X.apply_op(f'{name}{d}', e + ex), *es),
          offset_of(u)), bc_of(u)) for d, u in enumerate(v))
    return pyfn(name, fn)

  def overrides(self):
    """Summary of the projection (property P01)."""
    def ov(ip, f, v):
      return self.variables('P').fn(ip, (v['v'],), {}) if self.log.append(
          ('solver', (v['solve'],), {})) is None else None
    return {PROJ[self.base]: ov}

  def calls(self, name):
    return [e for e in self.log if e[0] == name]


def setup(ctx, nd, types=None, offset=None, base=EQ):
  w = World(ctx, nd)
  us = [Field(ctx, w, f'u{d}', offset or face(nd, d), types, tag=f'_{d}_')
        for d in range(nd)]
  return w, us, Terms(ctx, w, us, base)


def opargs(nd, es):
  return tuple(es)


def spec_rhs(us, ix, visc, force, es=None):
  """Expected time derivative per component."""
  es = es or [u.stored(*ix) for u in us]
  out = []
  for d, _ in enumerate(us):
    t = X.apply_op(f'C{d}', tuple(es))
    if visc:
      t = plus(t, X.apply_op('D', (es[d], over(NU, RHO))))
    if force:
      t = plus(t, over(X.apply_op(f'F{d}', tuple(es)), RHO))
    out.append(t)
  return out


def check_vec(ctx, w, us, r, spec, what):
  need(isinstance(r, tuple) and len(r) == len(us),
       f'{what}: one component per velocity component, got {short(r)}')
  for d, (u, v) in enumerate(zip(us, r)):
    need_kind(v, 'GridVariable', f'{what} {d}')
    need_offset(v, u.offset, f'{what} {d}')
    ctx.same(bc_of(v), u.bc, f'{what} {d} boundary condition')
    ctx.same(grid_of(v), w.grid, f'{what} {d} grid')
    pointwise(v, w.n, lambda *ix: spec(ix)[d], f'{what} {d}', 1)


def term_args(ctx, tm, us, vs, visc, force):
  for name, n in (('C', 1), ('F', 1 if force else 0),
                  ('D', len(us) if visc else 0)):
    need(len(tm.calls(name)) == n, f'{name} evaluated {len(tm.calls(name))} '
         f'times, expected {n}')


def explicit(ctx, nd, types, visc, force):
  w, us, tm = setup(ctx, nd, types)
  f = ctx.call(EQ + 'navier_stokes_explicit_terms', density=RHO,
               viscosity=NU if visc else None, dt=DT, grid=w.grid,
               convect=tm.vec('C'), diffuse=tm.one('D'),
               forcing=tm.vec('F') if force else None)
  vs = tuple(u.var for u in us)
  r = ctx.ip.call(f, [vs], {})
  check_vec(ctx, w, us, r, lambda ix: spec_rhs(us, ix, visc, force), 'dv/dt')
  term_args(ctx, tm, us, vs, visc, force)


def solver_fn():
  return pyfn('custom solver', lambda ip, a, k: None)


def stepped(us, ix, visc, force):
  es = [u.stored(*ix) for u in us]
  rhs = spec_rhs(us, ix, visc, force)
  star = [plus(e, times(DT, r)) for e, r in zip(es, rhs)]
  return [X.apply_op(f'P{d}', tuple(star)) for d in range(len(us))]


def factory(ctx, tm, name, us, visc, force, **kw):
  return ctx.call(name, density=RHO, viscosity=NU if visc else None, dt=DT,
                  grid=tm.w.grid, convect=tm.vec('C'),
                  forcing=tm.vec('F') if force else None, **kw)


def step(ctx, nd, types, visc, force):
  ctx.fresh()
  w, us, tm = setup(ctx, nd, types)
  ctx.ip.overrides.update(tm.overrides())
  try:
    s = solver_fn()
    f = factory(ctx, tm, EQ + 'semi_implicit_navier_stokes', us, visc, force,
                diffuse=tm.one('D'), pressure_solve=s)
    r = ctx.ip.call(f, [tuple(u.var for u in us)], {})
    check_vec(ctx, w, us, r, lambda ix: stepped(us, ix, visc, force), 'step')
    term_args(ctx, tm, us, None, visc, force)
    used(tm, s)
  finally:
    ctx.fresh()


def used(tm, s):
  sv = tm.calls('solver')
  need(len(sv) == 1, f'{len(sv)} projections in one step')
  need(sv[0][1][0] is s, f'pressure solver {short(sv[0][1][0])} instead of '
       'the requested one')


def implicit(ctx, nd, types, force):
  ctx.fresh()
  w, us, tm = setup(ctx, nd, types)
  ctx.ip.overrides.update(tm.overrides())
  try:
    s = solver_fn()
    f = factory(ctx, tm, EQ + 'implicit_diffusion_navier_stokes', us, True,
                force, pressure_solve=s, diffusion_solve=tm.variables('S'))
    r = ctx.ip.call(f, [tuple(u.var for u in us)], {})

    def spec(ix):
      p = stepped(us, ix, False, force)
      return [X.apply_op(f'S{d}', tuple(p) + (over(NU, RHO), DT))
              for d in range(nd)]
    check_vec(ctx, w, us, r, spec, 'step')
    term_args(ctx, tm, us, None, False, force)
    used(tm, s)
    need(len(tm.calls('S')) == 1, 'one diffusion solve per step')
  finally:
    ctx.fresh()


def collocated(ctx, nd, visc, force):
  ctx.fresh()
  w, us, tm = setup(ctx, nd, None, center(nd), CE)
  ctx.ip.overrides.update(tm.overrides())
  try:
    s = solver_fn()
    f = factory(ctx, tm, CE + 'semi_implicit_navier_stokes', us, visc, force,
                diffuse=tm.one('D'), pressure_solve=s)
    r = ctx.ip.call(f, [tuple(u.var for u in us)], {})
    check_vec(ctx, w, us, r, lambda ix: stepped(us, ix, visc, force), 'step')
    term_args(ctx, tm, us, None, visc, force)
    used(tm, s)
  finally:
    ctx.fresh()


# ------------------------------------------------------------- defaults

VL = 'jax_cfd.base.advection.advect_van_leer_using_limiters'


def default_terms(ctx, w, us, mod, name, log):
  """Overrides that tag the default components."""
  def adv(ip, f, v):
    a, c = v['c'], v['v']
    log.append(('advect', v.get('dt')))
    es = [arr_of(u) for u in c]
    return ctx.call('base.grids:GridArray', A.ewise(
        lambda s, *e: X.apply_op('VL', (s, E(v.get('dt'))) + e), arr_of(a),
        *es), offset_of(a), w.grid)

  def dif(ip, f, v):
    log.append(('diffuse', v['nu']))
    return ctx.call('base.grids:GridArray', A.unary(
        lambda s: X.apply_op('D', (s, E(v['nu']))), arr_of(v['c'])),
        offset_of(v['c']), w.grid)

  def proj(ip, f, v):
    log.append(('project', v['solve']))
    es = [arr_of(u) for u in v['v']]
    return tuple(ctx.call('base.grids:GridVariable', ctx.call(
        'base.grids:GridArray', A.ewise(lambda *e, d=d: X.apply_op(
            f'P{d}', e), *es), offset_of(u), w.grid), bc_of(u))
                 for d, u in enumerate(v['v']))

  def sol(ip, f, v):
    log.append(('solve', v['nu'], v['dt']))
    es = [arr_of(u) for u in v['v']]
    return tuple(ctx.call('base.grids:GridVariable', ctx.call(
        'base.grids:GridArray', A.ewise(lambda *e, d=d: X.apply_op(
            f'S{d}', e + (E(v['nu']), E(v['dt']))), *es), offset_of(u),
        w.grid), bc_of(u)) for d, u in enumerate(v['v']))
  return {VL: adv, f'jax_cfd.{mod}.diffusion.diffuse': dif,
          f'jax_cfd.{mod}.pressure.projection': proj,
          'jax_cfd.base.diffusion.solve_fast_diag': sol}


def spec_default(us, ix, visc=True):
  es = [u.stored(*ix) for u in us]
  star = []
  for e in es:
    t = X.apply_op('VL', (e, DT) + tuple(es))
    if visc:
      t = plus(t, X.apply_op('D', (e, over(NU, RHO))))
    star.append(plus(e, times(DT, t)))
  return [X.apply_op(f'P{d}', tuple(star)) for d in range(len(us))]


def run_default(ctx, nd, name, mod, solver, offset, spec):
  ctx.fresh()
  log = []
  w, us, _ = setup(ctx, nd, None, offset)
  ctx.ip.overrides.update(default_terms(ctx, w, us, mod, name, log))
  try:
    f = ctx.call(name, density=RHO, viscosity=NU, dt=DT, grid=w.grid)
    r = ctx.ip.call(f, [tuple(u.var for u in us)], {})
    check_vec(ctx, w, us, r, lambda ix: spec(us, ix), 'step')
    pr = [e for e in log if e[0] == 'project']
    need(len(pr) == 1, f'{len(pr)} projections')
    need(getattr(pr[0][1], 'qual', None) == solver, f'default pressure solver '
         f'{short(pr[0][1])}')
  finally:
    ctx.fresh()


def defaults(ctx, nd):
  run_default(ctx, nd, EQ + 'semi_implicit_navier_stokes', 'base',
              'jax_cfd.base.pressure.solve_fast_diag', None, spec_default)


def idefaults(ctx, nd):
  def spec(us, ix):
    p = spec_default(us, ix, False)
    return [X.apply_op(f'S{d}', tuple(p) + (over(NU, RHO), DT))
            for d in range(nd)]
  run_default(ctx, nd, EQ + 'implicit_diffusion_navier_stokes', 'base',
              'jax_cfd.base.pressure.solve_fast_diag', None, spec)


def cdefaults(ctx, nd):
  run_default(ctx, nd, CE + 'semi_implicit_navier_stokes', 'collocated',
              'jax_cfd.collocated.pressure.solve_cg', center(nd), spec_default)


def stepper(ctx, nd):
  """A custom time stepper receives the equation and the step."""
  ctx.fresh()
  w, us, tm = setup(ctx, nd)
  ctx.ip.overrides.update(tm.overrides())
  try:
    got = []

    def mk(ip, args, kwargs):
      got.append((args, kwargs))
      ode = args[0] if args else kwargs['equation']

      def advance(ip_, a, k):
        k1 = ip.call(ip.getattr(ode, 'explicit_terms'), [a[0]], {})
        return ip.call(ip.getattr(ode, 'pressure_projection'), [k1], {})
      return pyfn('advance', advance)
    s = solver_fn()
    f = factory(ctx, tm, EQ + 'semi_implicit_navier_stokes', us, True, True,
                diffuse=tm.one('D'), pressure_solve=s,
                time_stepper=pyfn('stepper', mk))
    need(len(got) == 1, 'stepper built once')
    args, kw = got[0]
    ctx.same(args[1] if len(args) > 1 else kw['time_step'], DT, 'time step')
    r = ctx.ip.call(f, [tuple(u.var for u in us)], {})

    def spec(ix):
      rhs = spec_rhs(us, ix, True, True)
      return [X.apply_op(f'P{d}', tuple(rhs)) for d in range(nd)]
    check_vec(ctx, w, us, r, spec, 'equation')
    used(tm, s)
  finally:
    ctx.fresh()


# ------------------------------------------------------------- time steps

def mkgrid(ctx, nd, h):
  return ctx.call('base.grids:Grid', (4,) * nd, domain=tuple(
      (0, 4 * (h + k)) for k in range(nd)))


def stable(ctx, nd):
  g = mkgrid(ctx, nd, 2)
  vm, cn = X.sym('vmax', pos=True), X.sym('cour', pos=True)
  r = ctx.call(EQ + 'stable_time_step', vm, cn, NU, g, True)
  ctx.same(E(r), over(times(cn, 2), vm), 'implicit diffusion: CFL only')
  # diffusion bound 4 / (nu 2^nd) against CFL bound 2 c / v
  lim = Fraction(4, 2 ** nd)
  for nu, ok in ((Fraction(1, 10), True), (1, lim >= 2), (3, lim / 3 >= 2),
                 (0, True), (lim / 2, True), (lim, lim / lim >= 2)):
    go = lambda nu=nu: ctx.call(EQ + 'stable_time_step', 1, 1, nu, g)
    if ok:
      ctx.same(E(go()), E(2), f'viscosity {nu}')
    else:
      ctx.raises('ValueError', go)


def dynamic(ctx, nd):
  w = World(ctx, nd, shape=(2,) * nd)
  us = [w.array(f'u{d}', face(nd, d)) for d in range(nd)]
  vs = tuple(w.wrap(arr_of(u), face(nd, d), w.periodic())
             for d, u in enumerate(us))
  cn = X.sym('cour', pos=True)
  g = mkgrid(ctx, nd, 2)
  r = ctx.call(EQ + 'dynamic_time_step', vs, cn, NU, g, True)
  sq = None
  for u in us:
    s = A.unary(lambda e: X.mul(e, e), arr_of(u))
    sq = s if sq is None else A.ewise(X.add, sq, s)
  m = ev(ctx, 'jnp.sqrt(jnp.max(s))', s=sq)
  ctx.same(E(r), over(times(cn, 2), E(m)), 'dynamic step')
