"""M04: component wrappers of the learned models."""
import itertools as it

from props.e01 import *  # pylint: disable=wildcard-import,unused-wildcard-import
from props.rk import State

EXPLANATION = (
    'Every factory is interpreted with unknown components (uninterpreted '
    'functions that record how they are built and called). What the wrapped '
    'component computes is compared with the classical routine given the same '
    'unknown parts, symbolic time steps, constants taken from the '
    'specification object and the same state; builders must receive the grid, '
    'the step and the specification of the caller.')

AD, DI, PR, FO, ML, TI, PS, MB = (
    'ml.advections:', 'ml.diffusions:', 'ml.pressures:', 'ml.forcings:',
    'ml.equations:', 'ml.time_integrators:', 'ml.physics_specifications:',
    'ml.model_builder:')
IN = 'ml.interpolations:'
T2 = X.sym('t2', pos=True)
AT, RT = X.sym('atol', pos=True), X.sym('rtol', pos=True)
BUILD = ('grid', 'dt', 'physics_specs')


def run(ctx):
  for nd in (1, 2, 3):
    for where in ('centre', 'face'):
      for step in ('given', 'absent'):
        k = f'ndim={nd} {where} dt={step}'
        ctx.ob('advection', k, advect, ctx, nd, where, step)
        ctx.ob('advection defaults', k, advect_default, ctx, nd, where, step)
        ctx.ob('shared interpolation', k, shared, ctx, nd, where, step)
    for d in range(nd):
      for kind in ('linear', 'upwind', 'lax_wendroff'):
        ctx.ob('classical interpolation', f'{kind} ndim={nd} axis={d}',
               classical, ctx, nd, d, kind)
      for form in ('default', 'limiter', 'base', 'transformation', 'both'):
        ctx.ob('limited interpolation', f'{form} ndim={nd} axis={d}', limited,
               ctx, nd, d, form)
    ctx.ob('convection', f'ndim={nd}', convect, ctx, nd)
    ctx.ob('convection defaults', f'ndim={nd}', convect_default, ctx, nd)
    ctx.ob('explicit diffusion', f'ndim={nd}', diffuse, ctx, nd)
    for given in (False, True):
      k = f'ndim={nd} options={given}'
      ctx.ob('fast diagonalisation diffusion', k, fast, ctx, nd, given)
      ctx.ob('conjugate gradient diffusion', k, cg, ctx, nd, given)
      ctx.ob('diffusion with closure', k, closure, ctx, nd, given)
      ctx.ob('conjugate gradient pressure', k, pcg, ctx, nd, given)
    ctx.ob('fast diagonalisation pressure', f'ndim={nd}', pfast, ctx, nd)
    for k in (1, 2, 3):
      ctx.ob('sum of forcings', f'ndim={nd} {k}', sums, ctx, nd, k)
    for name in ('semi_implicit_navier_stokes',
                 'implicit_diffusion_navier_stokes'):
      for form in ('given', 'default'):
        ctx.ob('step factory', f'{name} ndim={nd} {form}', factory_, ctx, nd,
               name, form)
      for acc in (0, 1, 2):
        ctx.ob('modular model', f'{name} ndim={nd} accelerations={acc}',
               modular, ctx, nd, name, acc)
    ctx.ob('modular model', f'custom solver ndim={nd}', custom, ctx, nd)
    ctx.ob('modular model', f'defaults ndim={nd}', model_default, ctx, nd)
    ctx.ob('modular model', f'refusals ndim={nd}', refuse, ctx, nd)
    for k in (0, 1, 2):
      for integ in ('default', 'custom'):
        ctx.ob('derivative network', f'ndim={nd} modules={k} {integ}', deriv,
               ctx, nd, k, integ)
  for smooth in (True, False):
    for forced in (True, False):
      for filt in (None, False, True):
        ctx.ob('spectral step', f'smooth={smooth} forcing={forced} '
               f'filter={filt}', spectral, ctx, smooth, forced, filt)
  ctx.ob('spectral step', 'default stepper', spectral_default, ctx)
  for form in ('array', 'tuple', 'variables'):
    ctx.ob('identity', form, identity, ctx, form)
    for v in ('', '_v2', '_v3'):
      if form != 'array' or v != '_v3':
        ctx.ob('corrector', f'learned_corrector{v} {form}', corrector, ctx,
               form, v)
    ctx.ob('modular step model', form, stepmodel, ctx, form)
  ctx.ob('abstract model', '', abstract, ctx)
  for cls, extra in SPECS:
    ctx.ob('specification', cls, specification, ctx, cls, extra)


# ------------------------------------------------------------------ pieces

def bind(names, args, kwargs, what, optional=()):
  need(len(args) <= len(names), f'{what}: {len(args)} arguments')
  got = dict(zip(names, args))
  for k, v in kwargs.items():
    need(k not in got, f'{what}: {k} given twice')
    got[k] = v
  for k in names:
    need(k in got or k in optional, f'{what}: {k} missing')
  return got


class Builder:
  """A component module; records how it is built, returns `make(n)`."""

  def __init__(self, ctx, name, make):
    self.ctx, self.name, self.make, self.log = ctx, name, make, []

  def fn(self):
    def build(ip, args, kwargs):
      self.log.append((args, kwargs))
      return self.make(len(self.log) - 1)
    return pyfn(self.name, build)

  def built(self, grid, dt, specs, count=1, **extra):
    need(self.log, f'{self.name} is not built')
    if count is not None:
      need(len(self.log) == count,
           f'{self.name} built {len(self.log)} times, expected {count}')
    for args, kwargs in self.log:
      got = bind(BUILD, args, kwargs, self.name)
      for k, want in dict(grid=grid, dt=dt, physics_specs=specs).items():
        self.ctx.same(got.pop(k), want, f'{k} given to {self.name}')
      need(set(got) == set(extra), f'{self.name} built with {sorted(got)}, '
           f'expected {sorted(extra)}')
      for k, want in extra.items():
        if isinstance(want, (Opaque, Inst)):
          need(got[k] is want, f'{k} given to {self.name}')
        else:
          self.ctx.same(got[k], want, f'{k} given to {self.name}')


class Opaque:
  """A value nothing can be done with but handing it on."""

  def __repr__(self):
    return 'opaque'


NONE = X.sym('no_time_step')


def interp_stub(ctx, w, name, tags=False):
  """Unknown interpolation: depends on its input, velocity, step and tag."""
  def f(ip, args, kwargs):
    got = bind(('c', 'offset', 'v', 'dt', 'tag'), args, kwargs, name,
               ('dt', 'tag'))
    need(tags or got.get('tag') is None, f'{name} called with a tag')
    o = tuple(Fraction(x) for x in got['offset'])
    dt = NONE if got.get('dt') is None else E(got['dt'])
    op = f'I.{name}.{got.get("tag")}.' + '_'.join(str(x) for x in o)
    c, v = got['c'], got['v']
    es = [arr_of(c)] + [arr_of(u) for u in v]
    a = A.ewise(lambda *e: X.apply_op(op, e + (dt,)), *es)
    g = ctx.ip.call(ctx.ip.get('jax_cfd.base.grids', 'GridArray'),
                    [a, tuple(o), w.grid], {})
    return ctx.ip.call(ctx.ip.get('jax_cfd.base.grids', 'GridVariable'),
                       [g, bc_of(c)], {})
  return pyfn(name, f)


def nspecs(ctx, forcing=None):
  return ctx.ip.call(ctx.ip.get('jax_cfd.ml.physics_specifications',
                                'NavierStokesPhysicsSpecs'), [],
                     dict(forcing_module=forcing, density=RHO, viscosity=NU))


def get(ctx, name):
  mod, attr = name.split(':')
  return ctx.ip.get('jax_cfd.' + mod, attr)


def make(ctx, name, *args, **kwargs):
  """Builds a reference value without moving the report anchor."""
  return ctx.ip.call(get(ctx, name), list(args), kwargs)


def scene(ctx, nd, where='face'):
  w = World(ctx, nd)
  c = w.var('c', center(nd) if where == 'centre' else face(nd, nd - 1))
  return w, c, w.velocity()


def steps(step):
  return (T2,) if step == 'given' else ()


# --------------------------------------------------------------- advections

def advect(ctx, nd, where, step):
  w, c, v = scene(ctx, nd, where)
  ps, ex = nspecs(ctx), Opaque()
  cs, us = interp_stub(ctx, w, 'ci'), interp_stub(ctx, w, 'ui')
  cm = Builder(ctx, 'c_interpolation_module', lambda n: cs)
  um = Builder(ctx, 'u_interpolation_module', lambda n: us)
  f = ctx.call(AD + 'modular_advection', w.grid, DT, ps,
               c_interpolation_module=cm.fn(), u_interpolation_module=um.fn(),
               extra=ex)
  r = ctx.ip.call(f, [c, v] + list(steps(step)), {})
  cm.built(w.grid, DT, ps, extra=ex)
  um.built(w.grid, DT, ps, extra=ex)
  want = make(ctx, 'base.advection:advect_general', c, v, us, cs, *steps(step))
  ctx.same(r, want, 'advection')


def advect_default(ctx, nd, where, step):
  w, c, v = scene(ctx, nd, where)
  f = ctx.call(AD + 'modular_advection', w.grid, DT, nspecs(ctx))
  r = ctx.ip.call(f, [c, v] + list(steps(step)), {})
  want = make(ctx, 'base.advection:advect_general', c, v,
              get(ctx, 'base.interpolation:linear'),
              get(ctx, 'base.interpolation:upwind'), *steps(step))
  ctx.same(r, want, 'advection')


def shared(ctx, nd, where, step):
  """One interpolation module; tag c for the scalar, u for the velocity."""
  w, c, v = scene(ctx, nd, where)
  ps, ex = nspecs(ctx), Opaque()
  st = interp_stub(ctx, w, 'i', True)
  m = Builder(ctx, 'interpolation_module', lambda n: st)
  f = ctx.call(AD + 'modular_self_advection', w.grid, DT, ps, m.fn(), extra=ex)
  r = ctx.ip.call(f, [c, v] + list(steps(step)), {})
  m.built(w.grid, DT, ps, extra=ex)

  def tagged(tag):
    return pyfn(tag, lambda ip, a, k: ip.call(st, a, dict(k, tag=tag)))
  want = make(ctx, 'base.advection:advect_general', c, v, tagged('u'),
              tagged('c'), *steps(step))
  ctx.same(r, want, 'advection')


def classical(ctx, nd, d, kind):
  """The wrapped classical interpolations ignore how they are built."""
  w, c, v = scene(ctx, nd, 'centre')
  f = ctx.call(IN + kind, w.grid, DT, nspecs(ctx), v=v)
  want = get(ctx, 'base.interpolation:' + kind)
  ctx.same(ctx.ip.call(f, [c, face(nd, d), v, T2], {}),
           ctx.ip.call(want, [c, face(nd, d), v, T2], {}), kind)


def limiter_stub(ip, args, kwargs):
  return A.ewise(lambda r: X.apply_op('limiter', (r,)), arr_of(args[0]))


def limited(ctx, nd, d, form):
  """Base interpolation and transformation are the ones given, or defaults."""
  w, c, v = scene(ctx, nd, 'centre')
  ps, ex = nspecs(ctx), Opaque()
  lax, van, tvd = (get(ctx, 'base.interpolation:' + k) for k in (
      'lax_wendroff', 'van_leer_limiter', 'apply_tvd_limiter'))
  lim = pyfn('limiter', limiter_stub)
  st = interp_stub(ctx, w, 'b')
  m = Builder(ctx, 'base_interpolation_module', lambda n: st)
  at = [c, face(nd, d), v, T2]
  if form == 'limiter':
    got = ctx.call(IN + 'tvd_limiter_transformation', st, lim)
    ctx.same(ctx.ip.call(ctx.call(IN + 'tvd_limiter_transformation', st), at,
                         {}),
             ctx.ip.call(ctx.ip.call(tvd, [st, van], {}), at, {}),
             'default limiter')
    want = ctx.ip.call(tvd, [st, lim], {})
  else:
    kw, out = {}, Opaque()
    if form in ('base', 'both'):
      kw['base_interpolation_module'] = m.fn()
    seen = []

    def transformation(ip, args, kwargs):
      seen.append(bind(('interpolation_fn',), args, kwargs, 'transformation'))
      return out
    if form in ('transformation', 'both'):
      kw['transformation'] = pyfn('transformation', transformation)
    got = ctx.call(IN + 'transformed', w.grid, DT, ps, v, **kw)
    base = lax
    if form in ('base', 'both'):
      m.built(w.grid, DT, ps, v=v)
      base = st
    if form in ('transformation', 'both'):
      need(len(seen) == 1, f'transformation applied {len(seen)} times')
      need(got is out, f'returns {short(got)} instead of the transformed '
           'interpolation')
      ctx.same(ctx.ip.call(seen[0]['interpolation_fn'], at, {}),
               ctx.ip.call(base, at, {}), 'interpolation transformed')
      return
    want = ctx.ip.call(tvd, [base, van], {})
  ctx.same(ctx.ip.call(got, at, {}), ctx.ip.call(want, at, {}),
           'limited interpolation')


def advect_stub(ctx, w):
  def f(ip, args, kwargs):
    got = bind(('c', 'v', 'dt'), args, kwargs, 'advection', ('dt',))
    dt = NONE if got.get('dt') is None else E(got['dt'])
    c = got['c']
    es = [arr_of(c)] + [arr_of(u) for u in got['v']]
    return ip.call(get(ctx, 'base.grids:GridArray'), [A.ewise(
        lambda *e: X.apply_op('advect', e + (dt,)), *es), offset_of(c),
                                                     w.grid], {})
  return pyfn('advect', f)


def convect(ctx, nd):
  w, _, v = scene(ctx, nd)
  ps, ex = nspecs(ctx), Opaque()
  st = advect_stub(ctx, w)
  m = Builder(ctx, 'advection_module', lambda n: st)
  f = ctx.call(AD + 'self_advection', w.grid, DT, ps, advection_module=m.fn(),
               v=ex)
  r = ctx.ip.call(f, [v], {})
  m.built(w.grid, DT, ps, v=ex)
  ctx.same(r, tuple(ctx.ip.call(st, [u, v, DT], {}) for u in v), 'convection')


def convect_default(ctx, nd):
  w, _, v = scene(ctx, nd)
  st = interp_stub(ctx, w, 'ci'), interp_stub(ctx, w, 'ui')
  ms = [Builder(ctx, 'c', lambda n: st[0]), Builder(ctx, 'u', lambda n: st[1])]
  f = ctx.call(AD + 'self_advection', w.grid, DT, nspecs(ctx),
               c_interpolation_module=ms[0].fn(),
               u_interpolation_module=ms[1].fn())
  r = ctx.ip.call(f, [v], {})
  ctx.same(r, tuple(make(ctx, 'base.advection:advect_general', u, v, st[1],
                         st[0], DT) for u in v), 'convection')


# --------------------------------------------------------------- diffusions

def diffuse(ctx, nd):
  w, c, _ = scene(ctx, nd)
  f = ctx.call(DI + 'diffuse', w.grid, DT, nspecs(ctx))
  ctx.same(ctx.ip.call(f, [c, NU], {}),
           make(ctx, 'base.diffusion:diffuse', c, NU), 'diffusion')


def recorded(ctx, names, fn):
  """Runs fn with the named routines replaced by recorders."""
  log = {n: [] for n in names}
  marks = {}

  def rec(n):
    def ov(ip, f, v):
      log[n].append(dict(v))
      return marks.setdefault((n, len(log[n])), Opaque())
    return ov
  ctx.ip.overrides.update({'jax_cfd.' + n.replace(':', '.'): rec(n)
                           for n in names})
  try:
    r = fn()
  finally:
    ctx.ip.overrides.clear()
  return r, log, marks


def one_call(ctx, r, log, marks, name, what, **want):
  need(len(log[name]) == 1, f'{what}: {len(log[name])} solves')
  need(r is marks[(name, 1)], f'{what}: returns {short(r)} instead of the '
       'solution')
  got = log[name][0]
  for k, x in want.items():
    if x is None or isinstance(x, (str, bool)):
      need(got.get(k) is x or got.get(k) == x, f'{what}: {k} is '
           f'{short(got.get(k))}, expected {x}')
    else:
      ctx.same(got.get(k), x, f'{what}: {k}')


def fast(ctx, nd, given):
  w, _, v = scene(ctx, nd)
  for impl in ('matmul', 'rfft', 'fft') if given else (None,):
    kw = dict(implementation=impl) if given else {}
    f = ctx.call(DI + 'solve_fast_diag', w.grid, DT, nspecs(ctx), **kw)
    n = 'base.diffusion:solve_fast_diag'
    r, log, marks = recorded(ctx, (n,), lambda: ctx.ip.call(f, [v, NU, T2], {}))
    one_call(ctx, r, log, marks, n, 'solve', v=v, nu=NU, dt=T2,
             implementation=impl)


def solves(ctx, fn):
  n0 = len(ctx.ip.events)
  r = fn()
  return r, [e for e in ctx.ip.events[n0:] if e[0] == 'cg']


def same_solves(ctx, w, got, want, what):
  need(len(got) == len(want), f'{what}: {len(got)} linear solves, expected '
       f'{len(want)}')
  for (_, op, b, opts, _), (_, op2, b2, opts2, _) in zip(got, want):
    ctx.same(b, b2, f'{what}: right-hand side')
    need(set(k for k, x in opts.items() if x is not None) ==
         set(k for k, x in opts2.items() if x is not None),
         f'{what}: options {sorted(opts)}, expected {sorted(opts2)}')
    for k, x in opts2.items():
      if x is None:
        continue
      ctx.same(opts[k], x, f'{what}: {k}')
    probe = probe_like(w, b2)
    ctx.same(ctx.ip.call(op, [probe], {}), ctx.ip.call(op2, [probe], {}),
             f'{what}: operator')


def probe_like(w, b):
  if isinstance(b, tuple):
    return tuple(w.array(f'p{d}', offset_of(u)) for d, u in enumerate(b))
  return w.array('p', offset_of(b))


F5 = Fraction(1, 10 ** 5)


def cg(ctx, nd, given):
  w, _, v = scene(ctx, nd)
  opts = dict(atol=AT, rtol=RT, maxiter=7) if given else {}
  f = ctx.call(DI + 'solve_cg', w.grid, DT, nspecs(ctx), **opts)
  r, got = solves(ctx, lambda: ctx.ip.call(f, [v, NU, T2], {}))
  full = dict(dict(atol=F5, rtol=F5, maxiter=64), **opts)
  want = solves(ctx, lambda: make(ctx, 'base.diffusion:solve_cg', v, NU, T2,
                                  **full))[1]
  same_solves(ctx, w, got, want, 'diffusion')
  for a, u, e in zip(r, v, got):
    ctx.same(arr_of(a), arr_of(e[4]), 'solution')


def evm_stub(ctx, w, log):
  def f(ip, args, kwargs):
    v = bind(('v',), args, kwargs, 'closure')['v']
    log.append(v)
    es = [arr_of(u) for u in v]
    return tuple(ip.call(get(ctx, 'base.grids:GridArray'), [A.ewise(
        lambda *e, d=d: X.apply_op(f'evm{d}', e), *es), offset_of(u), w.grid],
                         {}) for d, u in enumerate(v))
  return pyfn('evm', f)


def closure(ctx, nd, given):
  w, _, v = scene(ctx, nd)
  ps = nspecs(ctx)
  st = evm_stub(ctx, w, [])
  m = Builder(ctx, 'viscosity_module', lambda n: st)
  opts = dict(atol=AT, maxiter=7) if given else {}
  f = ctx.call(DI + 'implicit_evm_solve_with_diffusion', w.grid, DT, ps,
               viscosity_module=m.fn(), **opts)
  r, got = solves(ctx, lambda: ctx.ip.call(f, [v, NU, T2], {}))
  m.built(w.grid, DT, ps)
  full = dict(dict(atol=F5, maxiter=64), **opts)
  want = solves(ctx, lambda: make(
      ctx, 'base.subgrid_models:implicit_evm_solve_with_diffusion', v, NU, T2,
      st, dict(full)))[1]
  same_solves(ctx, w, got, want, 'diffusion with closure')
  for a, e in zip(r, got[0][4]):
    ctx.same(arr_of(a), arr_of(e), 'solution')


# ---------------------------------------------------------------- pressures

def pcg(ctx, nd, given):
  w, _, v = scene(ctx, nd)
  opts = dict(atol=AT, maxiter=7) if given else {}
  f = ctx.call(PR + 'conjugate_gradient', w.grid, DT, nspecs(ctx), **opts)
  q0 = w.var('q', center(nd))
  r, got = solves(ctx, lambda: ctx.ip.call(f, [v, q0], {}))
  full = dict(dict(atol=F5, maxiter=32), **opts)
  want = solves(ctx, lambda: make(ctx, 'base.pressure:solve_cg', v, q0,
                                  **full))[1]
  same_solves(ctx, w, got, want, 'pressure')
  ctx.same(arr_of(r), arr_of(got[0][4]), 'pressure')


def pfast(ctx, nd):
  w, _, v = scene(ctx, nd)
  q0 = w.var('q', center(nd))
  f = ctx.call(PR + 'fast_diagonalization', w.grid, DT, nspecs(ctx))
  n = 'base.pressure:solve_fast_diag'
  r, log, marks = recorded(ctx, (n,), lambda: ctx.ip.call(f, [v, q0], {}))
  one_call(ctx, r, log, marks, n, 'solve', v=v)


# ---------------------------------------------------------------- forcings

def sums(ctx, nd, k):
  w, us, tm = setup(ctx, nd)
  fs = [tm.vec(f'F{j}_') for j in range(k)]
  f = ctx.call(FO + 'sum_forcings', *fs)
  r = ctx.ip.call(f, [tuple(u.var for u in us)], {})
  need(isinstance(r, tuple) and len(r) == nd, f'{short(r)}')
  for d, u in enumerate(us):
    need_kind(r[d], 'GridArray', f'forcing {d}')
    need_offset(r[d], u.offset, f'forcing {d}')
    pointwise(r[d], w.n, lambda *ix: plus(*[X.apply_op(
        f'F{j}_{d}', tuple(u.stored(*ix) for u in us)) for j in range(k)]),
              f'forcing {d}', 1)


# -------------------------------------------------------------- step models

class Step:
  """Unknown parts of a step; the projection is an unknown map."""

  def __init__(self, ctx, nd):
    ctx.fresh()
    self.ctx, self.nd = ctx, nd
    self.w, self.us, self.tm = setup(ctx, nd)
    ctx.ip.overrides.update(self.tm.overrides())
    self.v = tuple(u.var for u in self.us)
    self.solver = solver_fn()

  def diffusion(self, name):
    if name.startswith('semi'):
      return self.tm.one('D')
    return self.tm.variables('S')

  def check(self, r, name, terms=1, default=False):
    us = self.us

    def spec(ix):
      es = tuple(u.stored(*ix) for u in us)
      star = []
      for d, e in enumerate(es):
        t = X.apply_op(f'C{d}', es)
        if name.startswith('semi'):
          t = plus(t, X.apply_op('D', (e, over(NU, RHO))))
        for j in range(terms):
          t = plus(t, over(X.apply_op(f'F{j}_{d}', es), RHO))
        star.append(plus(e, times(DT, t)))
      p = [X.apply_op(f'P{d}', tuple(star)) for d in range(self.nd)]
      if not name.startswith('semi'):
        p = [X.apply_op(f'S{d}', tuple(p) + (over(NU, RHO), DT))
             for d in range(self.nd)]
      return p
    check_vec(self.ctx, self.w, us, r, spec, 'step')
    if not default:
      used(self.tm, self.solver)


def factory_(ctx, nd, name, form):
  s = Step(ctx, nd)
  ps = nspecs(ctx)
  m = Builder(ctx, 'diffusion_module', lambda n: s.diffusion(name))
  kw = dict(diffusion_module=m.fn()) if form == 'given' else {}
  dif = {'jax_cfd.base.diffusion.diffuse': lambda ip, f, v: s.tm.one('D').fn(
      ip, (v['c'], v['nu']), {}),
         'jax_cfd.base.diffusion.solve_fast_diag':
         lambda ip, f, v: s.tm.variables('S').fn(
             ip, (v['v'], v['nu'], v['dt']), {})}
  if form == 'given':  # the classical routines must not be used
    dif = {k: lambda ip, f, v: need(False, 'the given diffusion module is not '
                                    'used') for k in dif}
  ctx.ip.overrides.update(dif)
  try:
    f = ctx.call(ML + name, s.w.grid, DT, ps, density=RHO, viscosity=NU,
                 convect=s.tm.vec('C'), forcing=s.tm.vec('F0_'),
                 pressure_solve=s.solver, **kw)
    r = ctx.ip.call(f, [s.v], {})
    s.check(r, name)
    if form == 'given':
      m.built(s.w.grid, DT, ps)
  finally:
    ctx.fresh()


def given_state(got, v, what):
  need(isinstance(got, tuple) and len(got) == len(v) and
       all(a is b for a, b in zip(got, v)),
       f'{what} is given {short(got)} instead of the state')


def modular(ctx, nd, name, acc):
  s = Step(ctx, nd)
  try:
    force = Grid_(ctx, s)
    ps = nspecs(ctx, force.fn())
    dm = Builder(ctx, 'diffusion_module', lambda n: s.diffusion(name))
    cm = Builder(ctx, 'convection_module', lambda n: s.tm.vec('C'))
    pm = Builder(ctx, 'pressure_module', lambda n: s.solver)
    ams = [Builder(ctx, f'acceleration_module {j}',
                   lambda n, j=j: s.tm.vec(f'F{j + 1}_')) for j in range(acc)]
    inner = get(ctx, ML + name)
    solver = pyfn('equation_solver', lambda ip, a, k: ip.call(
        inner, a, dict(k, diffusion_module=dm.fn())))
    model = ctx.call(ML + 'modular_navier_stokes_model', s.w.grid, DT, ps,
                     equation_solver=solver, convection_module=cm.fn(),
                     pressure_module=pm.fn(),
                     acceleration_modules=tuple(a.fn() for a in ams))
    first = s.v
    r = ctx.ip.call(model, [s.v], {})
    s.check(r, name, 1 + acc)
    force.built()
    dm.built(s.w.grid, DT, ps)
    pm.built(s.w.grid, DT, ps)
    for b in [cm] + ams:
      for _, k in b.log:
        given_state(k.get('v'), first, b.name)
        k.pop('v')
      b.built(s.w.grid, DT, ps)
      b.log.clear()
    # a second step starts from the second state alone
    r2 = ctx.ip.call(model, [r], {})
    for b in [cm] + ams:
      given_state(b.log[-1][1].get('v'), r, b.name + ' of the second step')
    fresh = s.tm.calls('C')[-1][1][0]
    for got, want in zip(fresh, r):
      ctx.same(got, want, 'state seen by the second step')
    need(isinstance(r2, tuple) and len(r2) == nd, f'second step: {short(r2)}')
  finally:
    ctx.fresh()


class Grid_:
  """A forcing module: built with the grid only."""

  def __init__(self, ctx, s, force=None):
    self.ctx, self.s, self.log = ctx, s, []
    self.force = force

  def fn(self):
    def build(ip, args, kwargs):
      self.log.append((args, kwargs))
      return self.force or self.s.tm.vec('F0_')
    return pyfn('forcing_module', build)

  def built(self):
    need(self.log, 'forcing module is not used')
    for a, k in self.log:
      got = bind(('grid',), a, k, 'forcing module')
      need(set(got) == {'grid'}, f'forcing module built with {sorted(got)}')
      self.ctx.same(got['grid'], self.s.w.grid, 'grid of the forcing')


def custom(ctx, nd):
  """Everything a custom equation solver is handed."""
  s = Step(ctx, nd)
  try:
    force = Grid_(ctx, s)
    ps = nspecs(ctx, force.fn())
    conv = s.tm.vec('C')
    cm = Builder(ctx, 'convection_module', lambda n: conv)
    pm = Builder(ctx, 'pressure_module', lambda n: s.solver)
    seen = []
    out = s.w.velocity('z')

    def solver(ip, args, kwargs):
      got = bind(BUILD, args, kwargs, 'equation solver')
      seen.append(got)

      def step_(ip_, a, k):
        given_state(a[0], s.v, 'the step')
        return out
      return pyfn('step', step_)
    model = ctx.call(ML + 'modular_navier_stokes_model', s.w.grid, DT, ps,
                     pyfn('solver', solver), cm.fn(), pm.fn())
    r = ctx.ip.call(model, [s.v], {})
    given_state(r, out, 'the result')
    need(len(seen) == 1, f'{len(seen)} step functions built')
    for k, want in dict(grid=s.w.grid, dt=DT, density=RHO, viscosity=NU).items():
      ctx.same(seen[0].get(k), want, k)
    need(seen[0]['physics_specs'] is ps, 'specification object')
    need(seen[0].get('pressure_solve') is s.solver, 'pressure solver')
    need(set(seen[0]) == {'grid', 'dt', 'physics_specs', 'density', 'viscosity',
                          'pressure_solve', 'convect', 'forcing'},
         f'solver arguments {sorted(seen[0])}')
    ctx.same(ctx.ip.call(seen[0]['convect'], [s.v], {}),
             ctx.ip.call(conv, [s.v], {}), 'convection')
    ctx.same(ctx.ip.call(seen[0]['forcing'], [s.v], {}),
             ctx.ip.call(s.tm.vec('F0_'), [s.v], {}), 'forcing')
  finally:
    ctx.fresh()


def model_default(ctx, nd):
  """Default components: implicit diffusion, upwind/linear, fast solvers."""
  s = Step(ctx, nd)
  try:
    force = Grid_(ctx, s)
    ps = nspecs(ctx, force.fn())
    ctx.ip.overrides.update({'jax_cfd.base.diffusion.solve_fast_diag':
                             lambda ip, f, v: s.tm.variables('S').fn(
                                 ip, (v['v'], v['nu'], v['dt']), {})})
    model = ctx.call(ML + 'modular_navier_stokes_model', s.w.grid, DT, ps)
    v = s.w.velocity()
    r = ctx.ip.call(model, [v], {})
    lin, up = (get(ctx, 'base.interpolation:' + k) for k in ('linear', 'upwind'))
    conv = pyfn('convect', lambda ip, a, k: tuple(make(
        ctx, 'base.advection:advect_general', u, a[0], lin, up, DT)
                                                  for u in a[0]))
    want = make(ctx, 'base.equations:implicit_diffusion_navier_stokes',
                density=RHO, viscosity=NU, dt=DT, grid=s.w.grid, convect=conv,
                forcing=s.tm.vec('F0_'))
    ctx.same(r, ctx.ip.call(want, [v], {}), 'step')
    for e in s.tm.calls('solver'):
      need(getattr(e[1][0], 'qual', None) ==
           'jax_cfd.base.pressure.solve_fast_diag',
           f'default pressure solver {short(e[1][0])}')
  finally:
    ctx.fresh()


def refuse(ctx, nd):
  s = Step(ctx, nd)
  try:
    force = Grid_(ctx, s)
    ps = nspecs(ctx, force.fn())
    cm = Builder(ctx, 'convection_module', lambda n: s.tm.vec('C'))
    pm = Builder(ctx, 'pressure_module', lambda n: s.solver)
    model = ctx.call(ML + 'modular_navier_stokes_model', s.w.grid, DT, ps,
                     get(ctx, ML + 'implicit_diffusion_navier_stokes'),
                     cm.fn(), pm.fn())
    for d in range(nd):
      bad = tuple(u.attrs['array'] if i == d else u
                  for i, u in enumerate(s.v))
      ctx.raises('ValueError', lambda: ctx.ip.call(model, [bad], {}))
  finally:
    ctx.fresh()


# ----------------------------------------------------------- other models

def net(name, k):
  """An unknown network on the channels of the last axis."""
  def f(ip, args, kwargs):
    x = M.to_arr(args[0])
    n = x.ndim - 1
    ch = [A.take_index(x, n, c) for c in range(k)]
    return A.stack([A.ewise(lambda *e, c=c: X.apply_op(f'{name}{c}', e), *ch)
                    for c in range(k)], n)
  return pyfn(name, f)


def deriv(ctx, nd, k, integ):
  w = World(ctx, nd)
  x = A.stack([w.data(f'x{d}') for d in range(nd)], nd)
  log = []

  def force(ip, args, kwargs):
    v = bind(('v',), args, kwargs, 'forcing')['v']
    log.append(v)
    es = [arr_of(u) for u in v]
    return tuple(ip.call(get(ctx, 'base.grids:GridArray'), [A.ewise(
        lambda *e, d=d: X.apply_op(f'F{d}', e), *es), offset_of(u), w.grid],
                         {}) for d, u in enumerate(v))

  class S:
    pass
  S.w = w
  fm = Grid_(ctx, S, pyfn('force', force))
  ps = nspecs(ctx, fm.fn())
  ms = [Builder(ctx, f'module {j}', lambda n, j=j: net(f'N{j}_', nd))
        for j in range(k)]
  calls = []

  def integrator(ip, args, kwargs):
    got = bind(('derivative_module', 'initial_state', 'dt', 'num_steps'), args,
               kwargs, 'integrator')
    calls.append(got)
    d = ip.call(got['derivative_module'], [got['initial_state']], {})
    return (A.ewise(lambda a, b: X.apply_op('adv', (a, b, E(got['dt']))),
                    M.to_arr(got['initial_state']), M.to_arr(d)), A.stack([A.ewise(
                        lambda a: X.apply_op('traj', (a,)), M.to_arr(d))], 0))
  kw = dict(time_integrator=pyfn('integrator', integrator))
  f = ctx.call(ML + 'time_derivative_network_model', w.grid, DT, ps,
               tuple(m.fn() for m in ms), **(kw if integ == 'custom' else {}))
  r = ctx.ip.call(f, [x], {})
  fm.built()
  for m in ms:
    m.built(w.grid, DT, ps)
  need(log, 'forcing is not evaluated')
  for v in log:
    need(isinstance(v, tuple) and len(v) == nd, 'velocity of the forcing')
    for d, u in enumerate(v):
      need_kind(u, 'GridVariable', 'velocity of the forcing')
      need_offset(u, face(nd, d), 'velocity of the forcing')
      ctx.same(grid_of(u), w.grid, 'grid')
      for t in bc_of(u).attrs['types']:
        need(tuple(t) == P2, 'velocity of the forcing is not periodic')
  if integ == 'custom':
    need(len(calls) == 1 and int(calls[0]['num_steps']) == 1,
         'one step of the integrator')

  def spec(*ix):
    es = tuple(w.rd(f'x{d}', *ix[:nd]) for d in range(nd))
    y = es
    for j in range(k):
      y = tuple(X.apply_op(f'N{j}_{c}', y) for c in range(nd))
    c = int(E(ix[nd]).const_value())
    t = plus(y[c], X.apply_op(f'F{c}', es))
    return (plus(es[c], times(DT, t)) if integ == 'default' else
            X.apply_op('adv', (es[c], t, DT)))
  pointwise(r, w.n + (nd,), spec, 'state', 1)


def identity(ctx, form):
  st = State(ctx, form)
  f = ctx.call(ML + 'identity_model', st.w.grid, DT, nspecs(ctx))
  st.same(ctx.ip.call(f, [st.init()], {}), lambda es: es, 'state')


def corrector(ctx, form, version):
  st = State(ctx, form)
  ps = nspecs(ctx)
  base = Builder(ctx, 'base solver', lambda n: st.fn('B'))
  seen = []

  def corr(n):
    def f(ip, args, kwargs):
      x = args[0]
      seen.append(x)
      if version != '_v3':
        return ip.call(st.fn('K'), [x], {})
      need(isinstance(x, tuple) and len(x) == 2 * len(st.names),
           f'corrector input {short(x)}')
      es = [arr_of(a) for a in x]
      return st.build([A.ewise(lambda *e, i=i: X.apply_op(f'K{i}', e), *es)
                       for i in range(len(st.names))])
    return pyfn('corrector', f)
  co = Builder(ctx, 'corrector', corr)
  f = ctx.call(ML + 'learned_corrector' + version, st.w.grid, DT, ps,
               base_solver_module=base.fn(), corrector_module=co.fn())
  if form == 'variables':
    # corrections are arrays with the structure of the state
    pass
  r = ctx.ip.call(f, [st.init()], {})
  base.built(st.w.grid, DT, ps)
  co.built(st.w.grid, DT, ps)

  def spec(es):
    n = st.sp('B', es)
    if version == '':
      return tuple(plus(a, b) for a, b in zip(n, st.sp('K', n)))
    arg = es if version == '_v2' else tuple(es) + tuple(n)
    return tuple(plus(a, times(DT, X.apply_op(f'K{i}', tuple(arg))))
                 for i, a in enumerate(n))
  st.same(r, spec, 'state')


def stepmodel(ctx, form):
  st = State(ctx, form)
  ps = nspecs(ctx)
  ms = [Builder(ctx, k, lambda n, k=k: st.fn(k[0])) for k in
        ('advance module', 'encoder module', 'decoder module')]
  for how in ('positional', 'keyword', 'factory'):
    for m in ms:
      m.log.clear()
    cls = get(ctx, MB + 'ModularStepModel')
    fs = [m.fn() for m in ms]
    names = ('advance_module', 'encoder_module', 'decoder_module')
    if how == 'factory':
      f = ctx.call(MB + 'get_model_cls', st.w.grid, DT, ps, model_cls=cls)
      mod = ctx.ip.call(f, [], dict(zip(names, fs)))
    elif how == 'positional':
      mod = ctx.call(MB + 'ModularStepModel', st.w.grid, DT, ps, *fs)
    else:
      mod = ctx.call(MB + 'ModularStepModel', grid=st.w.grid, dt=DT,
                     physics_specs=ps, **dict(zip(names, fs)))
    for m in ms:
      m.built(st.w.grid, DT, ps)
    ctx.same(prop(ctx, mod, 'grid'), st.w.grid, 'grid')
    ctx.same(prop(ctx, mod, 'dt'), DT, 'time step')
    need(prop(ctx, mod, 'physics_specs') is ps, 'specification')
    for name, op in (('advance', 'a'), ('encode', 'e'), ('decode', 'd')):
      st.same(meth(ctx, mod, name, st.init()), lambda es, o=op: st.sp(o, es),
              name)


def abstract(ctx):
  w = World(ctx, 1)
  m = ctx.call(MB + 'DynamicalSystem', w.grid, DT, nspecs(ctx))
  for name in ('encode', 'decode', 'advance'):
    ctx.raises('NotImplementedError', lambda: meth(ctx, m, name, w.data('x')))
  made = []

  def cls(ip, a, k):
    need(not a and not k, 'specification class is called with arguments')
    made.append(Opaque())
    return made[-1]
  r = ctx.call(PS + 'get_physics_specs', pyfn('cls', cls))
  need(len(made) == 1 and r is made[0], 'instance of the specification class')


SPECS = (('BasePhysicsSpecs', ()), ('KsPhysicsSpecs', ()),
         ('NavierStokesPhysicsSpecs', ('density', 'viscosity')),
         ('SpectralNavierStokesPhysicsSpecs', ('viscosity', 'drag', 'smooth')))


def specification(ctx, cls, extra):
  force = pyfn('forcing_module', lambda ip, a, k: None)
  vals = {k: X.sym(k) for k in extra}
  for ob in (ctx.call(PS + cls, force, *vals.values()),
             ctx.call(PS + cls, forcing_module=force, **vals)):
    need(prop(ctx, ob, 'forcing_module') is force, 'forcing module')
    for k, x in vals.items():
      ctx.same(prop(ctx, ob, k), x, k)


# ------------------------------------------------------------------ spectral

def spectral_scene(ctx, smooth, forced):
  w = World(ctx, 2, shape=(4, 4))
  drag = X.sym('drag', pos=True)

  def force(ip, args, kwargs):
    v = args[0]
    return tuple(ip.call(get(ctx, 'base.grids:GridArray'), [
        A.unary(lambda e, d=d: plus(X.sym(f'f{d}'), times(2 + d, e)),
                arr_of(u)), offset_of(u), w.grid], {})
                 for d, u in enumerate(v))

  class S:
    pass
  S.w = w
  fm = Grid_(ctx, S, pyfn('force', force))
  ps = make(ctx, PS + 'SpectralNavierStokesPhysicsSpecs',
            forcing_module=fm.fn() if forced else None, viscosity=NU,
            drag=drag, smooth=smooth)
  return w, drag, fm, ps


def sample_spectrum(w):
  """Spectrum of an unknown real field."""
  return A.field('x', w.n, (True, True))


def spectral(ctx, smooth, forced, filt):
  w, drag, fm, ps = spectral_scene(ctx, smooth, forced)
  eqs = []

  def stepper(ip, args, kwargs):
    got = bind(('equation', 'time_step'), args, kwargs, 'stepper')
    eqs.append(got)
    eq = got['equation']

    def advance(ip_, a, k):
      ex = ip_.call(ip_.getattr(eq, 'explicit_terms'), [a[0]], {})
      im = ip_.call(ip_.getattr(eq, 'implicit_terms'), [a[0]], {})
      so = ip_.call(ip_.getattr(eq, 'implicit_solve'), [a[0], T2], {})
      return ev(ctx, 'x + dt * (e + c * i + b * s)', x=a[0], e=ex, i=im, s=so,
                dt=got['time_step'], c=X.sym('cc'), b=X.sym('bb'))
    return pyfn('advance', advance)
  kw = {} if filt is None else dict(do_filter_step=filt)
  st = pyfn('stepper', stepper)
  f = ctx.call(ML + 'modular_spectral_step_fn', w.grid, DT, ps,
               time_stepper=st, **kw)
  x = ev(ctx, 'jnp.fft.rfft2(x)', x=sample_spectrum(w))
  r = ctx.ip.call(f, [x], {})
  need(len(eqs) == 1, f'{len(eqs)} steppers built')
  ctx.same(eqs[0]['time_step'], DT, 'time step')
  if forced:
    fm.built()
  eq = make(ctx, 'spectral.equations:NavierStokes2D', NU, w.grid, drag=drag,
            smooth=smooth, forcing_fn=fm.fn() if forced else None)
  want = ctx.ip.call(ctx.ip.call(st, [eq, DT], {}), [x], {})
  if filt:
    want = ev(ctx, 'jnp.fft.rfft2(flt(jnp.fft.irfft2(y)))', y=want,
              flt=get(ctx, 'spectral.utils:exponential_filter'))
  ctx.same(r, want, 'step')


def spectral_default(ctx):
  w, drag, fm, ps = spectral_scene(ctx, True, True)
  n = 'spectral.time_stepping:crank_nicolson_rk4'
  del drag
  r, log, marks = recorded(ctx, (n,), lambda: ctx.call(
      ML + 'modular_spectral_step_fn', w.grid, DT, ps))
  need(len(log[n]) == 1, 'the default stepper is Crank-Nicolson with RK4')
  need(r is marks[(n, 1)], 'the step function of the stepper')
  ctx.same(log[n][0].get('time_step'), DT, 'time step')
