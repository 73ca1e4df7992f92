"""C01: eddy viscosity closures."""
from props.fdlaw import *  # pylint: disable=wildcard-import,unused-wildcard-import

EXPLANATION = (
    'The Smagorinsky viscosity is interpreted with an unknown strain tensor and '
    'an unknown interpolation method and compared, at every tensor location, '
    'with (c width)^2 sqrt(2 S:S) of the centred strain interpolated there. '
    'The closure is interpreted with an unknown viscosity tensor: the strain '
    'handed to it and the divergence of 2 nu S are compared with their '
    'stencils, and for uniform viscosity with nu (laplacian + grad div). The '
    'implicit solve is judged by the operator and right-hand side given to the '
    'conjugate gradient routine, the solver wrappers by their use of both.')

SM, VI = 'base.subgrid_models:', 'ml.viscosities:'
FD = 'base.finite_differences:'
DT, CS, NU, RHO = (X.sym('dt', pos=True), X.sym('cs', pos=True),
                   X.sym('nu', pos=True), X.sym('rho', pos=True))
REFUSE = ('ValueError', 'NotImplementedError', 'AssertionError')


def run(ctx):
  for nd in (1, 2, 3):
    for where in ('strain', 'corners'):
      for form in ('given', 'default'):
        ctx.ob('smagorinsky viscosity', f'ndim={nd} {where} {form}', smag, ctx,
               nd, where, form)
    ctx.ob('strain and stress', f'ndim={nd}', evm, ctx, nd)
    ctx.ob('uniform viscosity', f'ndim={nd}', uniform, ctx, nd)
    ctx.ob('periodic only', f'ndim={nd}', refusals, ctx, nd)
    ctx.ob('implicit equation', f'ndim={nd}', implicit, ctx, nd)
    for force in (False, True):
      ctx.ob('explicit solver', f'ndim={nd} forcing={force}', solver, ctx, nd,
             force)
    ctx.ob('implicit solver', f'ndim={nd}', isolver, ctx, nd)
    for scale in (False, True):
      ctx.ob('learned model', f'ndim={nd} scale={scale}', model, ctx, nd, scale)
    ctx.ob('learned smagorinsky', f'ndim={nd}', msmag, ctx, nd)
    for kind in ('scalar', 'gradients', 'tensor'):
      for where in ('strain', 'corners'):
        ctx.ob('learned viscosity', f'{kind} ndim={nd} {where}', learned, ctx,
               nd, kind, where)


# ------------------------------------------------------------ pieces

def soff(nd, i, j, where='strain'):
  """Offset of the (i, j) strain."""
  if where == 'corners':
    return tuple((i + j + d) % 2 for d in range(nd))
  o = list(face(nd, i))
  o[j] += HALF
  return tuple(Fraction(x) for x in o)


def el(name, i, j):
  """Symmetric tensors: one name per unordered pair."""
  return f'{name}{min(i, j)}{max(i, j)}'


def tensor(ctx, w, name, where='strain'):
  nd = w.ndim
  rows = [[w.array(el(name, i, j), soff(nd, i, j, where)) for j in range(nd)]
          for i in range(nd)]
  return ctx.make('base.grids:GridArrayTensor', rows)


def elem(t, i, j):
  return ev_get(t)[i][j]


def ev_get(t):
  if isinstance(t, Inst) and '__tuple__' in t.attrs:
    t = t.attrs['__tuple__']
  a = t
  need(getattr(a, 'shape', None) is not None and len(a.shape) == 2,
       f'expected a tensor of rank 2, got {short(t)}')
  return [[a[i, j] for j in range(a.shape[1])] for i in range(a.shape[0])]


def interp_op(offset, c):
  return X.apply_op('interp[' + ','.join(map(str, offset)) + ']', (c,))


class Interp:
  """An unknown interpolation method, recording its arguments."""

  def __init__(self, ctx, w):
    self.ctx, self.w, self.log = ctx, w, []

  def fn(self):
    def f(ip, args, kwargs):
      names = ('c', 'offset', 'v', 'dt')
      got = dict(zip(names, args))
      got.update(kwargs)
      self.log.append(got)
      c = got['c']
      need_kind(c, 'GridVariable', 'interpolated quantity')
      o = tuple(Fraction(x) if not isinstance(x, Expr) else x.const_value()
                for x in got['offset'])
      g = self.ctx.ip.call(self.ctx.ip.get('jax_cfd.base.grids', 'GridArray'), [
          A.unary(lambda e: interp_op(o, e), arr_of(c)), o, self.w.grid], {})
      return self.ctx.ip.call(self.ctx.ip.get(
          'jax_cfd.base.grids', 'GridVariable'), [g, bc_of(c)], {})
    return pyfn('interpolate', f)

  def check(self, v, dt):
    """Every use got the velocity and step, on periodic quantities."""
    need(self.log, 'the interpolation method is never used')
    for k in self.log:
      need(k.get('v') is v or not diff_(k.get('v'), v),
           'interpolation is not given the velocity')
      need(k.get('dt') is dt or not diff_(k.get('dt'), dt),
           f'interpolation is given step {short(k.get("dt"))}')
      for t in bc_of(k['c']).attrs['types']:
        need(tuple(t) == P2, 'interpolated quantity is not periodic')


def diff_(a, b):
  return diff(a, b)


def smag_spec(w, name, cs, interp):
  """viscosity at `offset`, through interp(value, from, to)."""
  nd = w.ndim

  def visc(offset, where, ix):
    s = [[interp_op(center(nd), w.rd(el(name, i, j), *ix))
          for j in range(nd)] for i in range(nd)]
    tr = plus(*[times(s[i][j], s[j][i]) for i in range(nd) for j in range(nd)])
    vol = times(*w.h)
    v = times(cs, cs, X.power(vol, Fraction(2, nd)),
              X.power(times(2, tr), HALF))
    return interp_op(offset, v)
  return visc


def smag(ctx, nd, where, form):
  w = World(ctx, nd)
  v = w.velocity()
  s = tensor(ctx, w, 's', where)
  it_ = Interp(ctx, w)
  if form == 'default':
    lin = ctx.ip.get('jax_cfd.base.interpolation', 'linear')
    a = ctx.call(SM + 'smagorinsky_viscosity', s, v, None, Fraction(1, 5), lin)
    b = ctx.call(SM + 'smagorinsky_viscosity', s, v)
    for i in range(nd):
      for j in range(nd):
        ctx.same(arr_of(elem(b, i, j)), arr_of(elem(a, i, j)),
                 f'viscosity {i, j}')
    return
  r = ctx.call(SM + 'smagorinsky_viscosity', s, v, dt=DT, cs=CS,
               interpolate_fn=it_.fn())
  it_.check(v, DT)
  spec = smag_spec(w, 's', CS, it_)
  tensor_is(ctx, w, r, where, lambda o, i, j, ix: spec(o, where, ix),
            'viscosity')


def tensor_is(ctx, w, r, where, spec, what):
  nd = w.ndim
  need_kind_tensor(r)
  for i in range(nd):
    for j in range(nd):
      e = elem(r, i, j)
      need_kind(e, 'GridArray', f'{what} {i, j}')
      o = soff(nd, i, j, where)
      need_offset(e, o, f'{what} {i, j}')
      ctx.same(grid_of(e), w.grid, 'grid')
      pointwise(e, w.n, lambda *ix: spec(o, i, j, ix), f'{what} {i, j}', 1)


def need_kind_tensor(r):
  ev_get(r)


def fwd(f, w, ix, d):
  return over(minus(f(*shifted(ix, d, 1)), f(*ix)), w.h[d])


def bwd(f, w, ix, d):
  return over(minus(f(*ix), f(*shifted(ix, d, -1))), w.h[d])


def strain(us, w, i, j):
  f = lambda k: us[k].val
  return lambda *ix: times(HALF, plus(fwd(f(i), w, ix, j), fwd(f(j), w, ix, i)))


def fields(ctx, w):
  return [Field(ctx, w, f'u{d}', face(w.ndim, d)) for d in range(w.ndim)]


def nu_fn(ctx, w, log, uniform_=False):
  def f(ip, args, kwargs):
    log.append((args, kwargs))
    t = tensor(ctx, w, 'nu')
    if uniform_:
      rows = [[w.wrap(const_field(w.n, NU), soff(w.ndim, i, j))
               for j in range(w.ndim)] for i in range(w.ndim)]
      t = ctx.make('base.grids:GridArrayTensor', rows)
    return t
  return pyfn('viscosity', f)


def check_accel(ctx, w, us, r, spec, what):
  need(isinstance(r, tuple) and len(r) == len(us),
       f'one component per velocity component, got {short(r)}')
  for d, u in enumerate(us):
    need_kind(r[d], 'GridArray', f'{what} {d}')
    need_offset(r[d], u.offset, f'{what} {d}')
    ctx.same(grid_of(r[d]), w.grid, 'grid')
    pointwise(r[d], w.n, lambda *ix: spec(d, ix), f'{what} {d}', 1)


def evm(ctx, nd):
  w = World(ctx, nd)
  us = fields(ctx, w)
  v = tuple(u.var for u in us)
  log = []
  f = nu_fn(ctx, w, log)
  r = ctx.call(SM + 'evm_model', v, f)
  need(len(log) == 1, f'viscosity evaluated {len(log)} times')
  args, kwargs = log[0]
  got = dict(zip(('s_ij', 'v'), args))
  got.update(kwargs)
  ctx.same(got['v'], v, 'velocity handed to the viscosity function')
  tensor_is(ctx, w, got['s_ij'], 'strain',
            lambda o, i, j, ix: strain(us, w, i, j)(*ix), 'strain')

  def acc(d, ix):
    return plus(*[bwd(lambda *k, j=j: times(
        2, w.rd(el('nu', d, j), *k), strain(us, w, d, j)(*k)), w, ix, j)
                  for j in range(nd)])
  check_accel(ctx, w, us, r, acc, 'acceleration')


def uniform(ctx, nd):
  w = World(ctx, nd)
  us = fields(ctx, w)
  f = nu_fn(ctx, w, [], True)
  r = ctx.call(SM + 'evm_model', tuple(u.var for u in us), f)

  def div(*ix):
    return plus(*[bwd(u.val, w, ix, d) for d, u in enumerate(us)])

  def lap_(u, ix):
    return plus(*[over(plus(u.sh(ix, d, 1), times(-2, u.val(*ix)),
                            u.sh(ix, d, -1)), times(w.h[d], w.h[d]))
                  for d in range(nd)])
  check_accel(ctx, w, us, r, lambda d, ix: times(NU, plus(
      lap_(us[d], ix), fwd(div, w, ix, d))), 'acceleration')


def refusals(ctx, nd):
  for k in (D2, N2):
    for d in range(nd):
      w = World(ctx, nd)
      types = tuple(k if a == d else P2 for a in range(nd))
      bad = tuple(Field(ctx, w, f'b{a}', center(nd), types).var
                  for a in range(nd))
      s = tensor(ctx, w, 's')
      f = nu_fn(ctx, w, [])
      ctx.raises(REFUSE, lambda: ctx.call(SM + 'evm_model', bad, f))
      ctx.raises(REFUSE, lambda: ctx.call(SM + 'smagorinsky_viscosity', s, bad))
      ctx.raises(REFUSE, lambda: ctx.call(
          SM + 'implicit_evm_solve_with_diffusion', bad, NU, DT, f))
      if nd > 1:
        for a in range(nd):
          mix = tuple(Field(ctx, w, f'm{b}', face(nd, b),
                            types if a == b and d != b else None).var
                      for b in range(nd))
          if a == d:
            continue
          ctx.raises(REFUSE, lambda: ctx.call(SM + 'evm_model', mix, f))
          ctx.raises(REFUSE, lambda: ctx.call(
              SM + 'smagorinsky_viscosity', s, mix))
          ctx.raises(REFUSE, lambda: ctx.call(
              SM + 'implicit_evm_solve_with_diffusion', mix, NU, DT, f))


def accel_fn(w, name='evm', log=None):
  def f(ip, args, kwargs):
    v = args[0]
    if log is not None:
      log.append(v)
    es = [arr_of(u) for u in v]
    return tuple(w.wrap(A.ewise(lambda *e, d=d: X.apply_op(
        f'{name}{d}', e), *es), offset_of(u)) for d, u in enumerate(v))
  return pyfn(name, f)


def implicit(ctx, nd):
  w = World(ctx, nd)
  us = fields(ctx, w)
  for kw in (None, {'tol': X.sym('tol'), 'maxiter': 5}):
    log = []
    n0 = len(ctx.ip.events)
    f = accel_fn(w, log=log)
    args = () if kw is None else (dict(kw),)
    r = ctx.call(SM + 'implicit_evm_solve_with_diffusion',
                 tuple(u.var for u in us), NU, DT, f, *args)
    evs = [e for e in ctx.ip.events[n0:] if e[0] == 'cg']
    need(len(evs) == 1, f'{len(evs)} linear solves, expected one coupled solve')
    _, op, b, opts, sol = evs[0]
    for d, u in enumerate(us):
      ctx.same(arr_of(b[d]), arr_of(u.var), f'right-hand side {d}')
      need_kind(r[d], 'GridVariable', f'result {d}')
      need_offset(r[d], u.offset, f'result {d}')
      ctx.same(bc_of(r[d]), u.bc, f'result {d} boundary condition')
      ctx.same(arr_of(r[d]), arr_of(sol[d]), f'result {d}')
    probe = tuple(w.array(f'p{d}', u.offset) for d, u in enumerate(us))
    y = ctx.ip.call(op, [probe], {})
    need(len(y) == nd, f'operator returns {len(y)} components')
    for u in log[-1]:
      need_kind(u, 'GridVariable', 'velocity given to the closure')
      for t in bc_of(u).attrs['types']:
        need(tuple(t) == P2, 'closure velocity is not periodic')
    for d, u in enumerate(us):
      need_offset(y[d], u.offset, f'operator {d}')
      pr = lambda *ix, d=d: w.rd(f'p{d}', *ix)

      def spec(*ix):
        es = [w.rd(f'p{k}', *ix) for k in range(nd)]
        lap_ = plus(*[over(plus(pr(*shifted(ix, a, 1)), times(-2, pr(*ix)),
                                pr(*shifted(ix, a, -1))), times(w.h[a], w.h[a]))
                      for a in range(nd)])
        return minus(pr(*ix), times(DT, plus(X.apply_op(f'evm{d}', es),
                                             times(NU, lap_))))
      pointwise(y[d], w.n, spec, f'operator {d}', 1)
    for k, want in (kw or {'tol': Fraction(1, 10 ** 6)}).items():
      ctx.same(opts.get(k), want, k)


# ------------------------------------------------------------ solvers

def stubs(ctx, nd, w):
  """Summaries: closure acceleration and projection."""
  def evm_ov(ip, f, v):
    fn = v['viscosity_fn']
    return accel_fn(w, 'S').fn(ip, (v['v'],), {})
  return {'jax_cfd.base.subgrid_models.evm_model': evm_ov}


def common_kw(ctx, w, us):
  conv = accel_fn(w, 'C')

  def proj(ip, f, v):
    us_ = v['v']
    es = [arr_of(u) for u in us_]
    return tuple(ctx.ip.call(ctx.ip.get(
        'jax_cfd.base.grids', 'GridVariable'), [w.wrap(A.ewise(
            lambda *e, d=d: X.apply_op(f'P{d}', e), *es), offset_of(u)),
                                        bc_of(u)], {})
                 for d, u in enumerate(us_))
  return conv, proj


def solver(ctx, nd, force):
  w = World(ctx, nd)
  us = fields(ctx, w)
  conv, proj = common_kw(ctx, w, us)
  seen = []

  def smag_ov(ip, f, v):
    seen.append(v)
    t = tensor(ctx, w, 'nu')
    return t
  ctx.ip.overrides.update({
      'jax_cfd.base.pressure.projection': proj,
      'jax_cfd.base.subgrid_models.smagorinsky_viscosity': smag_ov})
  try:
    step = ctx.call(
        SM + 'explicit_smagorinsky_navier_stokes', DT, CS,
        accel_fn(w, 'F') if force else None, density=RHO, viscosity=NU,
        grid=w.grid, convect=conv)
    v = tuple(u.var for u in us)
    r = ctx.ip.call(step, [v], {})
  finally:
    ctx.ip.overrides.clear()
  need(seen, 'the Smagorinsky viscosity is not used')
  for s in seen:
    ctx.same(s['cs'], CS, 'Smagorinsky constant')
    ctx.same(s['dt'], DT, 'time step of the interpolation')

  def ustar(d, ix):
    es = [u.val(*ix) for u in us]
    acc = plus(*[bwd(lambda *k, j=j: times(
        2, w.rd(el('nu', d, j), *k), strain(us, w, d, j)(*k)), w, ix, j)
                 for j in range(nd)])
    u = us[d]
    lap_ = plus(*[over(plus(u.sh(ix, a, 1), times(-2, u.val(*ix)),
                            u.sh(ix, a, -1)), times(w.h[a], w.h[a]))
                  for a in range(nd)])
    t = plus(X.apply_op(f'C{d}', es), times(over(NU, RHO), lap_), acc)
    if force:
      t = plus(t, over(X.apply_op(f'F{d}', es), RHO))
    return plus(u.val(*ix), times(DT, t))
  for d, u in enumerate(us):
    need_kind(r[d], 'GridVariable', f'component {d}')
    need_offset(r[d], u.offset, f'component {d}')
    pointwise(r[d], w.n, lambda *ix: X.apply_op(
        f'P{d}', [ustar(k, ix) for k in range(nd)]), f'velocity {d}', 1)


def isolver(ctx, nd):
  """The implicit step: projection, then one solve with closure."""
  w = World(ctx, nd)
  us = fields(ctx, w)
  conv, proj = common_kw(ctx, w, us)
  seen = []

  def smag_ov(ip, f, v):
    seen.append(v)
    return tensor(ctx, w, 'nu')
  ctx.ip.overrides.update({
      'jax_cfd.base.pressure.projection': proj,
      'jax_cfd.base.subgrid_models.smagorinsky_viscosity': smag_ov})
  n0 = len(ctx.ip.events)
  try:
    step = ctx.call(
        SM + 'implicit_smagorinsky_navier_stokes', DT, CS, density=RHO,
        viscosity=NU, grid=w.grid, convect=conv, forcing=accel_fn(w, 'F'))
    r = ctx.ip.call(step, [tuple(u.var for u in us)], {})
    evs = [e for e in ctx.ip.events[n0:] if e[0] == 'cg']
    need(len(evs) == 1, f'{len(evs)} linear solves, expected one')
    _, op, b, _, sol = evs[0]
    ps = [Field(ctx, w, f'p{d}', u.offset) for d, u in enumerate(us)]
    y = ctx.ip.call(op, [tuple(p.var.attrs['array'] for p in ps)], {})
  finally:
    ctx.ip.overrides.clear()
  need(seen, 'the Smagorinsky viscosity is not used')
  for s in seen:
    ctx.same(s['cs'], CS, 'Smagorinsky constant')
    ctx.same(s['dt'], DT, 'time step of the interpolation')

  def ustar(d, ix):
    es = [u.val(*ix) for u in us]
    return plus(us[d].val(*ix), times(DT, plus(
        X.apply_op(f'C{d}', es), over(X.apply_op(f'F{d}', es), RHO))))
  for d, u in enumerate(us):
    pointwise(b[d], w.n, lambda *ix: X.apply_op(
        f'P{d}', [ustar(k, ix) for k in range(nd)]), f'right-hand side {d}', 1)
    ctx.same(arr_of(r[d]), arr_of(sol[d]), f'velocity {d}')

    def spec(*ix):
      p = ps[d]
      lap_ = plus(*[over(plus(p.sh(ix, a, 1), times(-2, p.val(*ix)),
                              p.sh(ix, a, -1)), times(w.h[a], w.h[a]))
                    for a in range(nd)])
      acc = plus(*[bwd(lambda *k, j=j: times(
          2, w.rd(el('nu', d, j), *k), strain(ps, w, d, j)(*k)), w, ix, j)
                   for j in range(nd)])
      return minus(p.val(*ix), times(DT, plus(acc, times(over(NU, RHO), lap_))))
    pointwise(y[d], w.n, spec, f'operator {d}', 1)


# ------------------------------------------------------------ learned models

def module_of(ctx, w, interp, log):
  def f(ip, args, kwargs):
    log.append((args, kwargs))
    return interp.fn()
  return pyfn('interpolation_module', f)


def specs(ctx):
  return ctx.call('ml.physics_specifications:NavierStokesPhysicsSpecs',
                  forcing_module=None, density=RHO, viscosity=NU)


def model(ctx, nd, scale):
  w = World(ctx, nd)
  us = fields(ctx, w)
  v = tuple(u.var for u in us)
  ps, log, vlog = specs(ctx), [], []
  sc = X.sym('scale')

  def mod(ip, args, kwargs):
    log.append((args, kwargs))
    return nu_fn(ctx, w, vlog)
  fn = ctx.call(VI + 'eddy_viscosity_model', w.grid, DT, ps,
                viscosity_model=pyfn('viscosity_model', mod),
                **({'viscosity_scale': sc} if scale else {}))
  r = ctx.ip.call(fn, [v], {})
  need(len(log) == 1, f'viscosity model built {len(log)} times')
  got = dict(zip(('grid', 'dt', 'physics_specs', 'viscosity_scale'), log[0][0]))
  got.update(log[0][1])
  for k, want in (('grid', w.grid), ('dt', DT), ('physics_specs', ps),
                  ('viscosity_scale', sc if scale else NU)):
    ctx.same(got.get(k), want, k)
  want = ctx.call(SM + 'evm_model', v, nu_fn(ctx, w, []))
  for d in range(nd):
    ctx.same(r[d], want[d], f'acceleration {d}')


def msmag(ctx, nd):
  w = World(ctx, nd)
  v = w.velocity()
  ps, log = specs(ctx), []
  it_ = Interp(ctx, w)
  s = tensor(ctx, w, 's')
  fn = ctx.call(VI + 'smagorinsky_viscosity', w.grid, DT, ps, NU, CS,
                module_of(ctx, w, it_, log))
  r = ctx.ip.call(fn, [s, v], {})
  need(len(log) >= 1, 'interpolation module unused')
  for args, kw in log:
    got = dict(zip(('grid', 'dt', 'physics_specs'), args))
    got.update(kw)
    for k, want in (('grid', w.grid), ('dt', DT), ('physics_specs', ps)):
      ctx.same(got.get(k), want, k)
  it_.check(v, DT)
  spec = smag_spec(w, 's', CS, it_)
  tensor_is(ctx, w, r, 'strain', lambda o, i, j, ix: spec(o, 'strain', ix),
            'viscosity')


def learned(ctx, nd, kind, where):
  w = World(ctx, nd)
  v = w.velocity()
  ps, log, nets = specs(ctx), [], []
  it_ = Interp(ctx, w)
  s = tensor(ctx, w, 's', where)
  sc = X.sym('scale', pos=True)

  def factory(ip, args, kwargs):
    got = dict(zip(('num_output_channels', 'ndim'), args))
    got.update(kwargs)
    need(int(got['ndim']) == nd, f'network of {got["ndim"]} dimensions')
    n_out = int(got['num_output_channels'])

    def net(ip2, a, k):
      x = M.to_arr(a[0])
      nets.append(n_out)
      nc = x.shape[-1]
      chans = [A.take_index(x, nd, c) for c in range(nc)]
      return A.stack([A.ewise(lambda *e, c=c: X.apply_op(f'net{c}', e), *chans)
                      for c in range(n_out)], nd)
    return pyfn('net', net)
  kw = dict(tower_factory=pyfn('tower_factory', factory))
  if kind != 'tensor':
    kw['interpolate_module'] = module_of(ctx, w, it_, log)
  name = {'scalar': 'learned_scalar_viscosity',
          'gradients': 'learned_scalar_viscosity_from_gradients',
          'tensor': 'learned_tensor_viscosity'}[kind]
  fn = ctx.call(VI + name, w.grid, DT, ps, sc, **kw)
  r = ctx.ip.call(fn, [s, v], {})
  for args, k_ in log:
    got = dict(zip(('grid', 'dt', 'physics_specs'), args))
    got.update(k_)
    for k, want in (('grid', w.grid), ('dt', DT), ('physics_specs', ps)):
      ctx.same(got.get(k), want, k)
  if kind != 'tensor':
    it_.check(v, DT)
  need(len(nets) == 1, f'{len(nets)} network evaluations')
  total = plus(sc, Fraction(1, 10 ** 6))
  inputs = lambda ix: [w.rd(f'u{d}', *ix) for d in range(nd)]
  if kind == 'gradients':
    inputs = lambda ix: [interp_op(center(nd), w.rd(el('s', i, j), *ix))
                         for i in range(nd) for j in range(nd)]
  if kind != 'tensor':
    tensor_is(ctx, w, r, where, lambda o, i, j, ix: interp_op(
        o, times(total, X.apply_op('net0', inputs(ix)))), 'viscosity')
    return
  offs = [soff(nd, i, j, where) for i in range(nd) for j in range(nd)]
  need(nets[0] == len(set(offs)), f'{nets[0]} outputs for {len(set(offs))} '
       'locations')
  chan = {}
  for i in range(nd):
    for j in range(nd):
      e = at(arr_of(elem(r, i, j)), [(None, X.idx(d)) for d in range(nd)])
      o = soff(nd, i, j, where)
      for c in range(nets[0]):
        if X.equal(e, times(total, X.apply_op(f'net{c}', inputs(
            [X.idx(d) for d in range(nd)])))):
          need(chan.setdefault(o, c) == c, f'two channels at {fmt(o)}')
          break
      else:
        need(False, f'viscosity {i, j} is {X.show(e)}')
  need(len(set(chan.values())) == len(chan), 'locations share a channel')
  tensor_is(ctx, w, r, where, lambda o, i, j, ix: times(
      total, X.apply_op(f'net{chan[o]}', inputs(ix))), 'viscosity')
