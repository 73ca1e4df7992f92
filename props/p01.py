"""P01: pressure projection."""
import itertools as it

from props.diag import *  # pylint: disable=wildcard-import,unused-wildcard-import

EXPLANATION = (
    'projection is interpreted with an unknown pressure solver and its result '
    'compared entry by entry with velocity minus the gradient of the returned '
    'potential under the derived pressure condition; the divergence of that '
    'result is derived to be div(v) - Laplacian(q). Each solver is shown to '
    'pose Laplacian(q) = div(v): the conjugate gradient operator and '
    'right-hand side on generic fields, the diagonalised solver through the '
    'matrices, scalar function and right-hand side it hands to `transform` '
    '(whose meaning is property L01).')

BP, CP = 'base.pressure:', 'collocated.pressure:'
FDM = 'base.finite_differences:'


def tname(types):
  return '/'.join(t[0][0] + t[1][0] for t in types)


def run(ctx):
  for nd in (1, 2, 3):
    for types in it.product((P2, D2), repeat=nd):
      t = f'ndim={nd} {tname(types)}'
      ctx.ob('projection', t, projection, ctx, nd, types)
      ctx.ob('cg equation', t, cg, ctx, nd, types)
    ctx.ob('collocated projection', f'ndim={nd}', col_projection, ctx, nd)
    ctx.ob('collocated cg equation', f'ndim={nd}', col_cg, ctx, nd)
    ctx.ob('collocated refusal', f'ndim={nd}', col_refuses, ctx, nd)
  for nd, shape in ((1, (4,)), (1, (5,)), (2, (4, 3)), (2, (3, 4)),
                    (3, (3, 4, 3))):
    for types in it.product((P2, D2), repeat=nd):
      if nd == 3 and types not in ((P2,) * 3, (P2, D2, P2), (D2, P2, D2)):
        continue
      for solver in ('solve_fast_diag', 'solve_fast_diag_channel_flow'):
        ctx.ob('diagonalised solve', f'{solver} shape={shape} {tname(types)}',
               fast, ctx, nd, shape, types, solver)
    for types in it.product((P2, D2, N2, DN, ND_), repeat=nd):
      if nd == 3 and types not in ((N2, DN, P2), (P2, N2, D2)):
        continue
      if any(t in (D2, DN, ND_) for t in types):
        ctx.ob('stated pressure condition', f'shape={shape} {tname(types)}',
               stated, ctx, nd, shape, types)
    for impl in ('matmul', 'fft', 'rfft'):
      ctx.ob('implementation choice', f'shape={shape} {impl}', implement, ctx,
             nd, shape, impl)
    ctx.ob('default solver', f'shape={shape}', default, ctx, nd, shape)


def vels(ctx, w, types, zero=False):
  return [Field(ctx, w, f'u{d}', face(w.ndim, d), types, tag=f'_{d}_',
                zero=zero) for d in range(w.ndim)]


def ptypes(types):
  return tuple(P2 if t == P2 else N2 for t in types)


def potential(ctx, w, types, name='q'):
  return Field(ctx, w, name, center(w.ndim), ptypes(types), zero=True)


def div(us, w, ix):
  return plus(*[bwd(u.val, w, ix, d) for d, u in enumerate(us)])


def is_pressure_bc(bc, types, what):
  got = tuple(tuple(t) for t in bc.attrs['types'])
  need(got == ptypes(types), f'{what}: types {got}')
  for t, v in zip(ptypes(types), bc.attrs['bc_values']):
    if t == N2:
      need(all(x is not None and X.equal(E(x), X.ZERO) for x in v),
           f'{what}: values {v}')


def projection(ctx, nd, types):
  for solver_kind in ('array', 'variable'):
    w = World(ctx, nd)
    us = vels(ctx, w, types)
    q = potential(ctx, w, types)
    log = []

    def solve(ip, args, kwargs):
      log.append((args, kwargs))
      return w.array('q', center(nd), q.per)
    vs = tuple(u.var for u in us)
    r = ctx.call(BP + 'projection', vs, pyfn('solve', solve))
    need(len(log) == 1, f'{len(log)} solves')
    args, kw = log[0]
    ctx.same(args[0], vs, 'velocity handed to the solver')
    q0 = args[1] if len(args) > 1 else kw.get('q0')
    need_kind(q0, 'GridVariable', 'initial guess')
    need_offset(q0, center(nd), 'initial guess')
    is_pressure_bc(bc_of(q0), types, 'initial guess')
    p = args[2] if len(args) > 2 else kw.get('pressure_bc')
    if p is not None:
      is_pressure_bc(p, types, 'pressure condition')
    need(isinstance(r, tuple) and len(r) == nd, f'got {short(r)}')
    for d, (u, v) in enumerate(zip(us, r)):
      need_kind(v, 'GridVariable', f'component {d}')
      need_offset(v, u.offset, f'component {d}')
      ctx.same(bc_of(v), u.bc, f'component {d} boundary condition')
      ctx.same(grid_of(v), w.grid, f'component {d} grid')

      def want(*ix):
        if not u.per[d] and X.equal(E(ix[d]), minus(w.n[d], 1)):
          return u.stored(*ix)
        return minus(u.stored(*ix), fwd(q.val, w, ix, d))
      pointwise(v, w.n, want, f'component {d}', 1)
    dv = ctx.call(FDM + 'divergence', r)
    pointwise(dv, w.n, lambda *ix: minus(div(us, w, ix), lap(q.val, w, ix)),
              'divergence of the projected velocity', 1)


def cg(ctx, nd, types):
  for given in (False, True):
    w = World(ctx, nd)
    us = vels(ctx, w, types)
    pr = potential(ctx, w, types, 'probe')
    guess = ctx.call('base.grids:GridVariable', w.array(
        'guess', center(nd), pr.per), pr.bc)
    n0 = len(ctx.ip.events)
    tol = [X.sym(s) for s in ('rtol', 'atol', 'maxiter')]
    kw = dict(rtol=tol[0], atol=tol[1], maxiter=tol[2])
    if given:
      kw['pressure_bc'] = pr.bc
      guess = w.var('guess', center(nd))
    r = ctx.call(BP + 'solve_cg', tuple(u.var for u in us), guess, **kw)
    posed(ctx, w, n0, r, tol, us, pr, div,
          lambda ix: lap(pr.val, w, ix), guess)


def posed(ctx, w, n0, r, tol, us, pr, rhs, op_spec, guess):
  nd = w.ndim
  evs = [e for e in ctx.ip.events[n0:] if e[0] == 'cg']
  need(len(evs) == 1, f'{len(evs)} solves')
  _, op, b, kw, sol = evs[0]
  need_kind(r, 'GridArray', 'pressure')
  need_offset(r, center(nd), 'pressure')
  ctx.same(grid_of(r), w.grid, 'grid')
  ctx.same(arr_of(r), arr_of(sol), 'returned solution')
  need_offset(b, center(nd), 'right-hand side')
  pointwise(b, w.n, lambda *ix: rhs(us, w, ix), 'right-hand side', 1)
  y = ctx.ip.call(op, [w.array('probe', center(nd), pr.per)], {})
  pointwise(y, w.n, lambda *ix: op_spec(ix), 'operator', 2)
  for k, want in zip(('tol', 'atol', 'maxiter'), tol):
    ctx.same(kw.get(k), want, k)
  need(kw.get('x0') is not None, 'initial guess not used')
  ctx.same(arr_of(kw['x0']), arr_of(guess), 'initial guess')


def fast(ctx, nd, shape, types, solver):
  for given in (False, True):
    dg = Diag()
    ctx.fresh(dg.overrides())
    try:
      w = World(ctx, nd, shape=shape)
      us = vels(ctx, w, types)
      p = potential(ctx, w, types)
      vs = tuple(u.var for u in us)
      kw = dict(pressure_bc=p.bc) if given else {}
      r = ctx.call(BP + solver, vs, **kw)
      solved(ctx, w, dg, us, p, r)
    finally:
      ctx.fresh()


def stated(ctx, nd, shape, types):
  """Pressure conditions named by the caller, some side Dirichlet."""
  vt = tuple(P2 if t == P2 else D2 for t in types)
  dg = Diag()
  ctx.fresh(dg.overrides())
  try:
    w = World(ctx, nd, shape=shape)
    us = vels(ctx, w, vt)
    p = Field(ctx, w, 'q', center(nd), types, zero=True)
    vs = tuple(u.var for u in us)
    for solver in ('solve_fast_diag', 'solve_fast_diag_channel_flow'):
      del dg.uses[:]
      r = ctx.call(BP + solver, vs, pressure_bc=p.bc)
      # no constant solves the homogeneous problem: the right-hand side is the
      # divergence itself
      solved(ctx, w, dg, us, p, r, kernel=False)
  finally:
    ctx.fresh()
  w = World(ctx, nd)
  us = vels(ctx, w, vt)
  pr = Field(ctx, w, 'probe', center(nd), types, zero=True)
  guess = w.var('guess', center(nd))
  n0 = len(ctx.ip.events)
  tol = [X.sym(s) for s in ('rtol', 'atol', 'maxiter')]
  r = ctx.call(BP + 'solve_cg', tuple(u.var for u in us), guess, pr.bc, *tol)
  posed(ctx, w, n0, r, tol, us, pr, div, lambda ix: lap(pr.val, w, ix), guess)


def solved(ctx, w, dg, us, p, r, kernel=True):
  nd = w.ndim
  need_kind(r, 'GridArray', 'pressure')
  need_offset(r, center(nd), 'pressure')
  need(len(dg.uses) == 1, f'{len(dg.uses)} operator applications')
  fx, k, rhs, out = dg.uses[0]
  ctx.same(arr_of(r), out, 'returned solution')
  cut = times(10, X.sym('finfo.eps', pos=True))
  ctx.same(times(fx, LAM), X.gt0(minus(X.absolute(LAM), cut)),
           'f(lambda) * lambda')
  shape = tuple(w.n)
  pts = list(it.product(*[range(n) for n in shape]))
  dv = {i: div(us, w, tuple(map(X.const, i))) for i in pts}
  mean = over(plus(*dv.values()), len(pts))
  rf = elem(rhs)
  ok = [all(X.equal(rf(*i), minus(dv[i], m)) for i in pts)
        for m in ((X.ZERO, mean) if kernel else (X.ZERO,))]
  if not any(ok):
    i = next(i for i in pts if not X.equal(rf(*i), dv[i]))
    raise Violated(f'right-hand side at {i}: {X.show(rf(*i), 8)}, expected '
                   f'{X.show(dv[i], 8)}' + (' (minus its mean or not)' if kernel
                                          else ''))
  z = lambda *ix: p.val(*ix)
  az = act(dg.ops[k], z)
  for i in pts:
    c = tuple(map(X.const, i))
    got, want = az(*c), lap(p.val, w, c)
    need(X.equal(got, want), f'operator row {i}: {X.show(got, 8)}, expected '
         f'{X.show(want, 8)}')


def implement(ctx, nd, shape, impl):
  if impl == 'rfft' and shape[-1] % 2:
    return
  for types in ((P2,) * nd, (D2,) + (P2,) * (nd - 1), (P2,) * (nd - 1) + (D2,)):
    dg = Diag()
    ctx.fresh(dg.overrides())
    try:
      w = World(ctx, nd, shape=shape)
      us = vels(ctx, w, types)
      # Diag refuses Fourier forms of non-circulant operators
      ctx.call(BP + 'solve_fast_diag', tuple(u.var for u in us),
               implementation=impl)
      if types == (P2,) * nd:
        need(dg.made[0][2] == impl, f'implementation {dg.made[0][2]!r}, '
             f'requested {impl!r}')
    finally:
      ctx.fresh()


def default(ctx, nd, shape):
  """projection without a named solver is the diagonalised projection."""
  dg = Diag()
  ctx.fresh(dg.overrides())
  try:
    types = (D2,) + (P2,) * (nd - 1)
    w = World(ctx, nd, shape=shape)
    us = vels(ctx, w, types)
    r = ctx.call(BP + 'projection', tuple(u.var for u in us))
    need(len(dg.uses) == 1, f'{len(dg.uses)} solves')
    q = elem(dg.uses[0][3])
    p = potential(ctx, w, types)
    lawful = lambda f: (lambda *ix: ext_chain(w, f, p, ix))
    for d, (u, v) in enumerate(zip(us, r)):
      def want(*ix):
        if not u.per[d] and X.equal(E(ix[d]), minus(w.n[d], 1)):
          return u.stored(*ix)
        return minus(u.stored(*ix), fwd(lawful(q), w, ix, d))
      pointwise(v, w.n, want, f'component {d}', 1)
  finally:
    ctx.fresh()


def ext_chain(w, f, p, ix):
  """Zero-gradient / periodic continuation of concrete data by one cell."""
  out = []
  for d in range(w.ndim):
    n = int(w.n[d])
    i = int(E(ix[d]).const_value())
    out.append(i % n if p.per[d] else min(max(i, 0), n - 1))
  return f(*out)


# -------------------------------------------------------------- collocated

def wide(f, w, ix):
  out = []
  for d in range(w.ndim):
    s = plus(f(*shifted(ix, d, 2)), f(*shifted(ix, d, -2)), times(-2, f(*ix)))
    out.append(over(s, times(4, w.h[d], w.h[d])))
  return plus(*out)


def cvel(ctx, w, types=None):
  return [Field(ctx, w, f'u{d}', center(w.ndim), types, tag=f'_{d}_')
          for d in range(w.ndim)]


def cdiv(us, w, ix):
  return plus(*[ctr(u.val, w, ix, d) for d, u in enumerate(us)])


def col_projection(ctx, nd):
  w = World(ctx, nd)
  us = cvel(ctx, w)
  log = []

  def solve(ip, args, kwargs):
    log.append((args, kwargs))
    return w.array('q', center(nd))
  vs = tuple(u.var for u in us)
  r = ctx.call(CP + 'projection', vs, pyfn('solve', solve))
  need(len(log) == 1, f'{len(log)} solves')
  ctx.same(log[0][0][0], vs, 'velocity handed to the solver')
  q0 = log[0][0][1]
  need_kind(q0, 'GridVariable', 'initial guess')
  is_pressure_bc(bc_of(q0), (P2,) * nd, 'initial guess')
  q = lambda *ix: w.rd('q', *ix)
  need(len(r) == nd, f'{len(r)} components')
  for d, (u, v) in enumerate(zip(us, r)):
    need_kind(v, 'GridVariable', f'component {d}')
    need_offset(v, u.offset, f'component {d}')
    ctx.same(bc_of(v), u.bc, f'component {d} boundary condition')
    pointwise(v, w.n, lambda *ix: minus(u.val(*ix), ctr(q, w, ix, d)),
              f'component {d}', 1)
  dv = ctx.call(FDM + 'centered_divergence', r)
  pointwise(dv, w.n, lambda *ix: minus(cdiv(us, w, ix), wide(q, w, ix)),
            'divergence of the projected velocity', 2)


def col_cg(ctx, nd):
  w = World(ctx, nd)
  us = cvel(ctx, w)
  pr = potential(ctx, w, (P2,) * nd, 'probe')
  guess = w.var('guess', center(nd))
  n0 = len(ctx.ip.events)
  tol = [X.sym(s) for s in ('rtol', 'atol', 'maxiter')]
  r = ctx.call(CP + 'solve_cg', tuple(u.var for u in us), guess, rtol=tol[0],
               atol=tol[1], maxiter=tol[2])
  posed(ctx, w, n0, r, tol, us, pr, cdiv, lambda ix: wide(pr.val, w, ix),
        guess)
  # the default solver of the projection
  n0 = len(ctx.ip.events)
  r = ctx.call(CP + 'projection', tuple(u.var for u in us))
  evs = [e for e in ctx.ip.events[n0:] if e[0] == 'cg']
  need(len(evs) == 1, f'{len(evs)} solves in the default projection')
  s = arr_of(evs[0][4])
  nm = [a for a in s.cells[(0,) * nd].atoms() if a.op == 'rd']
  need(len(nm) == 1, 'solution')
  need(len(r) == nd, f'{len(r)} components')


def col_refuses(ctx, nd):
  for k in (D2, N2):
    for d in range(nd):
      types = tuple(k if a == d else P2 for a in range(nd))
      w = World(ctx, nd)
      us = cvel(ctx, w, types)
      guess = potential(ctx, w, types, 'guess').var

      def go():
        n0 = len(ctx.ip.events)
        ctx.call(CP + 'solve_cg', tuple(u.var for u in us), guess)
        for e in ctx.ip.events[n0:]:
          if e[0] == 'cg':
            ctx.ip.call(e[1], [w.array('p', center(nd), False)], {})
      ctx.raises('ValueError', go)
