"""V01: diffusion, explicit and implicit."""
import itertools as it

from props.diag import *  # pylint: disable=wildcard-import,unused-wildcard-import

EXPLANATION = (
    'Explicit (staggered and collocated) diffusion is compared with viscosity times the Laplacian stencil '
    'under every boundary law. For the conjugate gradient solver the operator '
    'and right-hand side handed to the library solver are evaluated on a '
    'generic field and must be the implicit Euler equation. For the '
    'diagonalised solver the call of `transform` is summarised as an unknown '
    'linear map K(f; operators) (its meaning is property L01) and the equation '
    'v - dt nu lap v = u is derived by polynomial algebra in the operator, '
    'boundary contributions included.')

DF = 'base.diffusion:'
DT, NU = X.sym('dt', pos=True), X.sym('nu', pos=True)


def tname(types):
  return '/'.join(t[0][0] + t[1][0] for t in types)


def run(ctx):
  for nd in (1, 2, 3):
    for types in explicit_types(nd):
      for o in offs(nd, types):
        ctx.ob('explicit diffusion', f'ndim={nd} {tname(types)} at {fmt(o)}',
               explicit, ctx, nd, types, o)
    for o in offs(nd, (P2,) * nd):
      ctx.ob('collocated diffusion', f'ndim={nd} at {fmt(o)}', collocated, ctx,
             nd, o)
    ctx.ob('stable step', f'ndim={nd}', stable, ctx, nd)
    ctx.ob('cg equation', f'ndim={nd}', cg, ctx, nd)
    ctx.ob('cg refusal', f'ndim={nd}', cg_refuses, ctx, nd)
  for nd, shape in ((1, (4,)), (1, (5,)), (2, (4, 3)), (2, (3, 4)),
                    (3, (3, 3, 4)), (3, (4, 3, 3))):
    if nd == 3:
      tl = [(P2,) * 3, (P2, P2, D2), (D2, P2, N2), (N2, D2, P2), (P2, D2, D2)]
    else:
      tl = list(it.product((P2, D2, N2), repeat=nd))
      tl += [(k,) + (P2,) * (nd - 1) for k in (DN, ND_)]
      if nd == 2:
        tl += [(D2, DN), (P2, ND_)]
    for types in tl:
      ctx.ob('diagonalised solve', f'shape={shape} {tname(types)}', fast, ctx,
             nd, shape, types)
    for impl in (None, 'matmul', 'fft', 'rfft'):
      ctx.ob('implementation choice', f'shape={shape} {impl}', implement, ctx,
             nd, shape, impl)
  ctx.ob('edge Neumann refusal', '', edge_neumann, ctx)


def explicit_types(nd):
  out = [tuple(KINDS[(i + 2 * d) % 5] for d in range(nd)) for i in range(5)]
  return list(dict.fromkeys(out))


def offs(nd, types):
  out = [center(nd)]
  for d in range(nd):
    if types[d] in (P2, D2):
      out.append(face(nd, d))
  return out


def explicit(ctx, nd, types, o):
  w = World(ctx, nd)
  u = Field(ctx, w, 'u', o, types)
  r = ctx.call(DF + 'diffuse', u.var, NU)
  need_kind(r, 'GridArray', 'tendency')
  need_offset(r, o)
  ctx.same(grid_of(r), w.grid, 'grid')
  pointwise(r, w.n, lambda *ix: times(NU, lap(u.val, w, ix)), 'diffusion', 1)


def collocated(ctx, nd, o):
  """Centred divergence of the centred gradient."""
  w = World(ctx, nd)
  u = Field(ctx, w, 'u', o)
  r = ctx.call('collocated.diffusion:diffuse', u.var, NU)
  need_kind(r, 'GridArray', 'tendency')
  need_offset(r, o)
  ctx.same(grid_of(r), w.grid, 'grid')
  pointwise(r, w.n, lambda *ix: times(NU, plus(*[
      ctr(lambda *jx, d=d: ctr(u.val, w, jx, d), w, ix, d)
      for d in range(nd)])), 'diffusion', 1)
  for d in range(nd):
    for k in (D2, N2, DN):
      f = Field(ctx, w, 'u', center(nd), tuple(
          k if e == d else P2 for e in range(nd)))
      ctx.raises('ValueError', lambda: ctx.call('collocated.diffusion:diffuse',
                                                f.var, NU))


def stable(ctx, nd):
  for d in range(nd):
    g = ctx.call('base.grids:Grid', (4,) * nd, domain=tuple(
        (0, 4 * (3 if k == d else 5 + k)) for k in range(nd)))
    r = ctx.call(DF + 'stable_time_step', NU, g)
    ctx.same(E(r), over(9, times(NU, 2 ** nd)), f'smallest step on axis {d}')
  w = World(ctx, nd)
  h = w.h[0]
  g = ctx.call('base.grids:Grid', tuple(A.dim(x) for x in w.n), domain=tuple(
      (l, plus(l, times(n, h))) for l, n in zip(w.lo, w.n)))
  r = ctx.call(DF + 'stable_time_step', NU, g)
  ctx.same(E(r), over(times(h, h), times(NU, 2 ** nd)), 'equal steps')
  r = ctx.call(DF + 'stable_time_step', 0, g)
  need(r == float('inf') or E(r) == X.sym('inf'), f'zero viscosity: {short(r)}')


def cg(ctx, nd):
  w = World(ctx, nd)
  us = [Field(ctx, w, f'u{d}', face(nd, d)) for d in range(nd)]
  us.append(Field(ctx, w, 's', center(nd)))
  n0 = len(ctx.ip.events)
  rtol, atol, mi = X.sym('rtol'), X.sym('atol'), X.sym('maxiter')
  r = ctx.call(DF + 'solve_cg', tuple(u.var for u in us), NU, DT, rtol=rtol,
               atol=atol, maxiter=mi)
  need(isinstance(r, tuple) and len(r) == len(us),
       f'one result per component expected, got {short(r)}')
  evs = [e for e in ctx.ip.events[n0:] if e[0] == 'cg']
  need(len(evs) == len(us), f'{len(evs)} solves for {len(us)} components')
  for (_, op, b, kw, sol), u, v in zip(evs, us, r):
    what = f'component at {fmt(u.offset)}'
    need_kind(v, 'GridVariable', what)
    need_offset(v, u.offset, what)
    ctx.same(bc_of(v), u.bc, what + ' boundary condition')
    ctx.same(arr_of(v), arr_of(sol), what + ': returned solution')
    ctx.same(arr_of(b), arr_of(u.var), what + ': right-hand side')
    probe = w.array('probe', u.offset)
    y = arr_of(ctx.ip.call(op, [probe], {}))
    pr = lambda *ix: w.rd('probe', *ix)
    pointwise(y, w.n, lambda *ix: minus(
        pr(*ix), times(DT, NU, lap(pr, w, ix))), what + ': operator', 1)
    for k, want in (('tol', rtol), ('atol', atol), ('maxiter', mi)):
      ctx.same(kw.get(k), want, f'{what}: {k}')
    x0 = kw.get('x0')
    if x0 is not None:
      need_offset(x0, u.offset, f'{what}: initial guess')


def cg_refuses(ctx, nd):
  for k in (D2, N2):
    for d in range(nd):
      w = World(ctx, nd)
      types = tuple(k if a == d else P2 for a in range(nd))
      good = w.var('g', center(nd))
      bad = Field(ctx, w, 'b', center(nd), types).var
      for v in ((bad,), (good, bad), (bad, good)):
        ctx.raises('ValueError', lambda: ctx.call(
            DF + 'solve_cg', v, NU, DT))


def fast(ctx, nd, shape, types):
  comps = [center(nd)] + [face(nd, d) for d in range(nd)
                          if types[d] in (P2, D2)]
  dg = Diag()
  ctx.fresh(dg.overrides())
  try:
    w = World(ctx, nd, shape=shape)
    us = []
    for k, o in enumerate(comps):
      us.append(Field(ctx, w, f'u{k}', o, types, tag=f'_{k}_',
                      zero=any(len(set(t)) == 2 or t == N2 for t in types)))
    refused = False
    try:
      r = ctx.call(DF + 'solve_fast_diag', tuple(u.var for u in us), NU, DT)
    except PyRaise as e:
      if e.clsname() != 'NotImplementedError' or all(
          t in (P2, D2) for t in types):
        raise
      refused = True
    if refused:
      return
    need(isinstance(r, tuple) and len(r) == len(us), f'got {short(r)}')
    need(len(dg.uses) == len(us), f'{len(dg.uses)} operator applications for '
         f'{len(us)} components')
    for u, v, use in zip(us, r, dg.uses):
      equation(ctx, w, dg, u, v, use)
  finally:
    ctx.fresh()


def interior(w, u):
  """Per axis the stored indices that are not wall nodes."""
  out = []
  for d in range(w.ndim):
    n = int(w.n[d]) if not isinstance(w.n[d], Expr) else int(
        w.n[d].const_value())
    o = u.offset[d]
    lo = 1 if (not u.per[d] and o == 0) else 0
    hi = n - 1 if (not u.per[d] and o == 1) else n
    out.append(range(lo, hi))
  return out


def equation(ctx, w, dg, u, v, use):
  fx, k, rhs, out = use
  ops = dg.ops[k]
  what = f'component at {fmt(u.offset)}'
  need_kind(v, 'GridVariable', what)
  need_offset(v, u.offset, what)
  ctx.same(bc_of(v), u.bc, what + ' boundary condition')
  rng = interior(w, u)
  va = arr_of(v)
  need(va.shape == tuple(w.n), f'{what}: shape {va.shape}')
  # wall nodes hold the boundary constants
  vf = elem(va)
  for ix in it.product(*[range(n) for n in w.n]):
    if all(i in r for i, r in zip(ix, rng)):
      continue
    want = u.stored(*map(X.const, ix))
    need(X.equal(vf(*ix), want), f'{what}: wall value at {ix} is '
         f'{X.show(vf(*ix), 8)}, expected {X.show(want, 8)}')
  lo = [r[0] for r in rng]
  inner = list(it.product(*[range(len(r)) for r in rng]))
  ui = lambda *ix: u.val(*[E(i) + E(l) if False else plus(i, l)
                           for i, l in zip(ix, lo)])
  lapu = {i: lap(u.val, w, tuple(X.const(a + l) for a, l in zip(i, lo)))
          for i in inner}
  res = {i: minus(vf(*[a + l for a, l in zip(i, lo)]), elem(out)(*i))
         for i in inner}
  inc = all(X.equal(res[i], ui(*i)) for i in inner)
  whole = all(X.equal(res[i], X.ZERO) for i in inner)
  if not (inc or whole):
    i = next(i for i in inner if not X.equal(res[i], ui(*i)))
    raise Violated(f'{what}: result minus the operator term at {i} is '
                   f'{X.show(res[i], 8)}, expected the input')
  # f(x) (1 - dt nu x) = c0 + c1 x
  p = times(fx, minus(1, times(DT, NU, LAM)))
  c = linear_poly(p)
  if c is None:
    raise Violated(f'{what}: f(lambda) = {X.show(fx, 8)} does not invert '
                   '1 - dt nu lambda')
  rf = elem(rhs)
  ar = act(ops, rf)
  au = act(ops, lambda *ix: ui(*ix))
  for i in inner:
    i = tuple(map(X.const, i))
    got = plus(times(c[0], rf(*i)), times(c[1], ar(*i)) if c[1] != X.ZERO
               else X.ZERO)
    key = tuple(int(a.const_value()) for a in i)
    if inc:
      want = times(DT, NU, lapu[key])
    else:
      want = plus(ui(*i), times(DT, NU, minus(lapu[key], au(*i))))
    if not X.equal(got, want):
      raise Violated(f'{what}: (1 - dt nu A)(v - u) at {key} is '
                     f'{X.show(got, 10)}, expected {X.show(want, 10)}')
  # the operator is the Laplacian of the homogeneous condition
  hom = Field(ctx, w, 'z', u.offset, u.types, zero=True)
  zi = lambda *ix: hom.val(*[plus(i, l) for i, l in zip(ix, lo)])
  az = act(ops, zi)
  for i in inner:
    got = az(*map(X.const, i))
    want = lap(hom.val, w, tuple(X.const(a + l) for a, l in zip(i, lo)))
    if not X.equal(got, want):
      raise Violated(f'{what}: operator row {i}: {X.show(got, 10)}, expected '
                     f'{X.show(want, 10)}')


def implement(ctx, nd, shape, impl):
  if impl == 'rfft' and shape[-1] % 2:
    return
  dg = Diag()
  ctx.fresh(dg.overrides())
  try:
    w = World(ctx, nd, shape=shape)
    u = Field(ctx, w, 'u', center(nd))
    ctx.call(DF + 'solve_fast_diag', (u.var,), NU, DT, implementation=impl)
    need(all(m[2] == impl for m in dg.made), f'periodic: implementation '
         f'{dg.made[0][2]!r}, requested {impl!r}')
    for d in range(nd):
      types = tuple(D2 if a == d else P2 for a in range(nd))
      u = Field(ctx, w, 'b', center(nd), types)
      # Diag refuses Fourier forms of non-circulant operators
      ctx.call(DF + 'solve_fast_diag', (w.var('g', center(nd)), u.var), NU, DT,
               implementation=impl)
  finally:
    ctx.fresh()


def edge_neumann(ctx):
  for nd in (1, 2):
    w = World(ctx, nd, shape=(4, 3)[:nd])
    bc = w.bc([N2] * nd)
    a = w.array('u', face(nd, 0), False)
    u = ctx.call('base.grids:GridVariable', a, bc)
    ctx.raises(('NotImplementedError', 'ValueError'), lambda: ctx.call(
        DF + 'solve_fast_diag', (u,), NU, DT))
