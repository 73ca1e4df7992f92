"""T01: explicit Runge-Kutta steppers with projection."""
import itertools as it

from props.rk import *  # pylint: disable=wildcard-import,unused-wildcard-import

EXPLANATION = (
    'Every explicit stepper is interpreted on states of several pytree shapes '
    'with unknown explicit terms and an unknown projection; the value of each '
    'leaf after one step is compared with the reference Runge-Kutta recursion '
    'for the published tableau, for tableaux of unknown coefficients with '
    'every zero pattern up to three stages, and for rejected tableaux.')

TS = 'base.time_stepping:'
F = Fraction
NAMED = {
    'forward_euler': ([], [1], 1),
    'midpoint_rk2': ([[F(1, 2)]], [0, 1], 2),
    'heun_rk2': ([[1]], [F(1, 2), F(1, 2)], 2),
    'classic_rk4': ([[F(1, 2)], [0, F(1, 2)], [0, 0, 1]],
                    [F(1, 6), F(1, 3), F(1, 3), F(1, 6)], 4),
}


def run(ctx):
  for name, (a, b, order) in NAMED.items():
    assert order_ok(a, b, order)
    for form in FORMS:
      ctx.ob('named stepper', f'{name} {form}', named, ctx, name, a, b, form)
    ctx.ob('keywords', name, named, ctx, name, a, b, 'tuple', True)
    ctx.ob('repeat', name, twice, ctx, name, a, b)
  for s in (1, 2, 3, 4):
    for form in ('array', 'dict'):
      ctx.ob('general tableau', f'stages={s} {form}', general, ctx, s, form,
             None)
  for s in (1, 2, 3):
    n = s * (s - 1) // 2 + s
    for z in it.product((0, 1), repeat=n):
      if any(z[-s:]):
        ctx.ob('zero pattern', f'stages={s} {z}', general, ctx, s, 'tuple', z)
  ctx.ob('signed tableau', 'Kutta', signed, ctx,
         [[F(1, 2)], [-1, 2]], [F(1, 6), F(2, 3), F(1, 6)])
  for z in it.product((-1, 1), repeat=6):
    ctx.ob('signed tableau', f'{z}', signed, ctx,
           [[z[0]], [z[1] * F(1, 3), z[2] * F(2, 5)]],
           [z[3] * F(1, 7), z[4] * F(3, 7), z[5] * F(2, 9)])
  for na in range(4):
    for nb in range(5):
      ctx.ob('tableau sizes', f'a={na} b={nb}', sizes, ctx, na, nb)
  ctx.ob('equation object', '', eqobj, ctx)


def order_ok(a, b, order):
  """Order conditions (rooted trees up to order 4) of a tableau."""
  s = len(b)
  m = [[F(0)] * s] + [list(map(F, r)) + [F(0)] * (s - len(r)) for r in a]
  b = list(map(F, b))
  c = [sum(r) for r in m]
  R = range(s)
  mv = lambda v: [sum(m[i][j] * v[j] for j in R) for i in R]
  dot = lambda v: sum(b[i] * v[i] for i in R)
  c2 = [x * x for x in c]
  conds = [(1, dot([1] * s), F(1)), (2, dot(c), F(1, 2)),
           (3, dot(c2), F(1, 3)), (3, dot(mv(c)), F(1, 6)),
           (4, dot([x ** 3 for x in c]), F(1, 4)),
           (4, dot([x * y for x, y in zip(c, mv(c))]), F(1, 8)),
           (4, dot(mv(c2)), F(1, 12)), (4, dot(mv(mv(c))), F(1, 24))]
  return all(v == w for o, v, w in conds if o <= order)


def reference(st, a, b):
  def spec(u0):
    k = [st.sp('F', u0)]
    for row in a:
      u = st.sp('P', lin(u0, *[(times(DT, c), kj) for c, kj in zip(row, k)]))
      k.append(st.sp('F', u))
    return st.sp('P', lin(u0, *[(times(DT, c), kj) for c, kj in zip(b, k)]))
  return spec


def equation(ctx, st):
  return ctx.call(TS + 'ExplicitNavierStokesODE', st.fn('F'), st.fn('P'))


def named(ctx, name, a, b, form, kw=False):
  st = State(ctx, form)
  eq = equation(ctx, st)
  f = (ctx.call(TS + name, equation=eq, time_step=DT) if kw
       else ctx.call(TS + name, eq, DT))
  st.same(ctx.ip.call(f, [st.init()], {}), reference(st, a, b))


def twice(ctx, name, a, b):
  """One stepper object applied twice (no state kept between calls)."""
  st = State(ctx, 'tuple')
  f = ctx.call(TS + name, equation(ctx, st), DT)
  ref = reference(st, a, b)
  u0 = st.init()
  u1 = ctx.ip.call(f, [u0], {})
  st.same(u1, ref)
  st.same(ctx.ip.call(f, [u0], {}), ref, 'second call')
  if len(b) <= 2:
    st.same(ctx.ip.call(f, [u1], {}), lambda u: ref(ref(u)), 'two steps')


def general(ctx, s, form, z):
  st = State(ctx, form)
  cs = it.count()

  def coef(nm):
    i = next(cs)
    return 0 if z is not None and not z[i] else X.sym(nm, pos=True)
  a = [[coef(f'a{i}{j}') for j in range(i)] for i in range(1, s)]
  b = [coef(f'b{j}') for j in range(s)]
  tab = ctx.call(TS + 'ButcherTableau', a=a, b=b)
  f = ctx.call(TS + 'navier_stokes_rk', tab, equation(ctx, st), DT)
  st.same(ctx.ip.call(f, [st.init()], {}), reference(st, a, b))


def signed(ctx, a, b):
  st = State(ctx, 'tuple')
  tab = ctx.call(TS + 'ButcherTableau', a, b)
  f = ctx.call(TS + 'navier_stokes_rk', tableau=tab, equation=equation(ctx, st),
               time_step=DT)
  st.same(ctx.ip.call(f, [st.init()], {}), reference(st, a, b))


def sizes(ctx, na, nb):
  go = lambda: ctx.call(TS + 'ButcherTableau',
                        a=[[1] * (i + 1) for i in range(na)], b=[1] * nb)
  if na + 1 == nb:
    t = go()
    ctx.same(len(t.attrs['a']), na, 'a')
    ctx.same(len(t.attrs['b']), nb, 'b')
  else:
    ctx.raises('ValueError', go)


def eqobj(ctx):
  f, p = pyfn('f', lambda *a: None), pyfn('p', lambda *a: None)
  eq = ctx.call(TS + 'ExplicitNavierStokesODE', f, p)
  need(ctx.ip.getattr(eq, 'explicit_terms') is f, 'explicit terms')
  need(ctx.ip.getattr(eq, 'pressure_projection') is p, 'projection')
