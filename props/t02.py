"""T02: implicit-explicit time steppers."""
import itertools as it

from props.rk import *  # pylint: disable=wildcard-import,unused-wildcard-import

EXPLANATION = (
    'Every implicit-explicit stepper is interpreted on states of several '
    'pytree shapes with unknown explicit terms F, implicit terms G and '
    'implicit solve S(state, step); the value of each leaf after one step is '
    'compared with the published scheme, general low-storage and ImEx '
    'tableaux of unknown coefficients included.')

TS = 'spectral.time_stepping:'
F = Fraction
RK3 = ([0, F(1, 3), F(3, 4), 1], [0, F(-5, 9), F(-153, 128)],
       [F(1, 3), F(15, 16), F(8, 15)])
D = lambda s: F(s)
RK4 = ([0, D('0.1496590219993'), D('0.3704009573644'), D('0.6222557631345'),
        D('0.9582821306748'), 1],
       [0, D('-0.4178904745'), D('-1.192151694643'), D('-1.697784692471'),
        D('-1.514183444257')],
       [D('0.1496590219993'), D('0.3792103129999'), D('0.8229550293869'),
        D('0.6994504559488'), D('0.1530572479681')])
SIL3 = dict(a_ex=[[F(1, 3)], [F(1, 6), F(1, 2)], [F(1, 2), F(-1, 2), 1]],
            a_im=[[F(1, 6), F(1, 6)], [F(1, 3), 0, F(1, 3)],
                  [F(3, 8), 0, F(3, 8), F(1, 4)]],
            b_ex=[F(1, 2), F(-1, 2), 1, 0],
            b_im=[F(3, 8), 0, F(3, 8), F(1, 4)])


def run(ctx):
  consistent()
  specs = {'backward_forward_euler': euler, 'crank_nicolson_rk2': cnrk2,
           'crank_nicolson_rk3': lambda st: low(st, *RK3),
           'crank_nicolson_rk4': lambda st: low(st, *RK4),
           'imex_rk_sil3': lambda st: imex(st, **SIL3)}
  for name, spec in specs.items():
    for form in FORMS:
      ctx.ob('named stepper', f'{name} {form}', named, ctx, name, spec, form)
    ctx.ob('keywords', name, named, ctx, name, spec, 'tuple', True)
    ctx.ob('repeat', name, twice, ctx, name, spec)
    ctx.ob('no implicit part', name, explicit_only, ctx, name, spec)
  for s in (1, 2, 3, 4):
    for form in ('array', 'dict'):
      ctx.ob('general low storage', f'stages={s} {form}', glow, ctx, s, form)
      ctx.ob('general imex', f'stages={s} {form}', gimex, ctx, s, form, None)
  for s, p in ((2, None), (3, None)):
    n = s * (s - 1) // 2 + (s - 1) * (s + 2) // 2 + 2 * s
    pats = list(it.product((0, 1), repeat=n)) if s == 2 else [
        tuple(0 if i == j or i == (j * 5 + 2) % n else 1 for i in range(n))
        for j in range(n)]
    for z in pats:
      ctx.ob('imex zero pattern', f'stages={s} {z}', gimex, ctx, s, 'array', z)
  for na in range(1, 5):
    for nb in range(4):
      for ng in range(4):
        ctx.ob('low storage sizes', f'{na} {nb} {ng}', lsizes, ctx, na, nb, ng)
  for c in it.product(range(3), range(3), (1, 2, 3), (1, 2, 3)):
    ctx.ob('imex sizes', f'{c}', isizes, ctx, *c)


def consistent():
  """The published tables meet the order conditions (self check)."""
  for (al, be, ga), order in ((RK3, 3), (RK4, 4)):
    s = len(be)
    # stage k evaluates F at u_k; h_k = F_k + be_k h_{k-1};
    # u_{k+1} = u_k + ga_k dt h_k
    h = [F(0)] * s
    u = [F(0)] * s
    rows = []
    for k in range(s):
      rows.append(list(u))
      h = [F(be[k]) * x for x in h]
      h[k] += 1
      u = [a + F(ga[k]) * b for a, b in zip(u, h)]
    c = [sum(r) for r in rows]
    assert all(abs(float(x - F(a))) < 1e-9 for x, a in zip(c, al)), (c, al)
    dot = lambda v: sum(x * y for x, y in zip(u, v))
    mv = lambda v: [sum(r[j] * v[j] for j in range(s)) for r in rows]
    c2 = [x * x for x in c]
    conds = [(1, sum(u), 1), (2, dot(c), .5), (3, dot(c2), 1 / 3),
             (3, dot(mv(c)), 1 / 6), (4, dot([x ** 3 for x in c]), .25),
             (4, dot([x * y for x, y in zip(c, mv(c))]), .125),
             (4, dot(mv(c2)), 1 / 12), (4, dot(mv(mv(c))), 1 / 24)]
    assert all(abs(float(a) - b) < 1e-9 for o, a, b in conds if o <= order)


# ------------------------------------------------------------- schemes


def euler(st):
  return lambda u: st.sp('S', lin(u, (DT, st.sp('F', u))), DT)


def cnrk2(st):
  half = times(F(1, 2), DT)

  def spec(u):
    g = lin(u, (half, st.sp('G', u)))
    h1 = st.sp('F', u)
    u1 = st.sp('S', lin(g, (DT, h1)), half)
    h2 = st.sp('F', u1)
    return st.sp('S', lin(g, (half, h1), (half, h2)), half)
  return spec


def low(st, al, be, ga):
  def spec(u):
    h = tuple(X.ZERO for _ in u)
    for k in range(len(be)):
      h = lin(st.sp('F', u), (be[k], h))
      mu = times(F(1, 2), DT, minus(al[k + 1], al[k]))
      u = st.sp('S', lin(u, (times(ga[k], DT), h), (mu, st.sp('G', u))), mu)
    return u
  return spec


def imex(st, a_ex, a_im, b_ex, b_im):
  def spec(y0):
    f, g = [st.sp('F', y0)], [st.sp('G', y0)]

    def comb(re, ri):
      return lin(y0, *([(times(DT, c), v) for c, v in zip(re, f)] +
                       [(times(DT, c), v) for c, v in zip(ri, g)]))
    for re, ri in zip(a_ex, a_im):
      y = st.sp('S', comb(re, ri), times(DT, ri[-1]))
      f.append(st.sp('F', y))
      g.append(st.sp('G', y))
    return comb(b_ex, b_im)
  return spec


# ------------------------------------------------------------- obligations


def equation(ctx, st, zero=False):
  """An equation object with unknown parts."""
  cls = ctx.ip.get('jax_cfd.spectral.time_stepping', 'ImplicitExplicitODE')
  eq = ctx.ip.call(cls, [], {})
  if zero:
    eq.attrs.update(
        explicit_terms=st.fn('F'),
        implicit_terms=pyfn('zero', lambda ip, a, k: st.build(
            [A.unary(lambda e: X.ZERO, x) for x in st.leaves(a[0])])),
        implicit_solve=pyfn('identity', lambda ip, a, k: a[0]))
  else:
    eq.attrs.update(explicit_terms=st.fn('F'), implicit_terms=st.fn('G'),
                    implicit_solve=st.fn('S', 1, True))
  return eq


def named(ctx, name, spec, form, kw=False):
  st = State(ctx, form)
  eq = equation(ctx, st)
  f = (ctx.call(TS + name, equation=eq, time_step=DT) if kw
       else ctx.call(TS + name, eq, DT))
  st.same(ctx.ip.call(f, [st.init()], {}), spec(st))


def twice(ctx, name, spec):
  st = State(ctx, 'tuple')
  f = ctx.call(TS + name, equation(ctx, st), DT)
  u0 = st.init()
  ctx.ip.call(f, [u0], {})
  st.same(ctx.ip.call(f, [u0], {}), spec(st), 'second call')


class NoImplicit(State):

  def sp(self, name, es, *extra):
    if name == 'S':
      return tuple(es)
    if name == 'G':
      return tuple(X.ZERO for _ in es)
    return State.sp(self, name, es, *extra)


def explicit_only(ctx, name, spec):
  """Without an implicit part: the explicit parent scheme."""
  st = NoImplicit(ctx, 'tuple')
  f = ctx.call(TS + name, equation(ctx, st, True), DT)
  st.same(ctx.ip.call(f, [st.init()], {}), spec(st))


def glow(ctx, s, form):
  st = State(ctx, form)
  al = [X.sym(f'al{k}', pos=True) for k in range(s + 1)]
  be = [X.sym(f'be{k}', pos=True) for k in range(s)]
  ga = [X.sym(f'ga{k}', pos=True) for k in range(s)]
  be[0] = F(0)
  f = ctx.call(TS + 'low_storage_runge_kutta_crank_nicolson', alphas=al,
               betas=be, gammas=ga, equation=equation(ctx, st), time_step=DT)
  st.same(ctx.ip.call(f, [st.init()], {}), low(st, al, be, ga))


def gimex(ctx, s, form, z):
  st = State(ctx, form)
  cs = it.count()

  def coef(nm):
    i = next(cs)
    v = X.sym(nm, pos=True)
    return 0 if z is not None and not z[i] else (
        X.scale(v, -1) if i % 3 == 1 else v)
  t = dict(a_ex=[[coef(f'e{i}{j}') for j in range(i)] for i in range(1, s)],
           a_im=[[coef(f'i{i}{j}') for j in range(i + 1)]
                 for i in range(1, s)],
           b_ex=[coef(f'be{j}') for j in range(s)],
           b_im=[coef(f'bi{j}') for j in range(s)])
  tab = ctx.call(TS + 'ImExButcherTableau', **t)
  f = ctx.call(TS + 'imex_runge_kutta', tab, equation(ctx, st), DT)
  st.same(ctx.ip.call(f, [st.init()], {}), imex(st, **t))


def lsizes(ctx, na, nb, ng):
  st = State(ctx, 'array')
  go = lambda: ctx.call(TS + 'low_storage_runge_kutta_crank_nicolson',
                        [F(k) for k in range(na)], [F(1)] * nb, [F(1)] * ng,
                        equation(ctx, st), DT)
  if na - 1 == nb == ng:
    go()
  else:
    ctx.raises('ValueError', go)


def isizes(ctx, ne, ni, be, bi):
  go = lambda: ctx.call(TS + 'ImExButcherTableau',
                        a_ex=[[1] * (k + 1) for k in range(ne)],
                        a_im=[[1] * (k + 2) for k in range(ni)],
                        b_ex=[1] * be, b_im=[1] * bi)
  if ne + 1 == ni + 1 == be == bi:
    go()
  else:
    ctx.raises('ValueError', go)
