"""M01: learned stencils."""
from sa import lib_conv as LC
from props.common import *  # pylint: disable=wildcard-import,unused-wildcard-import

EXPLANATION = (
    'The constraint system built for a stencil is compared, as a solution '
    'space over the rationals, with the moment conditions of the requested '
    'derivative. Coefficients are interpreted with unknown logits and must '
    'satisfy those conditions identically (the null space svd returns being '
    'any basis of the kernel). Derivative layers and learned interpolations '
    'are interpreted on unknown fields: from the result, as a linear form in '
    'the field, the displacement of every patch element is read off and the '
    'conditions are checked at the true position of that element relative to '
    'the target, for all extraction paths and tilings, fused or not.')

LU, LA, IP = 'ml.layers_util:', 'ml.layers:', 'ml.interpolations:'
FV, FDM = 'FINITE_VOLUME', 'FINITE_DIFFERENCE'
F = Fraction
REFUSE = ('ValueError',)


def run(ctx):
  for method in (FV, FDM):
    for sizes, off, d, acc, h in systems():
      k = f'{method} {fmt(sizes)} at {fmt(off)} d={fmt(d)} order={acc} h={h}'
      ctx.ob('polynomial constraints', k, constraints, ctx, method, sizes, off,
             d, acc, h)
      ctx.ob('standard coefficients', k, coefficients, ctx, method, sizes, off,
             d, acc, h)
      ctx.ob('constrained coefficients', k, constrained, ctx, method, sizes,
             off, d, acc, h)
  ctx.ob('refusals', 'constraints', bad_constraints, ctx)
  ctx.ob('refusals', 'layer', bad_layer, ctx)
  ctx.ob('given bias', '', given_bias, ctx)
  ctx.ob('default bias', '', default_bias, ctx)
  for nd in (1, 2, 3):
    ctx.ob('stencil positions', f'ndim={nd}', stencils, ctx, nd)
    ctx.ob('roll and shift', f'ndim={nd}', rollshift, ctx, nd)
  for shape in PATCHES:
    ctx.ob('patches', f'{fmt(shape)} roll', patches, ctx, shape, 'roll', None)
    for lay in layouts(len(shape)):
      ctx.ob('patches', f'{fmt(shape)} conv {lay}', patches, ctx, shape, 'conv',
             lay)
  for shapes in (((3,), (2,)), ((2, 2), (1, 2)), ((2, 3), (3, 1), (2, 2)),
                 ((2, 1, 2), (1, 2, 1))):
    for lay in layouts(len(shapes[0])):
      ctx.ob('patches', f'fused {shapes} {lay}', fused_patches, ctx, shapes,
             lay)
  ctx.ob('patches', 'unknown method', bad_patches, ctx)
  for case in LAYERS:
    nd = len(case[0])
    for method, lay in (('roll', None), ('conv', None),
                        ('conv', (2,) * nd if nd < 3 else (1, 2, 1))):
      k = f'{fmt(case[0])} {fmt(case[1])}->{fmt(case[2])} d={fmt(case[3])} ' \
          f'{method} {lay}'
      ctx.ob('derivative from logits', k, from_logits, ctx, case, method, lay)
      ctx.ob('learned derivative', k, learned, ctx, case, method, lay)
  ctx.ob('stencil coefficients', '', stencil_coefficients, ctx)
  for nd in (1, 2):
    for conv in (False, True):
      for fuse in (False, True):
        for lay in layouts(nd):
          if conv and lay is None:
            continue
          ctx.ob('fused layers', f'ndim={nd} conv={conv} patches={fuse} {lay}',
                 fused, ctx, nd, conv, fuse, lay)
  ctx.ob('fused layers', 'rolled', fused_rolled, ctx)
  for nd in (1, 2):
    for size in (2, 4, 'anisotropic'):
      for tags in ((None,), ('c', 'u')):
        if nd == 2 and size == 4 and len(tags) > 1:
          continue
        ctx.ob('learned interpolation', f'ndim={nd} size={size} tags={tags}',
               interpolation, ctx, nd, size, tags)
    ctx.ob('learned interpolation', f'same offset ndim={nd}', same_offset, ctx,
           nd)
    ctx.ob('learned interpolation', f'individual ndim={nd}', individual, ctx,
           nd)


# ------------------------------------------------------------ the oracle

def systems():
  for h in (F(1), F(1, 2)):
    for n, o, d, a in ((2, HALF, 0, 1), (3, ZERO, 0, 1), (3, ZERO, 0, 2),
                       (3, ZERO, 1, 1), (4, HALF, 0, 1), (4, HALF, 0, 2),
                       (4, HALF, 0, 3), (4, HALF, 1, 1), (4, HALF, 1, 2),
                       (4, HALF, 2, 1), (5, ZERO, 2, 1), (5, ZERO, 1, 3),
                       (5, F(1, 4), 1, 2), (6, HALF, 3, 1), (6, HALF, 0, 4),
                       (3, HALF, 0, 1), (4, ZERO, 1, 1), (6, ZERO, 2, 3)):
      yield (n,), (o,), (d,), a, h
    for n, o, d, a in (((2, 2), (HALF, ZERO), (0, 0), 1),
                       ((3, 2), (ZERO, HALF), (0, 0), 1),
                       ((3, 3), (ZERO, ZERO), (0, 0), 2),
                       ((3, 2), (ZERO, HALF), (1, 0), 1),
                       ((2, 3), (HALF, ZERO), (0, 1), 1),
                       ((4, 3), (HALF, ZERO), (0, 0), 2),
                       ((4, 2), (HALF, HALF), (1, 0), 1),
                       ((3, 3), (ZERO, ZERO), (1, 1), 1),
                       ((3, 4), (ZERO, HALF), (0, 2), 1)):
      yield n, o, d, a, h
  yield (2, 2, 2), (HALF, HALF, HALF), (0, 0, 0), 1, F(1, 2)
  yield (2, 1, 3), (HALF, ZERO, ZERO), (0, 0, 1), 1, F(1, 2)
  yield (3, 2, 1), (ZERO, HALF, ZERO), (1, 0, 0), 1, F(1)


def positions(n, o, h):
  left = -((n - 1) // 2)
  return [(left + k - o) * h for k in range(n)]


def moment(x, m, method, h):
  if method == FDM:
    return x ** m
  return ((x + h / 2) ** (m + 1) - (x - h / 2) ** (m + 1)) / (h * (m + 1))


def factorial(n):
  return n * factorial(n - 1) if n else 1


def exponents(nd, deg):
  return [m for m in itertools.product(range(deg + 1), repeat=nd)
          if sum(m) <= deg]


def row(points, m, method, h):
  """Moments of the cells at `points` (tuples, one coordinate per axis)."""
  out = []
  for p in points:
    v = F(1)
    for x, k in zip(p, m):
      v *= moment(F(x), k, method, h)
    out.append(v)
  return out


def rhs(m, d):
  v = 1
  for k, e in zip(m, d):
    v *= factorial(k) if k == e else 0
  return F(v)


def system(points, method, d, acc, h):
  return [row(points, m, method, h) + [rhs(m, d)]
          for m in exponents(len(d), acc + sum(d) - 1)]


def points_of(sizes, off, h):
  return list(itertools.product(*[positions(n, o, h)
                                  for n, o in zip(sizes, off)]))


def reduced(rows, n):
  """Canonical form of an augmented system; None when it has no solution."""
  r, piv = LC.rref(rows, n + 1)
  if n in piv:
    return None
  return [tuple(x) for x in r if any(x)]


def satisfied(coeffs, points, method, d, acc, h, what):
  """The coefficients meet every moment condition, identically."""
  for m in exponents(len(d), acc + sum(d) - 1):
    got = plus(*[times(w, c) for w, c in zip(row(points, m, method, h),
                                             coeffs) if w])
    ok = X.equal(got, X.const(rhs(m, d)))
    need(ok, f'{what}: moment {fmt(m)} is {X.show(got, 8)}, expected '
         f'{rhs(m, d)}')


# ------------------------------------------------------------ values

def vec(ctx, xs):
  return A.from_entries([X.const(x) for x in xs], (len(xs),))


def meth_of(ctx, name):
  return ctx.ip.getattr(ctx.anchor('ml.layers_util', 'Method'), name)


def entries(v, what='coefficients'):
  a = arr_of(v)
  if a.shape is None:
    raise Undecided(f'{what}: opaque')
  return [A.at_index(a, ix) for ix in itertools.product(*map(range, a.shape))]


def rd(name, *ix):
  return X.rd(name, (None,) * len(ix), tuple(E(i) for i in ix), True, False)


def stencil_arrays(ctx, sizes, off, h):
  return [vec(ctx, positions(n, o, h)) for n, o in zip(sizes, off)]


def layouts(nd):
  return {1: (None, (1,), (2,)), 2: (None, (2, 1), (2, 2)),
          3: (None, (1, 2, 1))}[nd]


# ------------------------------------------------------------ rules

def constraints(ctx, method, sizes, off, d, acc, h):
  pts = points_of(sizes, off, h)
  want = reduced(system(pts, method, d, acc, h), len(pts))
  args = (stencil_arrays(ctx, sizes, off, h), meth_of(ctx, method), d, acc, h)
  if want is None:
    ctx.raises(REFUSE, lambda: ctx.call(
        LU + 'polynomial_accuracy_constraints', *args))
    return
  a, b = ctx.ip.iterate(ctx.call(LU + 'polynomial_accuracy_constraints', *args))
  rows = LC.matrix(arr_of(a))
  if rows is None:
    raise Undecided('constraint matrix is not constant')
  rs = [e.const_value() for e in entries(b)]
  need(len(rs) == len(rows) and len(rows[0]) == len(pts),
       f'system of {len(rows)}x{len(rows[0])} with {len(rs)} right-hand sides '
       f'for {len(pts)} cells')
  got = reduced([r + [x] for r, x in zip(rows, rs)], len(pts))
  need(got == want, 'the system does not have the solutions of the moment '
       'conditions')
  need(len(rows) <= len(pts) or len(want) < len(rows),
       'more independent rows than cells')


def coefficients(ctx, method, sizes, off, d, acc, h):
  pts = points_of(sizes, off, h)
  if any(n - k < acc for n, k in zip(sizes, d)):
    return
  for order in (acc, None):
    r = ctx.call(LU + 'polynomial_accuracy_coefficients',
                 stencil_arrays(ctx, sizes, off, h), meth_of(ctx, method), d,
                 order, h)
    a = arr_of(r)
    need(tuple(a.shape) == tuple(sizes), f'coefficients have shape {a.shape}')
    cs = entries(r)
    satisfied(cs, pts, method, d, acc, h, f'accuracy {order}')
    if order is None:
      for m in itertools.product(*map(range, sizes)):
        got = plus(*[times(w, c) for w, c in
                     zip(row(pts, m, method, h), cs)])
        need(X.equal(got, X.const(rhs(m, d))),
             f'moment {fmt(m)} is {X.show(got, 6)}, expected {rhs(m, d)}')


def layer(ctx, method, sizes, off, d, acc, h, **kw):
  return ctx.call(LA + 'PolynomialConstraint', stencil_arrays(
      ctx, sizes, off, h), d, meth_of(ctx, method), (h,) * len(sizes),
                  accuracy_order=acc, **kw)


def constrained(ctx, method, sizes, off, d, acc, h):
  pts = points_of(sizes, off, h)
  want = reduced(system(pts, method, d, acc, h), len(pts))
  if want is None:
    ctx.raises(REFUSE, lambda: layer(ctx, method, sizes, off, d, acc, h))
    return
  free = len(pts) - len(want)
  if any(n - k < acc for n, k in zip(sizes, d)):
    return
  mk = lambda: layer(ctx, method, sizes, off, d, acc, h,
                     bias_accuracy_order=acc)
  redundant = len(want) < len(exponents(len(d), acc + sum(d) - 1))
  if not free:
    ctx.raises(REFUSE, mk)
    return
  lay = mk()
  k = M.as_int(prop(ctx, lay, 'subspace_size'))
  need(k == free or redundant and 0 < k < free, f'{k} free parameters, the solutions have {free}')
  x = A.field('logit', (2, k), None)
  out = meth(ctx, lay, '__call__', x)
  a = arr_of(out)
  need(tuple(a.shape or ()) == (2, len(pts)), f'coefficients of shape {a.shape}')
  for i in range(2):
    cs = [A.at_index(a, (i, j)) for j in range(len(pts))]
    for c in cs:
      for at_ in c.atoms():
        need(at_.op != 'rd' or at_.args[2][0] == X.const(i),
             'coefficients depend on the logits of another location')
    satisfied(cs, pts, method, d, acc, h, 'coefficients')
    jac = []
    for q in range(k):
      a_ = next(iter(rd('logit', i, q).atoms()))
      g = [c.t.get(((a_.id, F(1)),), F(0)) for c in cs]
      jac.append(g)
    need(len(LC.rref(jac, len(pts))[1]) == k,
         'some logits have no effect of their own')


def bad_constraints(ctx):
  s = vec(ctx, [F(-1), F(0), F(1)])
  f = LU + 'polynomial_accuracy_constraints'
  fv, fd = meth_of(ctx, FV), meth_of(ctx, FDM)
  for args in (([s, s], fd, (0,), 1), ([s], fd, (0, 1), 1), ([s], fd, (0,), 0),
               ([s], fd, (1,), 0), ([s], fd, (1,), 3), ([s], fd, (2,), 3),
               ([s], fd, (1,), -1), ([s], fv, (0,), 1), ([s], fv, (0,), 1, None),
               ([s], 'finite differences', (0,), 1, F(1))):
    ctx.raises(REFUSE, lambda args=args: ctx.call(f, *args))


def bad_layer(ctx):
  s = vec(ctx, [F(-1), F(0), F(1)])
  fd = meth_of(ctx, FDM)
  f = LA + 'PolynomialConstraint'
  bad = vec(ctx, [F(0), F(1, 2), F(0)])
  for args, kw in (
      (([s, s], (0, 0), fd, (F(1), F(2))), {}),
      (([s], (0,), fd, (F(1),), 3), {'bias_accuracy_order': 3}),
      (([s], (0,), fd, (F(1),)), {'bias': bad}),
      (([s], (1,), fd, (F(1),)), {'bias': vec(ctx, [F(0), F(-1), F(2)])}),
      (([s], (0,), fd, (F(1),), 2), {'bias': vec(ctx, [F(1), F(0), F(0)])})):
    ctx.raises(REFUSE, lambda args=args, kw=kw: ctx.call(f, *args, **kw))


def given_bias(ctx):
  for d, bias in (((0,), [F(1, 4), F(1, 4), F(1, 4), F(1, 4)]),
                  ((1,), [F(0), F(0), F(-1), F(1)])):
    pts = points_of((4,), (HALF,), F(1))
    b = vec(ctx, bias)
    lay = layer(ctx, FDM, (4,), (HALF,), d, 1, F(1), bias=b)
    k = M.as_int(prop(ctx, lay, 'subspace_size'))
    z = A.full((k,), X.ZERO)
    ctx.same(meth(ctx, lay, '__call__', z), b, 'coefficients at zero')
    cs = entries(meth(ctx, lay, '__call__', A.field('logit', (k,), None)))
    satisfied(cs, pts, FDM, d, 1, F(1), 'coefficients')


def default_bias(ctx):
  """Without logits the result has the accuracy asked for the bias."""
  for method in (FDM, FV):
    for n, o, d, acc in ((5, ZERO, (0,), 3), (5, ZERO, (1,), 3),
                         (6, HALF, (1,), 4), (6, HALF, (0,), 2)):
      pts = points_of((n,), (o,), F(1, 2))
      lay = layer(ctx, method, (n,), (o,), d, 1, F(1, 2),
                  bias_accuracy_order=acc)
      z = A.full((M.as_int(prop(ctx, lay, 'subspace_size')),), X.ZERO)
      satisfied(entries(meth(ctx, lay, '__call__', z)), pts, method, d, acc,
                F(1, 2), 'coefficients at zero')


def stencils(ctx, nd):
  cases = [(n, o) for n in (1, 2, 3, 4, 5) for o in (ZERO, HALF, F(1, 4))]
  for case in (cases if nd == 1 else [((2, 3, 4)[:nd], (HALF, ZERO, HALF)[:nd]),
                                      ((3, 1, 2)[:nd], (ZERO, HALF, ZERO)[:nd])]):
    sizes, off = case if nd > 1 else ((case[0],), (case[1],))
    hs = (X.sym('h0', pos=True), X.sym('h1', pos=True),
          X.sym('h2', pos=True))[:nd]
    out = ctx.ip.iterate(ctx.call(LU + 'get_stencils', sizes, off, hs))
    need(len(out) == nd, f'{len(out)} stencils for {nd} axes')
    for n, o, h, s in zip(sizes, off, hs, out):
      cs = [over(e, h) for e in entries(s, 'stencil')]
      need(len(cs) == n and all(c.is_const() for c in cs),
           f'stencil of {len(cs)} positions, expected {n}')
      cs = [c.const_value() for c in cs]
      need(all(b - a == 1 for a, b in zip(cs, cs[1:])),
           f'stencil positions {fmt(cs)} are not consecutive cells')
      need((cs[0] + o).denominator == 1,
           f'stencil positions {fmt(cs)} are not cells seen from {o}')
      if (n % 2 == 0) == (o == HALF) and o in (ZERO, HALF):
        need(cs[0] == -cs[-1], f'stencil {fmt(cs)} is not centred')
      need(cs[0] >= -n and cs[-1] <= n, f'stencil {fmt(cs)} is far away')


def rollshift(ctx, nd):
  offs = (ZERO, HALF, F(1), F(-1, 2), F(3, 2), F(1, 4))
  for i, t in itertools.product(offs, offs):
    a = (i, HALF, t)[:nd]
    b = (t, F(1), i)[:nd]
    r, s = ctx.ip.iterate(ctx.call(LU + 'get_roll_and_shift', a, b))
    r, s = [list(ctx.ip.iterate(v)) for v in (r, s)]
    need(len(r) == nd and len(s) == nd, 'one roll and shift per axis')
    for p, q, x, y in zip(r, s, a, b):
      q = E(q).const_value()
      p = E(p).const_value()
      need(p.denominator == 1 and 0 <= q < 1 and q - p == y - x,
           f'roll {p} and shift {q} for {x} -> {y}')


PATCHES = ((1,), (2,), (3,), (4,), (5,), (1, 2), (2, 2), (3, 2), (2, 3), (3, 3),
           (4, 2), (4, 4), (2, 2, 2), (1, 2, 3))
NS = (4, 6, 4)


def field(name, nd, ns=None, chan=1):
  ns = ns or NS[:nd]
  per = tuple(E(n) for n in ns)
  a = A.field(name, tuple(ns) + (chan,), (True,) * nd + (False,))
  return a, per


def cell(name, per, ix, c=0):
  return X.rd(name, per + (None,), tuple(E(i) for i in ix) + (E(c),), True,
              False)


def patch_spec(name, per, shape):
  disp = list(itertools.product(*[range(-((n - 1) // 2),
                                        n - (n - 1) // 2) for n in shape]))

  def f(*ix):
    k = ix[-1].const_value()
    dd = disp[int(k)]
    return cell(name, per, [plus(i, s) for i, s in zip(ix, dd)])
  return f, len(disp)


def small(shape, lay):
  """Sizes with tiles no smaller than the halo."""
  return tuple(max(3, n) * (1 if lay is None else lay[k])
               for k, n in enumerate(shape)) if len(shape) < 3 else (4, 4, 4)


def patches(ctx, shape, method, lay):
  nd = len(shape)
  ns = small(shape, lay)
  x, per = field('u', nd, ns)
  r = ctx.call(LU + 'extract_patches', x, shape, method, lay)
  spec, n = patch_spec('u', per, shape)
  pointwise(r, ns + (n,), spec, 'patch')
  if method == 'roll':
    ctx.same(ctx.call(LU + 'extract_patches', x, shape), r, 'default patches')


def fused_patches(ctx, shapes, lay):
  nd = len(shapes[0])
  ns = small(tuple(max(s[k] for s in shapes) for k in range(nd)), lay)
  if len({s for s in shapes}) > 1 and any(
      len({s[k] for s in shapes}) > 1 for k in range(nd)):
    shapes = (shapes[0],) * len(shapes)
  x, per = field('u', nd, ns)
  r = ctx.call(LU + 'fused_extract_patches', x, shapes, lay)
  specs = [patch_spec('u', per, s) for s in shapes]

  def want(*ix):
    k = int(ix[-1].const_value())
    for f, n in specs:
      if k < n:
        return f(*ix[:-1], X.const(k))
      k -= n
    raise Violated('too many patch elements')
  pointwise(r, ns + (sum(n for _, n in specs),), want, 'patch')


def bad_patches(ctx):
  x, _ = field('u', 1)
  ctx.raises(REFUSE, lambda: ctx.call(LU + 'extract_patches', x, (2,), 'fft'))


LAYERS = (
    ((2,), (HALF,), (F(1),), (0,)),
    ((4,), (HALF,), (F(1),), (0,)),
    ((3,), (HALF,), (HALF,), (1,)),
    ((4,), (F(1),), (HALF,), (0,)),
    ((4,), (F(1),), (F(3, 2),), (1,)),
    ((4,), (HALF,), (F(-1),), (1,)),
    ((5,), (ZERO,), (ZERO,), (2,)),
    ((2, 2), (F(1), HALF), (F(1), F(1)), (0, 0)),
    ((2, 1), (HALF, HALF), (F(1), HALF), (0, 0)),
    ((3, 2), (HALF, F(1)), (HALF, F(3, 2)), (0, 1)),
    ((2, 2), (HALF, F(1)), (F(1), HALF), (0, 0)),
    ((2, 2), (F(1), HALF), (HALF, F(1)), (1, 0)),
    ((2, 3), (F(1), HALF), (HALF, F(-1, 2)), (0, 1)),
    ((2, 2, 2), (HALF, HALF, F(1)), (F(1), F(1), HALF), (0, 0, 0)),
)


def forms(e, name, per):
  """Coefficients of a linear form in the cells of field `name`."""
  out = {}
  for m, c in e.t.items():
    ids = [(i, k) for i, k in m if X.Atom.by_id[i].op == 'rd' and
           X.Atom.by_id[i].args[0] == name]
    need(len(ids) == 1 and ids[0][1] == 1,
         f'not a linear form in the input: {X.show(e, 6)}')
    i = ids[0][0]
    rest = X.Expr({tuple(x for x in m if x[0] != i): c})
    ix = X.Atom.by_id[i].args[2]
    out[ix] = X.add(out.get(ix, X.ZERO), rest)
  return out


def displacement(ix, at_, per):
  """Signed distances (in cells) from the point at_, the short way round."""
  out = []
  for i, p, n in zip(ix, at_, per):
    d = X.add(i, X.scale(E(p), -1))
    if not d.is_const():
      raise Undecided('displacement of a patch element')
    d, n = d.const_value(), n.const_value()
    d %= n
    out.append(d - n if d > n / 2 else d)
  return tuple(out)


def judge(ctx, res, ns, per, case, h, logit_names, steps_bias=True):
  """res: the layer's output on u; logits are cells of logit_names."""
  sizes, a, b, d = case
  nd = len(sizes)
  arr = arr_of(res)
  need(tuple(arr.shape or ()) == tuple(ns) + (1,),
       f'output has shape {arr.shape}, expected {tuple(ns) + (1,)}')
  base = None
  for p in sample(ns):
    e = A.at_index(arr, p + (0,))
    co = forms(e, 'u', per)
    disp, cs = [], []
    for ix, c in co.items():
      disp.append(displacement(ix[:nd], p, per))
      cs.append(c)
    pts = [tuple((F(s) + x - y) * h for s, x, y in zip(q, a, b)) for q in disp]
    satisfied(cs, pts, FV, d, 1, h, f'weights at {fmt(p)}')
    zero = [strip(c, logit_names) for c in cs]
    sym = all((n % 2 == 0) == ((x - y) % 1 == HALF) for n, x, y in
              zip(sizes, a, b))
    if sym:
      satisfied(zero, pts, FV, d, 2, h, f'untrained weights at {fmt(p)}')
    span(disp, sizes, p)
    key = tuple(sorted((q, shape_of_weight(c, p, per, logit_names, nd))
                       for q, c in zip(disp, cs)))
    if base is None:
      base = key
    need(key == base, f'the stencil at {fmt(p)} differs from the one at '
         f'{fmt((0,) * nd)}: not translation invariant')


def sample(ns):
  return list(itertools.product(*map(range, ns)))


def span(disp, sizes, p):
  for k, n in enumerate(sizes):
    w = sorted({q[k] for q in disp})
    need(len(w) <= n and w[-1] - w[0] < n,
         f'the stencil at {fmt(p)} spans {fmt(w)} along axis {k}, not {n} '
         'neighbouring cells')


def strip(c, names):
  """c at zero logits."""
  mp = {}
  for at_ in c.atoms():
    if at_.op == 'rd' and at_.args[0] in names:
      mp[at_.id] = X.ZERO
  return X.subst(c, mp) if mp else c


def shape_of_weight(c, p, per, names, nd):
  """The weight with logits written relative to p."""
  out = []
  for m, k in c.t.items():
    t = []
    for i, e in m:
      at_ = X.Atom.by_id[i]
      if at_.op == 'rd' and at_.args[0] in names:
        t.append((at_.args[0], displacement(at_.args[2][:nd], p, per),
                  str(at_.args[2][nd:]), str(e)))
      else:
        t.append((str(i), (), '', str(e)))
    out.append((tuple(sorted(t)), k))
  return tuple(sorted(out))


def sizes_for(case, lay):
  """Enough cells to tell every displacement from its wrapped image."""
  sizes, a, b = case[:3]
  if len(sizes) == 1:
    return (4 * int((sizes[0] + 1 + 2 * abs(F(a[0]) - b[0])) // 4 + 1),)
  return (6,) * 2 if len(sizes) == 2 else (4,) * 3


def from_logits(ctx, case, method, lay):
  sizes, a, b, d = case
  nd, h = len(sizes), F(1, 2)
  ns = sizes_for(case, lay)
  x, per = field('u', nd, ns)
  make = lambda: ctx.call(LA + 'SpatialDerivativeFromLogits', sizes, a, b, d,
                          (h,) * nd, method, lay)
  lay_ = make()
  k = M.as_int(prop(ctx, lay_, 'subspace_size'))
  logits, _ = field('logit', nd, ns, k)
  res = meth(ctx, lay_, '__call__', x, logits)
  judge(ctx, res, ns, per, case, h, ('logit',))
  own_logits(res, ns, per, ('logit',), nd)
  bad, _ = field('logit', nd, ns, k + 1)
  ctx.raises(REFUSE, lambda: meth(ctx, lay_, '__call__', x, bad))


def own_logits(res, ns, per, names, nd):
  arr = arr_of(res)
  for p in sample(ns):
    for at_ in A.at_index(arr, p + (0,)).atoms():
      if at_.op == 'rd' and at_.args[0] in names:
        need(tuple(e.const_value() for e in at_.args[2][:nd]) == p,
             f'the weights at {fmt(p)} use the logits of '
             f'{fmt(at_.args[2][:nd])}')


def tower(ctx, log):
  """A network that mixes the channels of one location in an unknown way."""
  def factory(ip, args, kw):
    n = M.as_int(args[0])
    log.append(('factory', n, args[1:], kw))

    def net(ip_, b, kw_):
      log.append(('net', b, kw_))
      x = M.to_arr(b[0])
      k = len([e for e in log if e[0] == 'net'])
      per = tuple(E(m) for m in x.shape[:-1])
      return A.field(f'logit{k}', x.shape[:-1] + (n,),
                     (True,) * len(per) + (False,))
    return pyfn('net', net)
  return pyfn('tower_factory', factory)


def learned(ctx, case, method, lay):
  sizes, a, b, d = case
  nd, h = len(sizes), F(1, 2)
  ns = sizes_for(case, lay)
  x, per = field('u', nd, ns)
  for aux in (0, 2):
    log = []
    fac = tower(ctx, log)
    lay_ = ctx.call(LA + 'SpatialDerivative', sizes, a, b, d, fac, (h,) * nd,
                    method, lay)
    extra = [field(f'aux{k}', nd, ns)[0] for k in range(aux)]
    res = meth(ctx, lay_, '__call__', x, *extra)
    judge(ctx, res, ns, per, case, h, ('logit1',))
    nets = [e for e in log if e[0] == 'net']
    need(len(nets) == 1, f'the network is evaluated {len(nets)} times')
    got = arr_of(nets[0][1][0])
    need(tuple(got.shape) == tuple(ns) + (1 + aux,),
         f'the network sees an input of shape {got.shape}')
    seen = None
    for p in sample(ns):
      at_ = []
      for c in range(1 + aux):
        e = A.at_index(got, p + (c,))
        want = 'u' if c == 0 else f'aux{c - 1}'
        at1 = e.atoms()
        need(len(at1) == 1 and e == X.of_atom(at1[0]) and at1[0].op == 'rd' and
             at1[0].args[0] == want,
             f'channel {c} of the network input is {X.show(e, 4)}, expected '
             f'{want}')
        at_.append(displacement(at1[0].args[2][:nd], p, per))
      need(len(set(at_)) == 1, f'the channels of the network input at {fmt(p)} '
           f'come from different places: {at_}')
      if seen is None:
        seen = at_[0]
      need(at_[0] == seen, 'the network input is scrambled: displacement '
           f'{fmt(at_[0])} at {fmt(p)}, {fmt(seen)} elsewhere')


def stencil_coefficients(ctx):
  for sizes, off, d in (((3,), (ZERO,), (1,)), ((2, 2), (HALF, ZERO), (0, 0))):
    for method in (None, FDM):
      log = []
      nd, h = len(sizes), F(1, 2)
      kw = {} if method is None else {'method': meth_of(ctx, method)}
      m = ctx.call(LA + 'StencilCoefficients', stencil_arrays(
          ctx, sizes, off, h), d, tower(ctx, log), (h,) * nd, **kw)
      x, _ = field('u', nd, NS[:nd], 3)
      out = meth(ctx, m, '__call__', x, flag=True)
      pts = points_of(sizes, off, h)
      free = len(pts) - len(reduced(system(pts, method or FV, d, 1, h),
                                    len(pts)))
      need(log[0][0] == 'factory' and log[0][1] == free,
           f'the network has {log[0][1]} outputs, expected {free}')
      need(log[1][0] == 'net' and log[1][2].get('flag') is True,
           'the options of the call do not reach the network')
      ctx.same(log[1][1][0], x, 'network input')
      a = arr_of(out)
      need(tuple(a.shape) == NS[:nd] + (len(pts),), f'shape {a.shape}')
      for p in sample((2,) * nd):
        satisfied([A.at_index(a, p + (j,)) for j in range(len(pts))], pts,
                  method or FV, d, 1, h, 'coefficients')


def make_layers(ctx, nd, lay, cases):
  h = F(1, 2)
  return {f'k{i}': ctx.make(LA + 'SpatialDerivativeFromLogits', c[0], c[1],
                            c[2], c[3], (h,) * nd, 'roll', lay)
          for i, c in enumerate(cases)}


FUSED = {1: (((3,), (HALF,), (HALF,), (1,)), ((4,), (HALF,), (F(1),), (0,)),
             ((2,), (F(1),), (F(3, 2),), (0,))),
         2: (((2, 2), (F(1), HALF), (F(1), F(1)), (0, 0)),
             ((1, 2), (HALF, HALF), (HALF, F(1)), (0, 0)),
             ((3, 2), (HALF, F(1)), (HALF, F(3, 2)), (0, 1)))}


def fused(ctx, nd, conv, fuse, lay):
  cases = FUSED[nd]
  if fuse:  # one kernel: the patches have to agree in shape
    cases = tuple((cases[0][0],) + c[1:] for c in cases)
  ns = small(tuple(max(c[0][k] for c in cases) for k in range(nd)), lay)
  ds = make_layers(ctx, nd, lay, cases)
  ks = [M.as_int(ctx.ip.getattr(l, 'subspace_size')) for l in ds.values()]
  logits, _ = field('logit', nd, ns, sum(ks))
  x, per = field('u', nd, ns)
  fs = ctx.call(LA + 'fuse_spatial_derivative_layers', ds, logits,
                constrain_with_conv=conv, fuse_patches=fuse)
  need(set(fs) == set(ds), f'keys {list(fs)}')
  lo = 0
  for (k, l), n in zip(ds.items(), ks):
    part = A.slice_axis(logits, nd, lo, n)
    want = ctx.ip.call(ctx.ip.getattr(l, '__call__'), [x, part], {})
    ctx.same(ctx.ip.call(fs[k], [x], {}), want, f'derivative {k}')
    lo += n


def fused_rolled(ctx):
  ds = make_layers(ctx, 1, None, (((4,), (F(1),), (HALF,), (0,)),))
  logits, _ = field('logit', 1, (6,), M.as_int(
      ctx.ip.getattr(ds['k0'], 'subspace_size')))
  ctx.raises(REFUSE, lambda: ctx.call(LA + 'fuse_spatial_derivative_layers', ds,
                                      logits))


# ------------------------------------------------------------ interpolation

def opts(nd):
  yield {}
  yield {'extract_patch_method': 'conv'}
  yield {'extract_patch_method': 'conv', 'tile_layout': (2,) * nd}
  yield {'fuse_constraints': True}
  yield {'fuse_constraints': True, 'tile_layout': (2,) * nd,
         'extract_patch_method': 'conv', 'constrain_with_conv': True}
  yield {'fuse_constraints': True, 'fuse_patches': True}
  yield {'fuse_constraints': True, 'fuse_patches': True,
         'tile_layout': (1,) * nd, 'constrain_with_conv': True}


def grid_fields(ctx, nd):
  n = 6 if nd == 1 else 4
  w = World(ctx, nd, (n,) * nd)
  w.grid = ctx.make('base.grids:Grid', (n,) * nd, step=(F(1, 2),) * nd)
  v = tuple(w.var(f'v{d}', face(nd, d)) for d in range(nd))
  return w, n, v


def interpolation(ctx, nd, size, tags):
  w, n, v = grid_fields(ctx, nd)
  per = (E(n),) * nd
  dt = X.sym('dt', pos=True)
  first = {}
  for o in opts(nd):
    if size == 'anisotropic' and o.get('fuse_patches'):
      continue
    log = []
    kw = dict(o, tower_factory=tower(ctx, log), tags=tags)
    if size == 'anisotropic':
      f = ctx.call(IP + 'anisotropic_learned_interpolation', w.grid, dt, None,
                   v, **kw)
    else:
      f = ctx.call(IP + 'FusedLearnedInterpolation', w.grid, dt, None, v,
                   stencil_size=size, **kw)
    nets = [e for e in log if e[0] == 'net']
    need(len(nets) == 1, f'{len(nets)} evaluations of the network')
    a = arr_of(nets[0][1][0])
    pointwise(a, (n,) * nd + (nd,), lambda *ix: w.rd(
        f'v{int(ix[-1].const_value())}', *ix[:-1]), 'network input')
    used = {}
    for d in range(nd):
      for t in range(nd):
        off = list(face(nd, d))
        off[t] += HALF
        off = tuple(F(x) for x in off)
        for tag in tags:
          c = w.var('c', face(nd, d))
          kt = {} if tag is None else {'tag': tag}
          r = meth(ctx, f, '__call__', c, off, v, dt, **kt)
          need_kind(r, 'GridVariable')
          need_offset(r, off)
          ctx.same(bc_of(r), bc_of(c), 'boundary condition')
          arr = arr_of(r)
          need(tuple(arr.shape or ()) == (n,) * nd, f'result of shape {arr.shape}')
          res = A.expand_dims(rename(arr, 'c', per), nd)
          sz = tuple((1 if size == 'anisotropic' and k != t else
                      2 if size == 'anisotropic' else size) for k in range(nd))
          judge_interp(ctx, res, n, per, face(nd, d), off, sz, t)
          key = (d, t, tag)
          if key in first:
            ctx.same(arr, first[key], f'result with options {o}')
          else:
            first[key] = arr
          used[key] = {str(at_.args[2][nd:]) for e in [A.at_index(arr, (0,) * nd)]
                       for at_ in e.atoms() if at_.op == 'rd' and
                       at_.args[0] == 'logit1'}
    ks = list(used)
    for i, k in enumerate(ks):
      for q in ks[i + 1:]:
        need(not used[k] & used[q], f'interpolations {k} and {q} share logits')
    total = sum(map(len, used.values()))
    fac = [e for e in log if e[0] == 'factory']
    need(fac[0][1] == total, f'{fac[0][1]} logits, {total} are used')
    ctx.raises(('KeyError',), lambda: meth(
        ctx, f, '__call__', w.var('c', (F(1, 4),) * nd), (HALF,) * nd, v, dt))


def rename(arr, name, per):
  return arr


def judge_interp(ctx, arr, n, per, a, b, sizes, axis):
  nd = len(per)
  h = F(1, 2)
  ar = arr_of(arr)
  base = None
  for p in sample((n,) * nd):
    e = A.at_index(ar, p + (0,))
    co = forms(e, 'c', per)
    disp = [displacement(ix[:nd], p, per) for ix in co]
    cs = list(co.values())
    pts = [tuple((F(s) + x - y) * h for s, x, y in zip(q, a, b)) for q in disp]
    satisfied(cs, pts, FV, (0,) * nd, 1, h, f'weights at {fmt(p)}')
    span(disp, sizes, p)
    zero = {q: strip(c, ('logit1',)) for q, c in zip(disp, cs)}
    zero = {q: c for q, c in zero.items() if c.t}
    if all(s % 2 == 0 or k != axis for k, s in enumerate(sizes)):
      moving = sum(times(c, pt[axis]) for c, pt in zip(
          [strip(c, ('logit1',)) for c in cs], pts))
      need(X.equal(E(moving), X.ZERO), 'untrained weights are not centred '
           f'along axis {axis}')
    key = tuple(sorted((q, shape_of_weight(c, p, per, ('logit1',), nd))
                       for q, c in zip(disp, cs)))
    if base is None:
      base = key
    need(key == base, f'the stencil at {fmt(p)} is not the one at the origin')


def same_offset(ctx, nd):
  w, n, v = grid_fields(ctx, nd)
  dt = X.sym('dt', pos=True)
  for o in ({}, {'fuse_constraints': True}):
    f = ctx.call(IP + 'FusedLearnedInterpolation', w.grid, dt, None, v,
                 tower_factory=tower(ctx, []), **o)
    for off in (center(nd), face(nd, 0)):
      c = w.var('c', off)
      r = meth(ctx, f, '__call__', c, tuple(off), v, dt)
      need_offset(r, off)
      ctx.same(r, c, 'interpolation to the own offset')


def individual(ctx, nd):
  w, n, v = grid_fields(ctx, nd)
  per = (E(n),) * nd
  dt = X.sym('dt', pos=True)
  log = []
  f = ctx.call(IP + 'IndividualLearnedInterpolation', w.grid, dt, None, v,
               stencil_size=2, tower_factory=tower(ctx, log))
  k = 0
  for a, b in ((face(nd, 0), center(nd)), (center(nd), face(nd, 0)),
               (face(nd, 0), face(nd, nd - 1)), (face(nd, 0), center(nd))):
    a, b = [tuple(F(x) for x in o) for o in (a, b)]
    c = w.var('c', a)
    r = meth(ctx, f, '__call__', c, b, v, dt)
    if a == b:
      ctx.same(r, c, 'interpolation to the own offset')
      continue
    k += 1
    need_kind(r, 'GridVariable')
    need_offset(r, b)
    ctx.same(bc_of(r), bc_of(c), 'boundary condition')
    arr = arr_of(r)
    need(tuple(arr.shape or ()) == (n,) * nd, f'result of shape {arr.shape}')
    for p in sample((n,) * nd):
      co = forms(A.at_index(arr, p), 'c', per)
      disp = [displacement(ix[:nd], p, per) for ix in co]
      pts = [tuple((F(s) + x - y) / 2 for s, x, y in zip(q, a, b))
             for q in disp]
      satisfied(list(co.values()), pts, FV, (0,) * nd, 1, HALF,
                f'weights at {fmt(p)}')
      z = [strip(x, (f'logit{k}',)) for x in co.values()]
      for d in range(nd):
        if (a[d] - b[d]) % 1 == HALF:
          m = plus(*[times(x, pt[d]) for x, pt in zip(z, pts)])
          need(X.equal(m, X.ZERO),
               f'untrained weights are not centred along axis {d}')
    nets = [e for e in log if e[0] == 'net']
    need(len(nets) == k, f'{len(nets)} evaluations of networks, expected {k}')
    need(nets[-1][1][0].shape[-1] == 1 + nd, 'the network misses the velocity')
  need(len([e for e in log if e[0] == 'factory']) == len(
      {(face(nd, 0), center(nd)), (center(nd), face(nd, 0)),
       (face(nd, 0), face(nd, nd - 1))}) - (nd == 1),
       'one network per pair of offsets')
