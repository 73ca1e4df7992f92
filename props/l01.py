"""L01: Laplacian matrices and functions of separable operators."""
import itertools as it

from props.diag import *  # pylint: disable=wildcard-import,unused-wildcard-import

EXPLANATION = (
    'Laplacian matrices are built with symbolic steps and multiplied with a '
    'symbolic vector; each row must be the three-point stencil continued by the '
    'homogeneous boundary law. transform and pseudoinverse are interpreted with '
    'unknown operators, an unknown scalar function and an unknown right-hand '
    'side: the matrix form must be V f(sum of eigenvalues) V^T x in every '
    'entry, the Fourier forms the inverse transform of f(symbol) times the '
    'transform of x.')

AU, FG = 'base.array_utils:', 'base.fast_diagonalization:'
REFUSE = ('ValueError', 'NotImplementedError', 'AssertionError', 'TypeError')


def tname(types):
  return '/'.join(t[0][0] + t[1][0] for t in types)


def run(ctx):
  for n in (3, 4, 5, 6):
    ctx.ob('periodic matrix', f'n={n}', periodic, ctx, n)
  for nd, shape in ((1, (3,)), (1, (5,)), (2, (3, 4)), (2, (5, 3)),
                    (3, (4, 3, 5))):
    kinds = KINDS if nd < 3 else (P2, D2, N2)
    for types in it.product(kinds, repeat=nd):
      if nd == 2 and shape == (5, 3) and types[0] == types[1]:
        continue
      offs = [center(nd)]
      for d in range(nd):
        offs += [face(nd, d), face(nd, d, ZERO)]
      if nd < 3 or len(set(types)) > 1:
        for o in offs:
          ctx.ob('boundary matrix', f'shape={shape} {tname(types)} at {fmt(o)}',
                 bounded, ctx, nd, shape, types, o)
  for shape in ((3,), (2,), (2, 3), (3, 2), (2, 3, 2)):
    ctx.ob('matrix form', f'shape={shape}', matmul, ctx, shape)
    ctx.ob('pseudoinverse', f'shape={shape}', pinv, ctx, shape)
  for shape in ((4,), (6, 4), (3, 4), (3, 4, 6)):
    for impl in ('fft', 'rfft'):
      ctx.ob('Fourier form', f'{impl} shape={shape}', fourier, ctx, shape, impl)
      ctx.ob('Fourier pseudoinverse', f'{impl} shape={shape}', fpinv, ctx,
             shape, impl)
  for shape in ((4,), (5,), (3, 4), (4, 3), (4, 4, 3)):
    for platform in ('cpu', 'tpu'):
      ctx.ob('default form', f'{platform} shape={shape}', default, ctx, shape,
             platform)
  ctx.ob('refusals', '', refusals, ctx)


def size_of(x):
  return int(x) if not isinstance(x, Expr) else int(x.const_value())


def entry(a, i, j):
  return at(M.to_arr(a), [(None, X.const(i)), (None, X.const(j))])


def periodic(ctx, n):
  h = X.sym('h', pos=True)
  m = M.to_arr(ctx.call(AU + 'laplacian_matrix', n, h))
  need(m.shape == (n, n), f'shape {m.shape}')
  for i in range(n):
    for j in range(n):
      c = {0: -2, 1: 1, n - 1: 1}.get((i - j) % n, 0)
      need(X.equal(entry(m, i, j), over(c, times(h, h))),
           f'entry {i, j}: {entry(m, i, j)}, expected {c}/h^2')


def bounded(ctx, nd, shape, types, o):
  w = World(ctx, nd, shape=shape)
  bc = w.bc(types)
  edge_neu = any(o[d] % 1 == 0 and NEU in types[d] for d in range(nd))
  if edge_neu:
    ctx.raises(REFUSE, lambda: ctx.call(
        AU + 'laplacian_matrix_w_boundaries', w.grid, o, bc))
    return
  ms = ctx.call(AU + 'laplacian_matrix_w_boundaries', w.grid, o, bc)
  ms = [M.to_arr(m) for m in ctx.ip.iterate(ms)]
  need(len(ms) == nd, f'{len(ms)} matrices for {nd} axes')
  for d, m in enumerate(ms):
    n = size_of(w.n[d])
    wall = types[d][0] != PER and o[d] % 1 == 0
    size = n - 1 if wall else n
    need(m.shape == (size, size), f'axis {d}: shape {m.shape}, expected '
         f'{(size, size)}')
    first = 1 if wall and o[d] == 0 else 0
    u = lambda i: X.rd('u', (None,), (E(i),))
    if types[d][0] == PER:
      val = lambda i: u(E(i).const_value() % n)
    else:
      data = lambda i: (X.ZERO if wall and E(i).const_value() in
                        ((0,) if o[d] == 0 else (n - 1,)) else u(i))
      val = extended(data, n, types[d], (X.ZERO, X.ZERO), o[d], w.h[d], EXT)
    for i in range(size):
      got = X.add_many([X.mul(entry(m, i, j), u(j + first))
                        for j in range(size)])
      k = i + first
      want = over(plus(val(k - 1), times(-2, val(k)), val(k + 1)),
                  times(w.h[d], w.h[d]))
      need(X.equal(got, want), f'axis {d} row {i}: {X.show(got, 8)}, expected '
           f'{X.show(want, 8)}')
  again = ctx.call(AU + 'laplacian_matrix_w_boundaries', w.grid, o, bc)
  for a, b in zip(ctx.ip.iterate(again), ms):
    need(A.difference(M.to_arr(a), b) is None, 'second call differs')


# ------------------------------------------------------------ matrix form

def opers(shape):
  """Unknown symmetric matrices."""
  out = []
  for d, n in enumerate(shape):
    s = A.field(f'op{d}', (n, n))
    out.append(A.ewise(X.add, s, A.transpose(s, (1, 0))))
  return out


def dt_of(ctx, x):
  return ctx.ip.getattr(x, 'dtype')


def rhs_of(shape):
  return A.field('x', shape)


def dense(ctx, ops, f, x, got, what='value'):
  """got == V f(sum lambda) V^T x, entry by entry."""
  reg = ctx.ip.__dict__.get('eigh_reg', [])
  shape = tuple(o.shape[0] for o in ops)
  ids = []
  for o in ops:
    k = [k for k, r in enumerate(reg) if A.difference(r, o) is None]
    need(k, f'{what}: an operator was not diagonalised')
    ids.append(k[0])
  lam = lambda d, k: X.rd(f'eigval{ids[d]}', (None,), (X.const(k),))
  vec = lambda d, i, k: X.rd(f'eigvec{ids[d]}', (None, None),
                             (X.const(i), X.const(k)))
  g = arr_of(got)
  need(g.shape == shape, f'{what}: shape {g.shape}')
  modes = list(it.product(*[range(n) for n in shape]))
  hat = {}
  for k in modes:
    c = X.add_many([times(elem(x)(*a), *[vec(d, a[d], k[d])
                                         for d in range(len(shape))])
                    for a in modes])
    hat[k] = times(c, f(plus(*[lam(d, k[d]) for d in range(len(shape))])))
  for i in modes:
    want = X.add_many([times(hat[k], *[vec(d, i[d], k[d])
                                       for d in range(len(shape))])
                       for k in modes])
    need(X.equal(elem(g)(*i), want), f'{what} at {i}: {X.show(elem(g)(*i), 6)},'
         f' expected {X.show(want, 6)}')


def matmul(ctx, shape):
  ctx.fresh()
  ops = opers(shape)
  x = rhs_of(shape)
  f = opaque_fn('f')
  op = ctx.call(FG + 'transform', f, list(ops), dt_of(ctx, x),
                hermitian=True, implementation='matmul')
  y = ctx.ip.call(op, [x], {})
  dense(ctx, ops, lambda e: X.apply_op('user_f', (e,)), x, y)
  # a second application does not depend on the first
  z = ctx.ip.call(op, [x], {})
  ctx.same(arr_of(z), arr_of(y), 'second application')


def inverse(cut):
  return lambda e: X.where(X.gt0(minus(X.absolute(E(e)), cut)), over(1, e),
                           X.ZERO)


def pinv(ctx, shape):
  for cut in (X.sym('cut', pos=True), None):
    ctx.fresh()
    ops = opers(shape)
    x = rhs_of(shape)
    kw = {} if cut is None else dict(cutoff=cut)
    op = ctx.call(FG + 'pseudoinverse', list(ops), dt_of(ctx, x),
                  hermitian=True, implementation='matmul', **kw)
    y = ctx.ip.call(op, [x], {})
    c = times(10, X.sym('finfo.eps', pos=True)) if cut is None else cut
    dense(ctx, ops, inverse(c), x, y, f'cutoff {cut}')


# ------------------------------------------------------------ Fourier forms

def circ(ctx, shape):
  """Operators of which only the first column is known to matter."""
  return [A.field(f'c{d}', (n, n)) for d, n in enumerate(shape)]


def column(d, n):
  return A.take_index(A.field(f'c{d}', (n, n)), 1, 0)


def symbol(ctx, shape, half=False):
  """Eigenvalues: sum of the transforms of the first columns."""
  nd = len(shape)
  tot = None
  for d, n in enumerate(shape):
    kind = 'rfft' if half and d == nd - 1 else 'fft'
    s = M.to_arr(ev(ctx, f'np.fft.{kind}(c)', c=column(d, n)))
    for k in range(nd):
      if k != d:
        s = A.expand_dims(s, k)
    tot = s if tot is None else A.ewise(X.add, tot, s)
  return tot


def fspec(ctx, shape, f, x, half):
  s = symbol(ctx, shape, half)
  fs = A.unary(f, s)
  if half:
    return [arr_of(ev(ctx, 'np.fft.irfftn(f * np.fft.rfftn(x))', f=fs, x=x))]
  src = ('np.fft.ifftn(f * np.fft.fftn(x))', )
  z = ev(ctx, src[0], f=fs, x=x)
  return [arr_of(ev(ctx, 'jnp.real(z)', z=z)), arr_of(z)]


def either(got, alts, what='value'):
  ds = [A.difference(arr_of(got), a) for a in alts]
  if all(d is not None for d in ds):
    raise Violated(f'{what}: {ds[0]}')


def fourier(ctx, shape, impl):
  ops, x = circ(ctx, shape), rhs_of(shape)
  op = ctx.call(FG + 'transform', opaque_fn('f'), list(ops),
                dt_of(ctx, x), circulant=True, implementation=impl)
  y = ctx.ip.call(op, [x], {})
  f = lambda e: X.apply_op('user_f', (e,))
  either(y, fspec(ctx, shape, f, x, impl == 'rfft'))


def fpinv(ctx, shape, impl):
  for cut in (X.sym('cut', pos=True), None):
    ops, x = circ(ctx, shape), rhs_of(shape)
    kw = {} if cut is None else dict(cutoff=cut)
    op = ctx.call(FG + 'pseudoinverse', list(ops), dt_of(ctx, x),
                  circulant=True, implementation=impl, **kw)
    y = ctx.ip.call(op, [x], {})
    c = times(10, X.sym('finfo.eps', pos=True)) if cut is None else cut
    either(y, fspec(ctx, shape, inverse(c), x, impl == 'rfft'), f'cutoff {cut}')


def default(ctx, shape, platform):
  """Without a requested implementation some valid one is used."""
  ctx.fresh()
  ctx.ip.platform = platform
  ops, x = circ(ctx, shape), rhs_of(shape)
  op = ctx.call(FG + 'transform', opaque_fn('f'), list(ops),
                dt_of(ctx, x), hermitian=True, circulant=True)
  y = ctx.ip.call(op, [x], {})
  f = lambda e: X.apply_op('user_f', (e,))
  alts = fspec(ctx, shape, f, x, False)
  if shape[-1] % 2 == 0:
    alts += fspec(ctx, shape, f, x, True)
  if any(A.difference(arr_of(y), a) is None for a in alts):
    return
  dense(ctx, ops, f, x, y)


def refusals(ctx):
  f = opaque_fn('f')
  sq, odd = opers((4,))[0], opers((3,))[0]
  bad = A.field('b', (4, 3))
  dt = dt_of(ctx, rhs_of((4,)))
  tr = lambda *a, **k: ctx.raises('ValueError', lambda: ctx.call(
      FG + 'transform', *a, **k))
  both = dict(hermitian=True, circulant=True)
  for ops in ([bad], [sq, bad], [bad, sq]):
    for impl in ('matmul', 'fft', 'rfft', None):
      tr(f, ops, dt, implementation=impl, **both)
  tr(f, [sq], dt, circulant=True, implementation='matmul')
  tr(f, [sq], dt, hermitian=True, implementation='fft')
  tr(f, [sq], dt, hermitian=True, implementation='rfft')
  tr(f, [sq, odd], dt, implementation='rfft', **both)
  tr(f, [sq], dt, implementation='qr', **both)
  tr(f, [sq], dt)
  tr(f, [odd], dt)
  # a function that loses the shape
  g = pyfn('g', lambda ip, a, k: A.field('g', (2,)))
  for impl in ('matmul', 'fft', 'rfft'):
    tr(g, [sq, sq], dt, implementation=impl, **both)
  # right-hand side of another shape
  for impl in ('matmul', 'fft'):
    op = ctx.call(FG + 'transform', f, [sq, odd], dt, implementation=impl,
                  **both)
    ctx.raises(REFUSE, lambda: ctx.ip.call(op, [A.field('y', (3, 4))], {}))
