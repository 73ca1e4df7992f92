"""Modular summary of fast_diagonalization.transform (verified by L01)."""
from props.fdlaw import *  # pylint: disable=wildcard-import,unused-wildcard-import

TRANSFORM = 'jax_cfd.base.fast_diagonalization.transform'
LAM = X.sym('lambda')


class Diag:
  """Records every use of transform and returns K(f; operators) . rhs."""

  def __init__(self):
    self.ops = []       # distinct operator tuples
    self.uses = []      # (f(lambda), operator index, rhs array, result array)
    self.made = []      # flags

  def overrides(self):
    return {TRANSFORM: self.summary}

  def key(self, ops):
    for k, o in enumerate(self.ops):
      if len(o) == len(ops) and all(A.difference(x, y) is None
                                    for x, y in zip(o, ops)):
        return k
    self.ops.append(ops)
    return len(self.ops) - 1

  def kernel(self, f, k, rhs):
    """The array sum_a K(f, k; i, a) rhs[a]."""
    shape = rhs.shape
    pts = list(itertools.product(*[range(n) for n in shape]))
    rows = {}
    for i in pts:
      acc = []
      for a in pts:
        kern = X.apply_op('K', (f, X.const(k)) + tuple(
            X.const(q) for q in i + a))
        acc.append(X.mul(kern, at(rhs, [(None, X.const(q)) for q in a])))
      rows[i] = X.add_many(acc)

    def build(pre, dims):
      if not dims:
        return A.lift(rows[pre])
      return A.stack([build(pre + (q,), dims[1:]) for q in range(dims[0])], 0)
    return build((), shape)

  def summary(self, ip, f, v):
    impl = v['implementation']
    ops = [M.to_arr(o) for o in ip.iterate(v['operators'])]
    for o in ops:
      if o.shape is None or o.ndim != 2 or not all(
          isinstance(n, int) for n in o.shape):
        raise Undecided('operators of unknown shape')
      need(o.shape[0] == o.shape[1], f'operator of shape {o.shape}')
    herm = all(A.difference(o, A.transpose(o, (1, 0))) is None for o in ops)
    circ = all(circulant(o) for o in ops)
    need(impl in (None, 'matmul', 'fft', 'rfft'), f'implementation {impl!r}')
    for flag, real in (('hermitian', herm), ('circulant', circ)):
      need(not v[flag] or real, f'operators are declared {flag} but are not')
    if impl == 'matmul' or (impl is None and ops[-1].shape[0] % 2):
      need(v['hermitian'], 'matmul implementation without hermitian operators')
    else:
      need(v['circulant'], 'Fourier implementation without circulant operators')
    fx = E(ip.call(v['func'], [LAM], {}))
    k = self.key(ops)
    self.made.append((fx, k, impl, v['dtype']))

    def apply(ip_, a, kw):
      rhs = M.to_arr(a[0])
      want = tuple(o.shape[0] for o in ops)
      need(rhs.shape == want, f'right-hand side of shape {rhs.shape} for '
           f'operators of size {want}')
      out = self.kernel(fx, k, rhs)
      self.uses.append((fx, k, rhs, out))
      return out
    return pyfn('apply', apply)


def circulant(o):
  n = o.shape[0]
  e = lambda i, j: at(o, [(None, X.const(i)), (None, X.const(j))])
  return all(X.equal(e(i, j), e((i - j) % n, 0))
             for i in range(n) for j in range(n))


def act(ops, f):
  """index function of (sum_d ops_d along axis d) applied to f."""
  def g(*ix):
    out = []
    for d, o in enumerate(ops):
      i = int(E(ix[d]).const_value())
      for j in range(o.shape[0]):
        m = at(o, [(None, X.const(i)), (None, X.const(j))])
        if m == X.ZERO:
          continue
        out.append(X.mul(m, E(f(*(tuple(ix[:d]) + (X.const(j),) +
                                  tuple(ix[d + 1:]))))))
    return X.add_many(out)
  return g


def elem(a):
  """Index function of a concrete-shape array."""
  return lambda *ix: at(a, [(None, E(i)) for i in ix])


def linear_poly(e):
  """(c0, c1) when e = c0 + c1*lambda, else None."""
  lam = [a for a in LAM.atoms()][0]
  c0 = X.subst(e, {lam.id: X.ZERO})
  c1 = minus(X.subst(e, {lam.id: X.ONE}), c0)
  if X.equal(e, plus(c0, times(c1, LAM))):
    return c0, c1
  return None
