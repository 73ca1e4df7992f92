"""Convolutions (lax, haiku), exact linear algebra of constant matrices."""
import functools
from fractions import Fraction
import itertools

from . import arr as A
from . import expr as X
from . import lib_np as N
from . import lib_np2 as N2
from . import models as M
from .arr import Arr
from .expr import Undecided
from .interp import PyFn, raise_py
from .lib_np import F, arg, np_def

_SPATIAL = 'HWD'


def ints(v, n):
  if isinstance(v, (tuple, list)):
    v = tuple(M.as_int(x) for x in v)
  elif isinstance(v, Arr) and v.ndim:
    v = tuple(M.as_int(A.at_index(v, (i,))) for i in range(v.shape[0]))
  else:
    v = (M.as_int(v),) * n
  if len(v) != n:
    raise_py('ValueError', 'convolution: wrong number of spatial sizes')
  return v


def conv(x, w, stride, pads, lhs_rate, rate):
  """x: [batch, space.., in], w: [space.., in, out]; correlation."""
  n = w.ndim - 2
  if x.ndim != n + 2:
    raise_py('ValueError', 'convolution: ranks differ')
  if not A.same_dim(x.shape[-1], w.shape[-2]):
    raise_py('TypeError', 'convolution: feature counts differ '
             f'{x.shape[-1]} {w.shape[-2]}')
  for d in range(n):
    if lhs_rate[d] != 1:
      x = dilate(x, d + 1, lhs_rate[d])
    lo, hi = pads[d]
    if lo or hi:
      x = A.pad_axis(x, d + 1, lo, hi, 'constant')
  ks = w.shape[:n]
  if not all(isinstance(k, int) for k in ks):
    raise Undecided('convolution kernel of abstract size')
  size = []
  for d in range(n):
    eff = (ks[d] - 1) * rate[d] + 1
    m = A.dim(X.add(A.ex(x.shape[d + 1]), X.const(-eff)))
    if isinstance(m, int):
      if m < 0:
        size.append(0)
        continue
      size.append(m // stride[d] + 1)
    elif stride[d] == 1:
      size.append(A.dim(X.add(A.ex(m), X.ONE)))
    else:
      raise Undecided('strided convolution of abstract size')
  if 0 in size:
    raise Undecided('empty convolution')
  out = None
  for k in itertools.product(*map(range, ks)):
    wk = w
    for i in k:
      wk = A.take_index(wk, 0, i)
    xs = x
    for d in range(n):
      xs = A.slice_axis(xs, d + 1, k[d] * rate[d], size[d], stride[d])
    t = N2.contract(xs, wk, [n + 1], [0])
    out = t if out is None else A.ewise(X.add, out, t)
  return out


def dilate(x, ax, s):
  """Puts s - 1 zeros between the entries along an axis."""
  n = x.shape[ax]
  if not isinstance(n, int):
    raise Undecided('dilating an axis of abstract size')
  parts = []
  for i in range(n):
    p = A.slice_axis(x, ax, i, 1)
    parts.append(p if i == n - 1 else A.pad_axis(p, ax, 0, s - 1, 'constant'))
  return A.concat(parts, ax)


def same_pad(n, k, s, r):
  eff = (k - 1) * r + 1
  out = -(-n // s)
  t = max((out - 1) * s + eff - n, 0)
  return (t // 2, t - t // 2)


def padding(p, x, ks, stride, rate):
  n = len(ks)
  if isinstance(p, str):
    if p.upper() == 'VALID':
      return ((0, 0),) * n
    if p.upper() == 'SAME':
      if stride == (1,) * n:
        return tuple(same_pad(1, k, 1, r) for k, r in zip(ks, rate))
      return tuple(same_pad(M.as_int(m), k, s, r) for m, k, s, r in
                   zip(x.shape[1:-1], ks, stride, rate))
    raise Undecided(f'convolution padding {p}')
  if isinstance(p, (tuple, list)) and p and not isinstance(p[0], (tuple, list)):
    p = [p] * n
  return tuple(ints(q, 2) for q in p)


def canonical(dn, n):
  """Permutations to [batch, space.., in] and [space.., in, out]."""
  if dn is None:
    last = ('NC' + _SPATIAL[:n], 'OI' + _SPATIAL[:n], 'NC' + _SPATIAL[:n])
    return canonical(last, n)
  if not (isinstance(dn, (tuple, list)) and len(dn) == 3 and
          all(isinstance(s, str) for s in dn)):
    raise Undecided('convolution dimension numbers')
  l, r, o = dn
  sp = [c for c in r if c not in 'IO']
  if any(len(s) != n + 2 for s in dn):
    raise_py('ValueError', f'convolution dimension numbers {dn}')
  want = ['N'] + sp + ['C']
  if sorted(l) != sorted(want) or sorted(o) != sorted(want):
    raise_py('ValueError', f'convolution dimension numbers {dn}')
  return ([l.index(c) for c in want], [r.index(c) for c in sp + ['I', 'O']],
          [want.index(c) for c in o])


def general(ip, a, kw):
  x = N2.toarr(arg(a, kw, 0, 'lhs'))
  w = N2.toarr(arg(a, kw, 1, 'rhs'))
  if x.shape is None or w.shape is None:
    return M.opaque('conv', x, w)
  if arg(a, kw, 7, 'feature_group_count', 1) not in (1, None):
    raise Undecided('grouped convolution')
  n = w.ndim - 2
  if x.ndim != w.ndim:
    raise_py('ValueError', 'convolution: ranks differ')
  px, pw, po = canonical(arg(a, kw, 6, 'dimension_numbers'), n)
  x, w = A.transpose(x, tuple(px)), A.transpose(w, tuple(pw))
  stride = ints(arg(a, kw, 2, 'window_strides'), n)
  lr = arg(a, kw, 4, 'lhs_dilation')
  rr = arg(a, kw, 5, 'rhs_dilation')
  lr = (1,) * n if lr is None else ints(lr, n)
  rr = (1,) * n if rr is None else ints(rr, n)
  p = padding(arg(a, kw, 3, 'padding'), x, w.shape[:n], stride, rr)
  return M.pk(A.transpose(conv(x, w, stride, p, lr, rr), tuple(po)))


def transposed(x, w, stride, pad):
  """w: [space.., in, out]; the gradient-of-convolution layout of lax."""
  n = w.ndim - 2
  ps = []
  for k, s in zip(w.shape[:n], stride):
    if pad == 'SAME':
      t = k + s - 2
      lo = k - 1 if s > k - 1 else -(-t // 2)
    elif pad == 'VALID':
      t, lo = k + s - 2 + max(k - s, 0), k - 1
    else:
      raise Undecided('padding of a transposed convolution')
    ps.append((lo, t - lo))
  return conv(x, w, (1,) * n, ps, stride, (1,) * n)


def transpose_fn(ip, a, kw):
  x = N2.toarr(arg(a, kw, 0, 'lhs'))
  w = N2.toarr(arg(a, kw, 1, 'rhs'))
  n = w.ndim - 2
  dn = arg(a, kw, 5, 'dimension_numbers') or {
      1: ('NHC', 'HIO', 'NHC'), 2: ('NHWC', 'HWIO', 'NHWC'),
      3: ('NHWDC', 'HWDIO', 'NHWDC')}[n]
  px, pw, po = canonical(dn, n)
  x, w = A.transpose(x, tuple(px)), A.transpose(w, tuple(pw))
  if kw.get('transpose_kernel'):
    raise Undecided('transposed kernel')
  r = transposed(x, w, ints(arg(a, kw, 2, 'strides'), n),
                 arg(a, kw, 3, 'padding'))
  return M.pk(A.transpose(r, tuple(po)))


_HK = ['output_channels', 'kernel_shape', 'stride', 'rate', 'padding',
       'with_bias', 'w_init', 'b_init', 'data_format', 'mask',
       'feature_group_count', 'name']
_HKT = ['output_channels', 'kernel_shape', 'stride', 'output_shape', 'padding',
        'with_bias', 'w_init', 'b_init', 'data_format', 'mask', 'name']


def hk_conv(n, trans):
  def make(ip, a, kw):
    names = _HKT if trans else _HK
    if n is None:
      names = ['num_spatial_dims'] + names
    opt = dict(zip(names, a))
    for k, v in kw.items():
      if k not in names or k in opt:
        raise_py('TypeError', f'convolution: unexpected argument {k}')
      opt[k] = v
    for k in ('output_channels', 'kernel_shape'):
      if k not in opt:
        raise_py('TypeError', f'convolution: missing argument {k}')
    m = M.as_int(opt['num_spatial_dims']) if n is None else n
    ks = ints(opt['kernel_shape'], m)
    stride, rate = ints(opt.get('stride', 1), m), ints(opt.get('rate', 1), m)
    co = M.as_int(opt['output_channels'])
    pad = opt.get('padding', 'SAME')
    if opt.get('mask') is not None or opt.get('output_shape') is not None or (
        opt.get('feature_group_count', 1) != 1) or (
            str(opt.get('data_format', 'NWC'))[-1:] not in 'Ct'):
      raise Undecided('convolution options')
    bias = ip.truth(opt.get('with_bias', True))
    k = len([e for e in ip.events if e[0] == 'conv'])
    made = {}

    def call(ip_, b, kw_):
      x = N2.toarr(b[0])
      if x.shape is None:
        return M.opaque(f'conv{k}', x)
      if x.ndim not in (m + 1, m + 2):
        raise_py('ValueError', f'convolution: input has rank {x.ndim}')
      un = x.ndim == m + 1
      if un:
        x = A.expand_dims(x, 0)
      ci = x.shape[-1]
      if 'w' not in made:
        made['w'] = A.field(f'conv{k}.w', ks + (ci, co), None)
        made['b'] = A.field(f'conv{k}.b', (co,), None)
        ip.events.append(('conv.used', k, ks, ci, co))
      elif not A.same_dim(made['w'].shape[-2], ci):
        raise_py('ValueError', 'convolution: parameter shape changed')
      if trans:
        r = transposed(x, made['w'], stride, pad)
      else:
        r = conv(x, made['w'], stride,
                 padding(pad, x, ks, stride, rate), (1,) * m, rate)
      if bias:
        r = A.ewise(X.add, r, made['b'])
      return M.pk(A.take_index(r, 0, 0) if un else r)
    fn = PyFn(call, f'conv{k}')
    ip.events.append(('conv', k, opt, fn))
    return fn
  return make


def matrix(v):
  """Rows of a constant rational matrix, or None."""
  if v.shape is None or v.ndim != 2 or not all(
      isinstance(d, int) for d in v.shape):
    return None
  rows = []
  for i in range(v.shape[0]):
    r = [A.at_index(v, (i, j)) for j in range(v.shape[1])]
    if not all(e.is_const() for e in r):
      return None
    rows.append([e.const_value() for e in r])
  return rows


def rref(rows, ncol):
  """Reduced row echelon form; returns (rows, pivots)."""
  rows, piv = [list(r) for r in rows], []
  k = 0
  for c in range(ncol):
    p = next((i for i in range(k, len(rows)) if rows[i][c]), None)
    if p is None:
      continue
    rows[k], rows[p] = rows[p], rows[k]
    q = rows[k][c]
    rows[k] = [x / q for x in rows[k]]
    for i in range(len(rows)):
      if i != k and rows[i][c]:
        f = rows[i][c]
        rows[i] = [x - f * y for x, y in zip(rows[i], rows[k])]
    piv.append(c)
    k += 1
  return rows, piv


def kernel(rows, n):
  """Rational basis of the null space."""
  r, piv = rref(rows, n)
  out = []
  for c in range(n):
    if c in piv:
      continue
    v = [Fraction(0)] * n
    v[c] = Fraction(1)
    for i, p in enumerate(piv):
      v[p] = -r[i][c]
    out.append(v)
  return out


_solve_opaque = F['linalg.solve']
_svd_opaque = F['linalg.svd']


@np_def('linalg.solve')
def _solve(ip, a, kw):
  m, b = N2.toarr(a[0]), N2.toarr(a[1])
  rows = matrix(m)
  if rows is None or b.shape is None or b.ndim not in (1, 2):
    return _solve_opaque(ip, a, kw)
  n = len(rows)
  if len(rows[0]) != n:
    raise_py('LinAlgError', 'must be square')
  if b.shape[0] != n:
    raise_py('ValueError', 'solve: sizes differ')
  aug = [r + [Fraction(int(i == j)) for j in range(n)]
         for i, r in enumerate(rows)]
  red, piv = rref(aug, n)
  if len(piv) < n:
    raise_py('LinAlgError', 'Singular matrix')
  inv = A.from_entries([X.const(x) for r in red for x in r[n:]], (n, n))
  return M.pk(N2.contract(inv, b, [1], [0]))


@np_def('linalg.svd')
def _svd(ip, a, kw):
  """(u, s, v): the rows of v past the rank span the null space.

  They are orthonormal in reality; here they are a rational basis, so what is
  shown holds for a superset of what svd can return up to the choice of basis.
  """
  m = N2.toarr(arg(a, kw, 0, 'a'))
  rows = matrix(m)
  if rows is None or len(a) > 1 or kw:
    return _svd_opaque(ip, a, kw)
  n = m.shape[1]
  ker = kernel(rows, n)
  k = len([e for e in ip.events if e[0] == 'svd'])
  ip.events.append(('svd', k, rows, ker))
  top = n - len(ker)
  es = [X.sym(f'svd{k}.v{i}.{j}') for i in range(top) for j in range(n)]
  es += [X.const(x) for r in ker for x in r]
  return (M.opaque('svd.u', k), A.field(f'svd{k}.s', (min(m.shape),), None),
          A.from_entries(es, (n, n)))


_kron2 = F['kron']


@np_def('kron')
def _kron(ip, a, kw):
  x, y = N2.toarr(a[0]), N2.toarr(a[1])
  if x.shape is not None and y.shape is not None and x.ndim == y.ndim == 1:
    p = A.ewise(X.mul, A.expand_dims(x, 1), A.expand_dims(y, 0))
    return A.reshape(p, (A.dim(X.mul(A.ex(x.shape[0]), A.ex(y.shape[0]))),))
  return _kron2(ip, a, kw)


TABLE = {'jax.lax.conv_general_dilated': general,
         'jax.lax.conv_transpose': transpose_fn,
         'haiku.ConvND': hk_conv(None, False),
         'haiku.ConvNDTranspose': hk_conv(None, True)}
for _n in (1, 2, 3):
  TABLE[f'haiku.Conv{_n}D'] = hk_conv(_n, False)
  TABLE[f'haiku.Conv{_n}DTranspose'] = hk_conv(_n, True)
