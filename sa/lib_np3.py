"""numpy models, part 3: fft, linalg, vectorize, dtype predicates."""
from fractions import Fraction
import functools

import numpy as np

from . import arr as A
from . import expr as X
from . import interp as IN
from . import models as M
from . import lib_np as N
from . import lib_np2 as N2
from .arr import Arr
from .expr import Expr, Undecided
from .interp import Ext, Inst, PyFn, TypeV, raise_py
from .lib_np import F, arg, conv, np_def, opq, _na
from .lib_np2 import toarr


# ---------------------------------------------------------------- fft

def _axes(v, a, kw, default):
  ax = arg(a, kw, 2, 'axes')
  if ax is None:
    ax = default(v)
  return N.norm_axes(tuple(ax), v.ndim)


def _fft(name, kind, default, one=False):
  def g(ip, a, kw):
    v = toarr(a[0])
    s = arg(a, kw, 1, 'n' if one else 's')
    if v.shape is None:
      return opq('fft.' + name, v, s, arg(a, kw, 2, 'axis' if one else 'axes'))
    if kw.get('norm') not in (None, 'backward'):
      return opq('fft.' + name, v, s, kw)
    if one:
      axes = (_na(M.as_int(arg(a, kw, 2, 'axis', -1)), v.ndim),)
    else:
      axes = _axes(v, a, kw, default)
    if s is not None:
      s = N.shape_of(s if not one else (s,))
    if kind == 'irfft':
      return A.irfft_nd(v, axes, s)
    if s is not None:
      for ax, n in zip(axes, s):
        if not A.same_dim(v.shape[ax], n):
          return opq('fft.' + name, v, s, axes)
    if kind == 'rfft':
      return A.rfft_nd(v, axes)
    return A.fft_nd(v, axes, kind)
  F['fft.' + name] = g


_all = lambda v: range(v.ndim)
_two = lambda v: (v.ndim - 2, v.ndim - 1)
for _n, _k, _d, _o in (
    ('fft', 'fft', None, True), ('ifft', 'ifft', None, True),
    ('rfft', 'rfft', None, True), ('irfft', 'irfft', None, True),
    ('fft2', 'fft', _two, False), ('ifft2', 'ifft', _two, False),
    ('rfft2', 'rfft', _two, False), ('irfft2', 'irfft', _two, False),
    ('fftn', 'fft', _all, False), ('ifftn', 'ifft', _all, False),
    ('rfftn', 'rfft', _all, False), ('irfftn', 'irfft', _all, False)):
  _fft(_n, _k, _d, _o)


def half(n):
  return X.floor(X.scale(A.ex(n), Fraction(1, 2)))


@np_def('fft.fftfreq')
def _fftfreq(ip, a, kw):
  n = A.dim(M.as_int(a[0]))
  d = X.lift(M.pk(arg(a, kw, 1, 'd', 1)))
  den = X.power(X.mul(A.ex(n), d), -1)
  if isinstance(n, int):
    vals = list(range((n - 1) // 2 + 1)) + list(range(-(n // 2), 0))
    return A.stack([A.lift(X.scale(den, v)) for v in vals], 0)
  # 0 .. ceil(n/2)-1, then negative
  pos = A.dim(X.add(A.ex(n), X.scale(half(n), -1)))
  lo = Arr.uniform((pos,), X.mul(X.idx(0), den))
  hi = Arr.uniform((A.dim(half(n)),), X.mul(X.add(
      X.idx(0), X.scale(half(n), -1)), den))
  return A.concat([lo, hi], 0)


@np_def('fft.rfftfreq')
def _rfftfreq(ip, a, kw):
  n = A.dim(M.as_int(a[0]))
  d = X.lift(M.pk(arg(a, kw, 1, 'd', 1)))
  den = X.power(X.mul(A.ex(n), d), -1)
  m = A.dim(X.add(half(n), X.ONE))
  return Arr.uniform((m,), X.mul(X.idx(0), den))


def _shiftf(name, sgn):
  def g(ip, a, kw):
    v = toarr(a[0])
    if v.shape is None:
      return opq('fft.' + name, v)
    axes = N.norm_axes(arg(a, kw, 1, 'axes'), v.ndim)
    for ax in axes:
      n = v.shape[ax]
      if isinstance(n, int):
        k = n // 2
        v = A.roll(v, k if sgn > 0 else -k, ax)
      else:
        k = A.dim(half(n))
        # roll by k: last k elements first
        if sgn < 0:
          k = A.dim(X.add(A.ex(n), X.scale(A.ex(k), -1)))
        m = A.dim(X.add(A.ex(n), X.scale(A.ex(k), -1)))
        v = A.concat([A.slice_axis(v, ax, m, k), A.slice_axis(v, ax, 0, m)], ax)
    return v
  F['fft.' + name] = g


_shiftf('fftshift', 1)
_shiftf('ifftshift', -1)


# ---------------------------------------------------------------- linalg

@np_def('linalg.norm')
def _norm(ip, a, kw):
  v = toarr(a[0])
  o = arg(a, kw, 1, 'ord')
  ax = arg(a, kw, 2, 'axis')
  if v.shape is None or o not in (None, 2):
    return opq('linalg.norm', v, o, ax)
  sq = A.unary(lambda e: X.power(X.absolute(e), 2), v)
  axes = N.norm_axes(ax, v.ndim)
  r = A.reduce_all(sq, axes, 'sum', bool(kw.get('keepdims', False)))
  return M.pk(A.unary(lambda e: X.power(e, Fraction(1, 2)), r))


@np_def('linalg.eigh')
def _eigh(ip, a, kw):
  """(eigenvalues, orthonormal eigenvectors as columns) of a symmetric matrix."""
  m = toarr(a[0])
  if m.shape is None or m.ndim != 2:
    return tuple(opq('linalg.eigh', i, *a) for i in range(2))
  if not A.same_dim(m.shape[0], m.shape[1]):
    raise_py('LinAlgError', 'must be square')
  reg = ip.__dict__.setdefault('eigh_reg', [])
  for k, o in enumerate(reg):
    if A.difference(o, m) is None:
      break
  else:
    k = len(reg)
    reg.append(m)
  return (A.field(f'eigval{k}', (m.shape[0],)),
          A.field(f'eigvec{k}', m.shape))


for _n, _k in (('linalg.eig', 2), ('linalg.svd', 3),
               ('linalg.qr', 2), ('linalg.slogdet', 2)):
  F[_n] = (lambda n, k: lambda ip, a, kw: tuple(
      opq(n, i, *a) for i in range(k)))(_n, _k)


@np_def('linalg.solve')
def _solve(ip, a, kw):
  return opq('linalg.solve', *a)


# ---------------------------------------------------------------- misc

@np_def('vectorize')
def _vectorize(ip, a, kw):
  if not a or isinstance(a[0], str):
    sig = kw.get('signature')
    return PyFn(lambda ip_, b, kw_: _vectorize(ip, [b[0]], kw), 'vectorize')
  f = a[0]
  sig = kw.get('signature')

  def g(ip_, b, kw_):
    b = [F['asarray'](ip, [x], {}) if isinstance(x, (list, tuple)) and any(
        not isinstance(y, (int, Fraction, Expr, Arr, list, tuple)) for y in x)
         else x for x in b]
    if any(isinstance(x, np.ndarray) for x in b):
      bs = [x if isinstance(x, np.ndarray) else M.box(x) for x in b]
      sh = np.broadcast(*bs)
      res = [ip.call(f, list(xs), kw_) for xs in sh]
      out = np.empty(len(res), dtype=object)
      for i, r in enumerate(res):
        out[i] = r
      return out.reshape(sh.shape)
    if sig is None:
      arrs = [toarr(x) for x in b]
      if any(x.shape is None for x in arrs):
        return M.opaque('vectorized', f, *arrs)
      if all(x.ndim == 0 for x in arrs):
        return ip.call(f, b, kw_)
      shape = A.broadcast_shapes([x.shape for x in arrs])
      arrs = [A.broadcast_to(x, shape) for x in arrs]
      return vectorize_sig(ip, f, ','.join(['()'] * len(b)) + '->()', arrs,
                           kw_)
    return vectorize_sig(ip, f, sig, b, kw_)
  return PyFn(g, 'vectorized')


def vectorize_sig(ip, f, sig, args, kw):
  from . import lib_jax as J
  ins, outs = sig.replace(' ', '').split('->')

  def dims(s):
    out, depth, cur = [], 0, ''
    for ch in s:
      if ch == '(':
        depth, cur = 1, ''
      elif ch == ')':
        out.append([c for c in cur.split(',') if c])
        depth = 0
      elif depth:
        cur += ch
    return out
  din, dout = dims(ins), dims(outs)
  arrs = [toarr(x) for x in args]
  if any(x.shape is None for x in arrs):
    return M.opaque('vectorized', f, sig, *arrs)
  nb = [x.ndim - len(d) for x, d in zip(arrs, din)]
  n = max(nb)

  def rec(level, xs, nbs):
    if level == 0:
      return ip.call(f, [M.pk(x) for x in xs], kw)
    in_axes = [0 if k == level else None for k in nbs]
    fn = PyFn(lambda ip_, b, kw_: rec(level - 1, [toarr(x) for x in b],
                                      [k - 1 if k == level else k
                                       for k in nbs]))
    return J.vmap_call(ip, fn, in_axes, 0, list(xs))
  return rec(n, arrs, nb)


@np_def('apply_along_axis')
def _apply_along_axis(ip, a, kw):
  from . import lib_jax as J
  f, axis, v = a[0], M.as_int(a[1]), toarr(a[2])
  if v.shape is None:
    return opq('apply_along_axis', *a)
  axis = _na(axis, v.ndim)
  extra = list(a[3:])
  w = A.moveaxis(v, axis, v.ndim - 1)

  def rec(x):
    if x.ndim == 1:
      return ip.call(f, [x] + extra, kw)
    fn = PyFn(lambda ip_, b, kw_: rec(toarr(b[0])))
    return J.vmap_call(ip, fn, [0], 0, [x])
  r = toarr(rec(w))
  return A.moveaxis(r, v.ndim - 1, axis) if r.ndim == v.ndim else r


class Finfo:
  def sa_attr(self, ip, name):
    return X.sym('finfo.' + name, pos=name in ('eps', 'max', 'tiny'))


np_def('finfo', 'iinfo')(lambda ip, a, kw: Finfo())


@np_def('iscomplexobj', 'iscomplex')
def _iscomplexobj(ip, a, kw):
  v = a[0]
  if isinstance(v, Arr):
    if v.dtype == 'complex':
      return True
    if v.shape is None and not v.scalar().is_real():
      return True
    return any(not c.is_real() for c in v.cells.values())
  return isinstance(v, Expr) and not v.is_real()


F['isrealobj'] = lambda ip, a, kw: not _iscomplexobj(ip, a, kw)
F['isscalar'] = lambda ip, a, kw: M.is_scalar(a[0])


@np_def('issubdtype')
def _issubdtype(ip, a, kw):
  return N.dt_name(a[0]) == N.dt_name(a[1])


@np_def('dtype')
def _dtype(ip, a, kw):
  return M.DType(N.dt_name(a[0]) or 'float')


@np_def('result_type', 'promote_types')
def _result_type(ip, a, kw):
  n = [N.dt_name(x) if not isinstance(x, Arr) else x.dtype for x in a]
  return M.DType('complex' if 'complex' in n else 'float')


for _n, _d in N.DTYPES.items():
  for _p in ('numpy.', 'jax.numpy.'):
    if _n.startswith(_p):
      F.setdefault(_n[len(_p):], (lambda q: lambda ip, a, kw: N.astype(
          conv(a[0]), Ext(q)))(_n))
