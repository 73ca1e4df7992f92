"""numpy models, part 2: shape manipulation, contraction, fft, linalg."""
from fractions import Fraction
import functools

import numpy as np

from . import arr as A
from . import expr as X
from . import interp as IN
from . import models as M
from . import lib_np as N
from .arr import Arr
from .expr import Expr, Undecided
from .interp import Inst, PyFn, raise_py
from .lib_np import F, arg, conv, np_def, opq, _na


def toarr(v):
  v = conv(v)
  return v if isinstance(v, Arr) else A.lift(v)


def _order(a, kw, i):
  o = arg(a, kw, i, 'order')
  if o in (None, 'C'):
    return ()
  if o != 'F':
    raise Undecided(f'memory order {o}')
  return (o,)


@np_def('reshape')
def _reshape(ip, a, kw):
  v = toarr(a[0])
  s = arg(a, kw, 1, 'shape', kw.get('newshape'))
  if v.shape is None:
    return opq('reshape', v, s, *_order(a, kw, 2))
  if _order(a, kw, 2):
    s = tuple(s) if isinstance(s, (tuple, list)) else (s,)
    r = _reshape(ip, [A.transpose(v, tuple(range(v.ndim))[::-1]), s[::-1]], {})
    r = toarr(r)
    return M.pk(A.transpose(r, tuple(range(r.ndim))[::-1]))
  s = list(s) if isinstance(s, (tuple, list)) else [s]
  s = [M.as_int(x) for x in s]
  total = functools.reduce(X.mul, [A.ex(d) for d in v.shape], X.ONE)
  neg = [i for i, x in enumerate(s) if isinstance(x, int) and x == -1]
  if neg:
    rest = functools.reduce(X.mul, [A.ex(A.dim(x)) for i, x in enumerate(s)
                                    if i != neg[0]], X.ONE)
    s[neg[0]] = A.dim(X.mul(total, X.power(rest, -1)))
  s = tuple(A.dim(x) for x in s)
  new = functools.reduce(X.mul, [A.ex(d) for d in s], X.ONE)
  if not X.equal(total, new):
    raise_py('ValueError', f'cannot reshape {A.fmt_shape(v.shape)} into '
             f'{A.fmt_shape(s)}')
  return M.pk(A.reshape(v, s))


@np_def('ravel')
def _ravel(ip, a, kw):
  v = toarr(a[0])
  if v.shape is None:
    return opq('ravel', v, *_order(a, kw, 1))
  o = _order(a, kw, 1)
  if v.ndim == 1:
    return v
  return _reshape(ip, [v, (-1,)] + list(o), {})


@np_def('transpose', 'permute_dims')
def _transpose(ip, a, kw):
  v = toarr(a[0])
  axes = arg(a, kw, 1, 'axes')
  if v.shape is None:
    return opq('transpose', v, axes)
  if axes is None:
    axes = tuple(range(v.ndim))[::-1]
  axes = tuple(_na(M.as_int(x), v.ndim) for x in axes)
  if sorted(axes) != list(range(v.ndim)):
    raise_py('ValueError', 'axes do not match array')
  return A.transpose(v, axes)


@np_def('swapaxes')
def _swapaxes(ip, a, kw):
  v = toarr(a[0])
  p = list(range(v.ndim))
  i, j = _na(a[1], v.ndim), _na(a[2], v.ndim)
  p[i], p[j] = p[j], p[i]
  return A.transpose(v, tuple(p))


@np_def('moveaxis')
def _moveaxis(ip, a, kw):
  v = toarr(a[0])
  s, d = arg(a, kw, 1, 'source'), arg(a, kw, 2, 'destination')
  if v.shape is None:
    return opq('moveaxis', v, s, d)
  s = list(s) if isinstance(s, (tuple, list)) else [s]
  d = list(d) if isinstance(d, (tuple, list)) else [d]
  s = [_na(x, v.ndim) for x in s]
  d = [_na(x, v.ndim) for x in d]
  order = [n for n in range(v.ndim) if n not in s]
  for dst, src in sorted(zip(d, s)):
    order.insert(dst, src)
  return A.transpose(v, tuple(order))


@np_def('expand_dims')
def _expand_dims(ip, a, kw):
  v = toarr(a[0])
  ax = arg(a, kw, 1, 'axis')
  if v.shape is None:
    return opq('expand_dims', v, ax)
  axs = list(ax) if isinstance(ax, (tuple, list)) else [ax]
  nd = v.ndim + len(axs)
  for x in sorted(_na(x, nd) for x in axs):
    v = A.expand_dims(v, x)
  return v


@np_def('squeeze')
def _squeeze(ip, a, kw):
  v = toarr(a[0])
  ax = arg(a, kw, 1, 'axis')
  if v.shape is None:
    return opq('squeeze', v, ax)
  if ax is None:
    axs = [i for i, d in enumerate(v.shape) if isinstance(d, int) and d == 1]
  else:
    axs = [_na(x, v.ndim) for x in (ax if isinstance(ax, (tuple, list))
                                    else [ax])]
  for x in axs:
    if not A.same_dim(v.shape[x], 1):
      raise_py('ValueError', 'cannot squeeze an axis of size != 1')
  for x in sorted(axs, reverse=True):
    v = A.take_index(v, x, 0)
  return M.pk(v)


@np_def('broadcast_to')
def _broadcast_to(ip, a, kw):
  v = toarr(a[0])
  s = N.shape_of(arg(a, kw, 1, 'shape'))
  if v.shape is None or s is None:
    return opq('broadcast_to', v, arg(a, kw, 1, 'shape'))
  return A.broadcast_to(v, s)


@np_def('broadcast_arrays')
def _broadcast_arrays(ip, a, kw):
  s = A.broadcast_shapes([toarr(x).shape for x in a])
  return [A.broadcast_to(toarr(x), s) for x in a]


@np_def('broadcast_shapes')
def _bs(ip, a, kw):
  return tuple(A.broadcast_shapes([tuple(x) for x in a]))


@np_def('ndim')
def _ndim(ip, a, kw):
  return len(toarr(a[0]).shape)


@np_def('shape')
def _shape(ip, a, kw):
  return ip.getattr(a[0], 'shape')


@np_def('size')
def _size(ip, a, kw):
  return ip.getattr(a[0], 'size')


def _seq(ip, v):
  if isinstance(v, Arr) and v.shape is not None:
    return M.iterate(ip, v)
  if isinstance(v, Arr):
    return None
  return [conv(x) for x in ip.iterate(v)]


@np_def('concatenate', 'concat')
def _concatenate(ip, a, kw):
  xs = _seq(ip, a[0])
  ax = arg(a, kw, 1, 'axis', 0)
  if xs is None:
    return opq('concatenate', a[0], ax)
  if any(isinstance(x, np.ndarray) for x in xs):
    return np.concatenate([x if isinstance(x, np.ndarray) else M.to_nd(
        list(M.iterate(ip, x))) for x in xs], axis=ax)
  xs = [toarr(x) for x in xs]
  if not xs:
    raise_py('ValueError', 'need at least one array to concatenate')
  if any(x.shape is None for x in xs):
    return opq('concatenate', tuple(xs), ax)
  ax = _na(M.as_int(ax), xs[0].ndim)
  xs2 = [x for x in xs if not A.same_dim(x.shape[ax], 0)]
  try:
    return A.concat(xs2 or xs[:1], ax)
  except A.ShapeError as e:
    raise_py('ValueError', str(e))


@np_def('stack')
def _stack(ip, a, kw):
  xs = _seq(ip, a[0])
  ax = arg(a, kw, 1, 'axis', 0)
  if xs is None:
    return opq('stack', a[0], ax)
  if any(isinstance(x, (np.ndarray, Inst)) for x in xs):
    return np.stack(xs, axis=ax)
  xs = [toarr(x) for x in xs]
  if not xs:
    raise_py('ValueError', 'need at least one array to stack')
  if any(x.shape is None for x in xs):
    return opq('stack', tuple(xs), ax)
  try:
    return A.stack(xs, _na(M.as_int(ax), xs[0].ndim + 1))
  except A.ShapeError as e:
    raise_py('ValueError', str(e))


@np_def('split')
def _split(ip, a, kw):
  v = toarr(a[0])
  s = arg(a, kw, 1, 'indices_or_sections')
  ax = arg(a, kw, 2, 'axis', 0)
  if v.shape is None:
    n = s if isinstance(s, int) else len(list(ip.iterate(s))) + 1
    return [opq('split', v, s, ax, i) for i in range(n)]
  ax = _na(M.as_int(ax), v.ndim)
  n = v.shape[ax]
  if isinstance(s, (int, Fraction, Expr)):
    s = M.as_int(s)
    if not isinstance(s, int):
      raise Undecided('split into an abstract number of sections')
    w = A.dim(X.mul(A.ex(n), X.const(Fraction(1, s))))
    if isinstance(n, int) and n % s:
      raise_py('ValueError', 'array split does not result in an equal division')
    return [A.slice_axis(v, ax, A.dim(X.scale(A.ex(w), i)), w)
            for i in range(s)]
  pts = [0] + [A.dim(M.as_int(x)) for x in ip.iterate(s)] + [n]
  return [A.slice_axis(v, ax, p, A.dim(X.add(A.ex(q), X.scale(A.ex(p), -1))))
          for p, q in zip(pts, pts[1:])]


@np_def('roll')
def _roll(ip, a, kw):
  v = toarr(a[0])
  sh, ax = arg(a, kw, 1, 'shift'), arg(a, kw, 2, 'axis')
  if v.shape is None:
    return opq('roll', v, sh, ax)
  if isinstance(sh, Arr) and sh.shape:
    sh = [M.pk(A.at_index(sh, (i,))) for i in range(sh.shape[0])]
  shs = list(sh) if isinstance(sh, (tuple, list)) else [sh]
  if ax is None:
    shape = v.shape
    if v.ndim != 1:
      v = A.reshape(v, (A.dim(functools.reduce(
          X.mul, [A.ex(d) for d in shape], X.ONE)),))
    for x in shs:
      v = A.roll(v, M.as_int(x), 0)
    return v if len(shape) == 1 else A.reshape(v, shape)
  axs = [M.as_int(x) for x in ip.iterate(ax)] if not isinstance(
      ax, (int, Fraction, Expr)) else [ax]
  if len(shs) != len(axs) and 1 not in (len(shs), len(axs)):
    raise_py('ValueError', 'roll: shift and axis do not broadcast')
  n = max(len(shs), len(axs))
  for x, k in zip(shs * (n // len(shs)), axs * (n // len(axs))):
    v = A.roll(v, M.as_int(x), _na(k, v.ndim))
  return v


@np_def('flip')
def _flip(ip, a, kw):
  v = toarr(a[0])
  ax = arg(a, kw, 1, 'axis')
  for x in N.norm_axes(ax, v.ndim):
    v = A.flip(v, x)
  return v


def _pairs(w, nd):
  """Normalizes pad widths / constants to a pair per axis."""
  if isinstance(w, Arr):
    w = [list(M.iterate(None, r)) if isinstance(r, Arr) else r
         for r in M.iterate(None, w)]
  if not isinstance(w, (tuple, list)):
    return [(w, w)] * nd
  w = list(w)
  if all(not isinstance(x, (tuple, list, Arr)) for x in w):
    if len(w) == 1:
      return [(w[0], w[0])] * nd
    if len(w) == 2:
      return [tuple(w)] * nd
    raise_py('ValueError', 'pad widths do not broadcast')
  w = [tuple(M.iterate(None, x)) for x in w]
  w = [x if len(x) == 2 else (x[0], x[0]) for x in w]
  if len(w) == 1:
    return w * nd
  if len(w) != nd:
    raise_py('ValueError', f'pad has {len(w)} pairs for rank {nd}')
  return w


@np_def('pad')
def _pad(ip, a, kw):
  v = toarr(a[0])
  w = arg(a, kw, 1, 'pad_width')
  mode = arg(a, kw, 2, 'mode', 'constant')
  cv = kw.get('constant_values', 0)
  if v.shape is None:
    return opq('pad', v, w, mode, cv, {k: kw[k] for k in sorted(kw)
                                      if k not in ('pad_width', 'mode')})
  ws = _pairs(w, v.ndim)
  if kw.get('reflect_type', 'even') != 'even':
    raise Undecided('odd reflection')
  if mode not in ('constant', 'edge', 'symmetric', 'reflect', 'wrap'):
    raise Undecided(f'pad mode {mode}')
  cvs = _pairs(cv, v.ndim) if mode == 'constant' else [(0, 0)] * v.ndim
  for ax in range(v.ndim):
    lo, hi = (M.as_int(x) for x in ws[ax])
    if A.same_dim(A.dim(lo), 0) and A.same_dim(A.dim(hi), 0):
      if mode == 'constant' and any(x is None for x in cvs[ax]):
        raise_py('TypeError', 'pad value must be an array, got None')
      continue
    for x in (lo, hi):
      if isinstance(x, int) and x < 0:
        raise_py('ValueError', "index can't contain negative values")
    c = []
    for x in cvs[ax]:
      if x is None:
        raise_py('TypeError', 'pad value must be an array, got None')
      c.append(X.lift(M.pk(x)) if not isinstance(x, float) else
               X.sym('inf' if x > 0 else 'neginf'))
    v = A.pad_axis(v, ax, A.dim(lo), A.dim(hi), mode, tuple(c))
  return v


@np_def('take')
def _take(ip, a, kw):
  v = toarr(a[0])
  ix = conv(a[1])
  ax = arg(a, kw, 2, 'axis')
  if v.shape is None:
    return opq('take', v, ix, ax)
  if ax is None:
    v = _ravel(ip, [v], {})
    ax = 0
  ax = _na(M.as_int(ax), v.ndim)
  mode = arg(a, kw, 4, 'mode')
  if mode in ('wrap', 'clip'):
    n = v.shape[ax]
    n = X.const(n) if isinstance(n, int) else n
    ix = ip.binop('mod', ix, n) if mode == 'wrap' else N.call(
        ip, 'clip', [ix, 0, ip.binop('sub', n, 1)], {})
    ix = conv(ix)
  if isinstance(ix, (int, Fraction, Expr)):
    return M.pk(M.index(v, (slice(None),) * ax + (ix,)))
  return M.take(v, M.to_arr(ix), ax)


@np_def('repeat')
def _repeat(ip, a, kw):
  v = toarr(a[0])
  ax = arg(a, kw, 2, 'axis')
  n = a[1] if len(a) > 1 else kw['repeats']
  if v.shape is None or not isinstance(n, (int, Fraction, Expr)):
    return opq('repeat', v, n, ax)
  if ax is None:
    v, ax = _ravel(ip, [v], {}), 0
  ax = _na(M.as_int(ax), v.ndim)
  k = M.as_int(n)
  v = A.expand_dims(v, ax + 1)
  s = list(v.shape)
  s[ax + 1] = k
  v = A.broadcast_to(v, tuple(s))
  s[ax:ax + 2] = [A.dim(X.mul(A.ex(s[ax]), A.ex(k)))]
  return A.reshape(v, tuple(s))


@np_def('tile')
def _tile(ip, a, kw):
  v = toarr(a[0])
  reps = a[1] if isinstance(a[1], (tuple, list)) else (a[1],)
  while len(reps) < v.ndim:
    reps = (1,) + tuple(reps)
  while v.ndim < len(reps):
    v = A.expand_dims(v, 0)
  for ax, r in enumerate(reps):
    if r != 1:
      v = A.concat([v] * r, ax)
  return v


@np_def('diag')
def _diag(ip, a, kw):
  v = toarr(a[0])
  k = arg(a, kw, 1, 'k', 0)
  if v.shape is None:
    return opq('diag', v, k)
  if k != 0:
    if v.ndim == 1 and isinstance(v.shape[0], int):
      n = v.shape[0] + abs(k)
      return A.stack([A.stack([
          A.take_index(v, 0, min(i, j)) if j - i == k else A.lift(0)
          for j in range(n)], 0) for i in range(n)], 0)
    if v.ndim == 2:
      return _diagonal(ip, [v, k], {})
    raise Undecided('diag with an offset')
  if v.ndim == 1:
    n = v.shape[0]
    if isinstance(n, int):
      return A.stack([A.stack([A.take_index(v, 0, i) if i == j else
                               A.lift(0) for j in range(n)], 0)
                      for i in range(n)], 0)
    e = A.boxed(v)
    return Arr.uniform((n, n), X.mul(e, X.eq0(X.add(X.idx(0), X.scale(
        X.idx(1), -1)))))
  return _diagonal(ip, [v], {})


@np_def('diagonal')
def _diagonal(ip, a, kw):
  v = toarr(a[0])
  if v.shape is None:
    return opq('diagonal', v)
  k = arg(a, kw, 1, 'offset', 0)
  a1, a2 = arg(a, kw, 2, 'axis1', 0), arg(a, kw, 3, 'axis2', 1)
  if v.ndim != 2:
    raise Undecided('diagonal of a higher rank array')
  if _na(a1, 2) == 1 and _na(a2, 2) == 0:
    k = -k
  elif not (_na(a1, 2) == 0 and _na(a2, 2) == 1):
    raise_py('ValueError', 'axis1 and axis2 cannot be the same')
  n = v.shape[0]
  if not (isinstance(n, int) and isinstance(v.shape[1], int)):
    if k != 0 or not A.same_dim(n, v.shape[1]):
      raise Undecided('diagonal of an array of unknown size')
  else:
    i0, j0 = max(0, -k), max(0, k)
    n = max(0, min(n - i0, v.shape[1] - j0))
    if k and n:
      return A.stack([A.take_index(A.take_index(v, 0, i0 + i), 0, j0 + i)
                      for i in range(n)], 0)
  if isinstance(n, int) and n:
    return A.stack([A.take_index(A.take_index(v, 0, i), 0, i)
                    for i in range(n)], 0)
  e = A.boxed(v)
  return Arr.uniform((n,), X.subst(e, {X.mkatom('idx', (1,)).id: X.idx(0)}))


@np_def('trace')
def _trace(ip, a, kw):
  return call_sum(ip, _diagonal(ip, a, kw))


def call_sum(ip, v, axis=None):
  return F['sum'](ip, [v], {'axis': axis})


@np_def('kron')
def _kron(ip, a, kw):
  x, y = toarr(a[0]), toarr(a[1])
  if x.shape is None or y.shape is None:
    return opq('kron', x, y)
  if x.ndim != 2 or y.ndim != 2:
    raise Undecided('kron rank')
  p = A.ewise(X.mul, A.expand_dims(A.expand_dims(x, 1), 3),
              A.expand_dims(A.expand_dims(y, 0), 2))
  s = (A.dim(X.mul(A.ex(x.shape[0]), A.ex(y.shape[0]))),
       A.dim(X.mul(A.ex(x.shape[1]), A.ex(y.shape[1]))))
  return A.reshape(p, s)


def _outer(op):
  def f(ip, a, kw):
    x, y = toarr(a[0]), toarr(a[1])
    if x.shape is None or y.shape is None:
      return opq(op + '.outer', x, y)
    for _ in range(y.ndim):
      x = A.expand_dims(x, x.ndim)
    return N.call(ip, op, [x, y], {})
  return f


for _n in ('add', 'multiply', 'subtract'):
  F[_n + '.outer'] = _outer(_n)
F['outer'] = lambda ip, a, kw: F['multiply.outer'](
    ip, [_ravel(ip, [a[0]], {}), _ravel(ip, [a[1]], {})], {})


# ---------------------------------------------------------------- contraction

def contract(x, y, cx, cy):
  """Sum over paired axes cx of x and cy of y; result axes: free x, free y."""
  fx = [i for i in range(x.ndim) if i not in cx]
  fy = [i for i in range(y.ndim) if i not in cy]
  for i, j in zip(cx, cy):
    if not A.same_dim(x.shape[i], y.shape[j]):
      raise_py('ValueError', f'contracted dimensions differ: '
               f'{A.fmt_shape(x.shape)} {A.fmt_shape(y.shape)}')
  xt = A.transpose(x, tuple(fx + list(cx)))
  yt = A.transpose(y, tuple(fy + list(cy)))
  for k in range(len(fy)):
    xt = A.expand_dims(xt, len(fx))
  for k in range(len(fx)):
    yt = A.expand_dims(yt, 0)
  p = A.ewise(X.mul, xt, yt)
  n = len(fx) + len(fy)
  axes = tuple(range(n, n + len(cx)))
  if not axes:
    return p
  return A.reduce_all(p, axes, 'sum')


@np_def('tensordot')
def _tensordot(ip, a, kw):
  x, y = toarr(a[0]), toarr(a[1])
  axes = arg(a, kw, 2, 'axes', 2)
  if x.shape is None or y.shape is None:
    return opq('tensordot', x, y, axes)
  if isinstance(axes, int):
    cx = list(range(x.ndim - axes, x.ndim))
    cy = list(range(axes))
  else:
    cx, cy = axes
    cx = [cx] if not isinstance(cx, (tuple, list)) else list(cx)
    cy = [cy] if not isinstance(cy, (tuple, list)) else list(cy)
  cx = [_na(M.as_int(i), x.ndim) for i in cx]
  cy = [_na(M.as_int(i), y.ndim) for i in cy]
  if len(cx) != len(cy):
    raise_py('ValueError', 'tensordot axes')
  return M.pk(contract(x, y, cx, cy))


@np_def('dot')
def _dot(ip, a, kw):
  if any(isinstance(v, np.ndarray) for v in a[:2]):
    return nd_dot(ip, a[0], a[1])
  x, y = toarr(a[0]), toarr(a[1])
  if x.shape == () or y.shape == ():
    return ip.binop('mul', M.pk(x), M.pk(y))
  if x.shape is None or y.shape is None:
    return opq('dot', x, y)
  return M.pk(contract(x, y, [x.ndim - 1],
                       [y.ndim - 2 if y.ndim > 1 else 0]))


@np_def('inner')
def _inner(ip, a, kw):
  x, y = toarr(a[0]), toarr(a[1])
  if x.shape == () or y.shape == ():
    return ip.binop('mul', M.pk(x), M.pk(y))
  if x.shape is None or y.shape is None:
    return opq('inner', x, y)
  return M.pk(contract(x, y, [x.ndim - 1], [y.ndim - 1]))


@np_def('vdot')
def _vdot(ip, a, kw):
  if any(isinstance(x, Arr) and x.shape is not None and x.ndim > 1 for x in a):
    a = [_ravel(ip, [x], {}) for x in a]
  return call_sum(ip, ip.binop('mul', N.call(ip, 'conj', [a[0]], {}), a[1]))


def matmul(ip, a, b):
  if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
    return nd_dot(ip, a, b)
  for x in (a, b):
    if isinstance(x, Inst):
      return M.inst_bin(ip, 'matmul', a, b)
  x, y = toarr(a), toarr(b)
  if x.shape is None or y.shape is None:
    return opq('matmul', x, y)
  if x.ndim <= 2 and y.ndim <= 2:
    return _dot(ip, [x, y], {})
  # batched
  s = einsum_letters(x.ndim, y.ndim)
  return _einsum(ip, [s, x, y], {})


def einsum_letters(nx, ny):
  nb = max(nx, ny) - 2
  bt = 'abcdefg'[:nb]
  return f'{bt[nb - (nx - 2):]}xy,{bt[nb - (ny - 2):]}yz->{bt}xz'


@np_def('einsum')
def _einsum(ip, a, kw):
  spec = a[0].replace(' ', '')
  ops = [toarr(x) for x in a[1:]]
  if any(x.shape is None for x in ops):
    return opq('einsum', spec, *ops)
  ins, _, out = spec.partition('->')
  ins = ins.split(',')
  ell = max([x.ndim - len(s.replace('...', '')) for s, x in zip(ins, ops)
             if '...' in s] + [0])
  el = 'ABCDEFGH'[:ell]
  names = []
  for s, x in zip(ins, ops):
    k = x.ndim - len(s.replace('...', ''))
    names.append(s.replace('...', el[ell - k:]))
    if len(names[-1]) != x.ndim:
      raise_py('ValueError', 'einsum subscripts do not match the operand rank')
  if '->' in spec:
    out = out.replace('...', el)
  else:
    allc = ''.join(names)
    out = el + ''.join(sorted(c for c in set(allc) if allc.count(c) == 1
                              and c not in el))
  letters = list(out) + sorted({c for n in names for c in n} - set(out))
  cur = None
  for n, x in zip(names, ops):
    if len(set(n)) != len(n):
      raise Undecided('einsum with a repeated index')
    order = sorted(range(len(n)), key=lambda i: letters.index(n[i]))
    y = A.transpose(x, tuple(order))
    for k, c in enumerate(letters):
      if c not in n:
        y = A.expand_dims(y, k)
    try:
      cur = y if cur is None else A.ewise(X.mul, cur, y)
    except A.ShapeError as e:
      raise_py('ValueError', str(e))
  axes = tuple(range(len(out), len(letters)))
  return M.pk(A.reduce_all(cur, axes, 'sum') if axes else cur)


def nd_dot(ip, a, b):
  """Matrix product of object arrays."""
  a = a if isinstance(a, np.ndarray) else M.to_nd(list(ip.iterate(a)))
  b = b if isinstance(b, np.ndarray) else M.to_nd(list(ip.iterate(b)))
  if a.ndim == 1 and b.ndim == 1:
    return _ndsum(ip, [ip.binop('mul', x, y) for x, y in zip(a, b)])
  if a.ndim == 2 and b.ndim == 1:
    rows = [_ndsum(ip, [ip.binop('mul', x, y) for x, y in zip(r, b)]) for r in a]
    return M.to_nd(rows)
  if a.ndim == 2 and b.ndim == 2:
    return M.to_nd([[_ndsum(ip, [ip.binop('mul', a[i, k], b[k, j])
                                 for k in range(a.shape[1])])
                     for j in range(b.shape[1])] for i in range(a.shape[0])])
  if a.ndim == 1 and b.ndim == 2:
    return M.to_nd([_ndsum(ip, [ip.binop('mul', a[k], b[k, j])
                                for k in range(b.shape[0])])
                    for j in range(b.shape[1])])
  raise Undecided('object array product')


def _ndsum(ip, xs):
  acc = xs[0]
  for x in xs[1:]:
    acc = ip.binop('add', acc, x)
  return acc


ND = {}


def nd(name):
  def deco(f):
    ND[name] = f
    return f
  return deco


@nd('trace')
def _nd_trace(ip, a, kw):
  return _ndsum(ip, [a[0][i, i] for i in range(min(a[0].shape))])


@nd('sum')
def _nd_sum(ip, a, kw):
  v = a[0]
  ax = arg(a, kw, 1, 'axis')
  if ax is None:
    return _ndsum(ip, v.ravel().tolist())
  m = np.moveaxis(v, ax, 0)
  acc = m[0]
  for r in m[1:]:
    acc = M.nd_bin(ip, 'add', acc, r) if isinstance(acc, np.ndarray) else \
        ip.binop('add', acc, r)
  return acc


@nd('mean')
def _nd_mean(ip, a, kw):
  n = a[0].size if arg(a, kw, 1, 'axis') is None else a[0].shape[kw['axis']]
  return ip.binop('truediv', _nd_sum(ip, a, kw), n)


@nd('prod')
def _nd_prod(ip, a, kw):
  return functools.reduce(lambda x, y: ip.binop('mul', x, y),
                          a[0].ravel().tolist())


for _n in ('dot', 'matmul'):
  ND[_n] = lambda ip, a, kw: nd_dot(ip, a[0], a[1])
ND['ravel'] = lambda ip, a, kw: a[0].ravel()
ND['transpose'] = lambda ip, a, kw: a[0].transpose(*a[1:])
ND['moveaxis'] = lambda ip, a, kw: np.moveaxis(*a)
ND['array'] = ND['asarray'] = lambda ip, a, kw: a[0]
ND['shape'] = lambda ip, a, kw: a[0].shape
ND['ndim'] = lambda ip, a, kw: a[0].ndim
ND['stack'] = lambda ip, a, kw: opq('stack', *a)
ND['swapaxes'] = lambda ip, a, kw: np.swapaxes(*a)
ND['squeeze'] = lambda ip, a, kw: np.squeeze(*a)
ND['expand_dims'] = lambda ip, a, kw: np.expand_dims(*a)
ND['reshape'] = lambda ip, a, kw: np.reshape(*a)


def _nd_ufunc(name, op):
  ND[name] = lambda ip, a, kw: M.nd_bin(ip, op, a[0], a[1])


for _n, _o in list(N.BINARY.items()) + list(N.CMP.items()):
  _nd_ufunc(_n, _o)


def _nd_un(name):
  ND[name] = lambda ip, a, kw: N.nd_map(
      a[0], lambda x: N.call(ip, name, [x], {}, True))


for _n in N.UNARY:
  _nd_un(_n)

from . import lib_np3  # pylint: disable=wrong-import-position,unused-import
