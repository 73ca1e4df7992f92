"""numpy / jax.numpy functions defined by other modelled functions.

Interpreted by the analyser when a function has no model of its own (never
imported by Python). A dot in a name (linalg.inv) is written as '__'.
"""
import numpy as np

acos = np.arccos
asin = np.arcsin
atan = np.arctan
atan2 = np.arctan2
pow = np.power
around = np.round
bitwise_invert = np.invert
linalg__matmul = np.matmul
linalg__outer = np.outer
linalg__trace = np.trace
linalg__tensordot = np.tensordot
linalg__diagonal = np.diagonal
concat = np.concatenate
permute_dims = np.transpose


def fix(x):
  return np.trunc(x)


def degrees(x):
  return x * (180 / np.pi)


rad2deg = degrees


def angle(z, deg=False):
  a = np.arctan2(np.imag(z), np.real(z))
  return a * (180 / np.pi) if deg else a


def heaviside(x, y):
  return np.where(x < 0, 0, np.where(x > 0, 1, y))


def sinc(x):
  return np.where(x == 0, 1, np.sin(np.pi * x) / (np.pi * x))


def logaddexp(x1, x2):
  return np.log(np.exp(x1) + np.exp(x2))


def ldexp(x, n):
  return x * 2 ** n


def fmod(x1, x2):
  return x1 - x2 * np.trunc(x1 / x2)


def count_nonzero(a, axis=None, keepdims=False):
  return np.sum(np.where(a != 0, 1, 0), axis=axis, keepdims=keepdims)


def atleast_1d(*arys):
  out = [np.reshape(a, (1,)) if np.ndim(a) == 0 else np.asarray(a)
         for a in arys]
  return out[0] if len(out) == 1 else out


def atleast_2d(*arys):
  out = []
  for a in arys:
    a = np.asarray(a)
    if a.ndim == 0:
      a = np.reshape(a, (1, 1))
    elif a.ndim == 1:
      a = a[np.newaxis, :]
    out.append(a)
  return out[0] if len(out) == 1 else out


def atleast_3d(*arys):
  out = []
  for a in arys:
    a = np.asarray(a)
    if a.ndim == 0:
      a = np.reshape(a, (1, 1, 1))
    elif a.ndim == 1:
      a = a[np.newaxis, :, np.newaxis]
    elif a.ndim == 2:
      a = a[:, :, np.newaxis]
    out.append(a)
  return out[0] if len(out) == 1 else out


def column_stack(tup):
  return np.concatenate(
      [a[:, np.newaxis] if np.ndim(a) == 1 else a for a in tup], axis=1)


def append(arr, values, axis=None):
  if axis is None:
    return np.concatenate([np.ravel(arr), np.ravel(values)])
  return np.concatenate([arr, values], axis=axis)


def hsplit(ary, indices_or_sections):
  return np.split(ary, indices_or_sections, axis=0 if np.ndim(ary) == 1 else 1)


def vsplit(ary, indices_or_sections):
  return np.split(ary, indices_or_sections, axis=0)


def dsplit(ary, indices_or_sections):
  return np.split(ary, indices_or_sections, axis=2)


def unstack(x, axis=0):
  return tuple(np.take(x, i, axis=axis) for i in range(x.shape[axis]))


def flipud(m):
  return np.flip(m, 0)


def fliplr(m):
  return np.flip(m, 1)


def rot90(m, k=1, axes=(0, 1)):
  k = k % 4
  if k == 0:
    return m
  if k == 2:
    return np.flip(np.flip(m, axes[0]), axes[1])
  if k == 1:
    return np.swapaxes(np.flip(m, axes[1]), axes[0], axes[1])
  return np.flip(np.swapaxes(m, axes[0], axes[1]), axes[1])


def rollaxis(a, axis, start=0):
  n = np.ndim(a)
  axis = axis % n
  if start < 0:
    start += n
  if axis < start:
    start -= 1
  return np.moveaxis(a, axis, start)


def matrix_transpose(x):
  return np.swapaxes(x, -1, -2)


linalg__matrix_transpose = matrix_transpose


def _along(a, axis, key):
  return a[tuple(key if j == axis % np.ndim(a) else slice(None)
                 for j in range(np.ndim(a)))]


def diff(a, n=1, axis=-1, prepend=None, append=None):
  parts = []
  axis = axis % np.ndim(a)

  def edge(x):
    if np.ndim(x) == 0:
      shape = tuple(1 if j == axis else s for j, s in enumerate(a.shape))
      return np.broadcast_to(x, shape)
    return x

  if prepend is not None:
    parts.append(edge(prepend))
  parts.append(a)
  if append is not None:
    parts.append(edge(append))
  if len(parts) > 1:
    a = np.concatenate(parts, axis=axis)
  for _ in range(n):
    a = _along(a, axis, slice(1, None)) - _along(a, axis, slice(None, -1))
  return a


def ediff1d(ary):
  return diff(np.ravel(ary))


def gradient(f, *varargs, axis=None, edge_order=1):
  if edge_order != 1:
    undecided()
  if axis is None:
    axes = list(range(f.ndim))
  elif isinstance(axis, int):
    axes = [axis]
  else:
    axes = list(axis)
  if not varargs:
    steps = [1] * len(axes)
  elif len(varargs) == 1:
    steps = [varargs[0]] * len(axes)
  else:
    steps = list(varargs)
  out = []
  for ax, h in zip(axes, steps):
    ax = ax % f.ndim
    if np.ndim(h) != 0:
      undecided()
    inner = (_along(f, ax, slice(2, None)) - _along(f, ax, slice(None, -2))) / (
        2 * h)
    first = (_along(f, ax, slice(1, 2)) - _along(f, ax, slice(0, 1))) / h
    last = (_along(f, ax, slice(-1, None)) - _along(f, ax, slice(-2, -1))) / h
    out.append(np.concatenate([first, inner, last], axis=ax))
  return out[0] if len(axes) == 1 else out


def trapezoid(y, x=None, dx=1.0, axis=-1):
  if x is not None:
    dx = diff(x)
    if np.ndim(x) == 1:
      shape = [1] * np.ndim(y)
      shape[axis] = dx.shape[0]
      dx = np.reshape(dx, tuple(shape))
  hi = _along(y, axis, slice(1, None))
  lo = _along(y, axis, slice(None, -1))
  return np.sum(dx * (hi + lo) / 2, axis=axis)


def insert(arr, obj, values, axis=None):
  if axis is None:
    arr = np.ravel(arr)
    axis = 0
  if not isinstance(obj, int):
    undecided()
  shape = tuple(1 if j == axis % np.ndim(arr) else s
                for j, s in enumerate(arr.shape))
  if np.ndim(values) == np.ndim(arr) - 1:
    values = np.expand_dims(values, axis)
  values = np.broadcast_to(values, shape)
  return np.concatenate([_along(arr, axis, slice(None, obj)), values,
                         _along(arr, axis, slice(obj, None))], axis=axis)


def delete(arr, obj, axis=None):
  if axis is None:
    arr = np.ravel(arr)
    axis = 0
  if not isinstance(obj, int):
    undecided()
  if obj == -1:
    return _along(arr, axis, slice(None, -1))
  return np.concatenate([_along(arr, axis, slice(None, obj)),
                         _along(arr, axis, slice(obj + 1, None))], axis=axis)


def tri(N, M=None, k=0, dtype=None):
  M = N if M is None else M
  return np.where(np.arange(M)[np.newaxis, :] <= np.arange(N)[:, np.newaxis] + k,
                  1.0, 0.0)


def tril(m, k=0):
  r = np.arange(m.shape[-2])[:, np.newaxis]
  c = np.arange(m.shape[-1])[np.newaxis, :]
  return np.where(c <= r + k, m, 0)


def triu(m, k=0):
  r = np.arange(m.shape[-2])[:, np.newaxis]
  c = np.arange(m.shape[-1])[np.newaxis, :]
  return np.where(c >= r + k, m, 0)


def diag_indices(n, ndim=2):
  return (np.arange(n),) * ndim


def _running(a, axis, f):
  if axis is None:
    a = np.ravel(a)
    axis = 0
  out = [_along(a, axis, 0)]
  for i in range(1, a.shape[axis % np.ndim(a)]):
    out.append(f(out[-1], _along(a, axis, i)))
  return np.stack(out, axis=axis)


def cumprod(a, axis=None):
  return _running(a, axis, lambda x, y: x * y)


def cumulative_sum(x, axis=None):
  return np.cumsum(x, axis=axis)


cumulative_prod = cumprod


def cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
  if axis is not None:
    axisa = axisb = axisc = axis
  na = a.shape[axisa]
  x = [np.take(a, i, axis=axisa) for i in range(na)]
  y = [np.take(b, i, axis=axisb) for i in range(b.shape[axisb])]
  if len(x) == 2 and len(y) == 2:
    return x[0] * y[1] - x[1] * y[0]
  if len(x) == 2:
    x.append(0 * x[0])
  if len(y) == 2:
    y.append(0 * y[0])
  return np.stack([x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2],
                   x[0] * y[1] - x[1] * y[0]], axis=axisc)


linalg__cross = cross


def ix_(*args):
  out = []
  for i, a in enumerate(args):
    a = np.asarray(a)
    out.append(np.reshape(a, tuple(a.shape[0] if j == i else 1
                                   for j in range(len(args)))))
  return tuple(out)


def indices(dimensions, dtype=None, sparse=False):
  grids = np.meshgrid(*[np.arange(n) for n in dimensions], indexing='ij',
                      sparse=sparse)
  return tuple(grids) if sparse else np.stack(grids)


def fromfunction(function, shape, dtype=None, **kwargs):
  return function(*[x for x in indices(shape)], **kwargs)


def fromiter(iter, dtype=None, count=-1):
  return np.array(list(iter))


def select(condlist, choicelist, default=0):
  out = default
  for c, v in zip(reversed(list(condlist)), reversed(list(choicelist))):
    out = np.where(c, v, out)
  return out


def piecewise(x, condlist, funclist, *args, **kw):
  condlist = list(condlist)
  funclist = list(funclist)
  if len(funclist) == len(condlist) + 1:
    out = funclist.pop()
    out = out(x, *args, **kw) if callable(out) else out
  else:
    out = 0
  for c, f in zip(condlist, funclist):
    out = np.where(c, f(x, *args, **kw) if callable(f) else f, out)
  return out


def vander(x, N=None, increasing=False):
  N = x.shape[0] if N is None else N
  cols = [x ** i for i in range(N)]
  return np.stack(cols if increasing else cols[::-1], axis=1)


def polyval(p, x):
  out = 0
  for c in p:
    out = out * x + c
  return out


def logspace(start, stop, num=50, endpoint=True, base=10.0):
  return base ** np.linspace(start, stop, num, endpoint=endpoint)


def block(arrays):
  def depth(x):
    return 1 + max(depth(y) for y in x) if isinstance(x, list) else 0

  def build(x, axis):
    if isinstance(x, list):
      parts = [build(y, axis + 1) for y in x]
      return np.concatenate(parts, axis=axis)
    return x

  d = depth(arrays)
  return build(arrays, -d)


def vecdot(x1, x2, axis=-1):
  return np.sum(np.conj(x1) * x2, axis=axis)


linalg__vecdot = vecdot


def matvec(x1, x2):
  return np.sum(x1 * x2[..., np.newaxis, :], axis=-1)


def linalg__multi_dot(arrays):
  out = arrays[0]
  for a in arrays[1:]:
    out = np.dot(out, a)
  return out


def linalg__matrix_power(a, n):
  if n < 0:
    undecided()
  out = np.eye(a.shape[-1])
  for _ in range(n):
    out = np.matmul(out, a)
  return out


def linalg__vector_norm(x, ord=2, axis=None, keepdims=False):
  return np.linalg.norm(x, ord=None if axis is None else ord, axis=axis,
                        keepdims=keepdims)


def linalg__det(a):
  n = a.shape[-1]
  if n == 1:
    return a[..., 0, 0]
  if n == 2:
    return a[..., 0, 0] * a[..., 1, 1] - a[..., 0, 1] * a[..., 1, 0]
  undecided()


def lcm(x1, x2):
  return x1 * x2 // np.gcd(x1, x2)


def iterable(y):
  return not np.isscalar(y)


def broadcast_to_rank(x, rank):
  while np.ndim(x) < rank:
    x = x[np.newaxis]
  return x


def apply_over_axes(func, a, axes):
  for ax in axes:
    r = func(a, ax)
    a = r if np.ndim(r) == np.ndim(a) else np.expand_dims(r, ax)
  return a


def correlate(a, v, mode='valid'):
  return np.convolve(a, np.flip(v), mode=mode)


def vstack(tup):
  return np.concatenate([atleast_2d(a) for a in tup], axis=0)


def hstack(tup):
  tup = [atleast_1d(a) for a in tup]
  return np.concatenate(tup, axis=0 if np.ndim(tup[0]) == 1 else 1)


def dstack(tup):
  return np.concatenate([atleast_3d(a) for a in tup], axis=2)


def array_split(ary, indices_or_sections, axis=0):
  if not isinstance(indices_or_sections, int):
    return np.split(ary, indices_or_sections, axis=axis)
  n = ary.shape[axis]
  if not isinstance(n, int):
    undecided()
  k, extra = divmod(n, indices_or_sections)
  at = 0
  out = []
  for i in range(indices_or_sections):
    size = k + 1 if i < extra else k
    out.append(_along(ary, axis, slice(at, at + size)))
    at += size
  return out


def ptp(a, axis=None):
  return np.max(a, axis=axis) - np.min(a, axis=axis)


def argwhere(a):
  return np.stack(np.nonzero(a), axis=1)


def interp(x, xp, fp):
  if not isinstance(xp.shape[0], int):
    undecided()
  out = np.where(x >= xp[-1], fp[-1], fp[0])
  for i in range(xp.shape[0] - 1):
    w = (x - xp[i]) / (xp[i + 1] - xp[i])
    out = np.where((x >= xp[i]) & (x < xp[i + 1]),
                   fp[i] + w * (fp[i + 1] - fp[i]), out)
  return out
