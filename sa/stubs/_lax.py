"""jax.lax functions defined by modelled numpy functions (see _numpy.py)."""
import jax.numpy as jnp
import jax

abs_ = jnp.abs
acos = jnp.arccos
asin = jnp.arcsin
atan = jnp.arctan
atan2 = jnp.arctan2
cbrt = jnp.cbrt
ceil = jnp.ceil
conj = jnp.conj
cos = jnp.cos
cosh = jnp.cosh
exp = jnp.exp
exp2 = jnp.exp2
expm1 = jnp.expm1
floor = jnp.floor
imag = jnp.imag
is_finite = jnp.isfinite
log = jnp.log
log1p = jnp.log1p
neg = jnp.negative
real = jnp.real
reciprocal = jnp.reciprocal
round_ = jnp.round
sign = jnp.sign
sin = jnp.sin
sinh = jnp.sinh
sqrt = jnp.sqrt
square = jnp.square
tan = jnp.tan
tanh = jnp.tanh
bitwise_not = jnp.logical_not
bitwise_and = jnp.logical_and
bitwise_or = jnp.logical_or
expand_dims = jnp.expand_dims
full_like = jnp.full_like
full = jnp.full
tile = jnp.tile
broadcast_shapes = jnp.broadcast_shapes
batch_matmul = jnp.matmul
logistic = jax.nn.sigmoid
argmax = jnp.argmax
argmin = jnp.argmin
broadcast_to_rank = jnp.broadcast_to_rank


def rsqrt(x):
  return 1 / jnp.sqrt(x)


def _same(x, y):
  if jnp.ndim(x) != jnp.ndim(y) and jnp.ndim(x) != 0 and jnp.ndim(y) != 0:
    raise TypeError('shapes must be equal')


def add(x, y):
  _same(x, y)
  return x + y


def sub(x, y):
  _same(x, y)
  return x - y


def mul(x, y):
  _same(x, y)
  return x * y


def div(x, y):
  _same(x, y)
  if isinstance(x, int) and isinstance(y, int):
    undecided()
  return x / y


def rem(x, y):
  return jnp.fmod(x, y)


def pow_(x, y):
  return x ** y


def integer_pow(x, y):
  return x ** y


def max_(x, y):
  return jnp.maximum(x, y)


def min_(x, y):
  return jnp.minimum(x, y)


def eq(x, y):
  return x == y


def ne(x, y):
  return x != y


def lt(x, y):
  return x < y


def le(x, y):
  return x <= y


def gt(x, y):
  return x > y


def ge(x, y):
  return x >= y


def complex_(x, y):
  return x + 1j * y


def clamp(min, x, max):
  return jnp.minimum(jnp.maximum(x, min), max)


def select_n(which, *cases):
  if len(cases) != 2:
    undecided()
  return jnp.where(which, cases[1], cases[0])


def rev(operand, dimensions):
  for d in dimensions:
    operand = jnp.flip(operand, d)
  return operand


def reshape(operand, new_sizes, dimensions=None):
  if dimensions is not None:
    operand = jnp.transpose(operand, dimensions)
  return jnp.reshape(operand, new_sizes)


def transpose(operand, permutation):
  return jnp.transpose(operand, permutation)


def squeeze(array, dimensions):
  return jnp.squeeze(array, axis=tuple(dimensions))


def broadcast(operand, sizes):
  return jnp.broadcast_to(operand, tuple(sizes) + tuple(jnp.shape(operand)))


def broadcast_in_dim(operand, shape, broadcast_dimensions):
  dims = list(broadcast_dimensions)
  mid = tuple(jnp.shape(operand)[dims.index(j)] if j in dims else 1
              for j in range(len(shape)))
  return jnp.broadcast_to(jnp.reshape(operand, mid), tuple(shape))


def concatenate(operands, dimension):
  return jnp.concatenate(operands, axis=dimension)


def stack(operands, axis=0):
  return jnp.stack(operands, axis=axis)


def _along(a, axis, key):
  return a[tuple(key if j == axis else slice(None) for j in range(a.ndim))]


def pad(operand, padding_value, padding_config):
  for axis, (lo, hi, interior) in enumerate(padding_config):
    if interior:
      undecided()
    if lo < 0:
      operand = _along(operand, axis, slice(-lo, None))
      lo = 0
    if hi < 0:
      operand = _along(operand, axis, slice(None, hi))
      hi = 0
    if lo or hi:
      widths = [(lo, hi) if j == axis else (0, 0) for j in range(operand.ndim)]
      operand = jnp.pad(operand, widths, mode='constant',
                        constant_values=padding_value)
  return operand


def convert_element_type(operand, new_dtype):
  return jnp.asarray(operand, new_dtype)


def iota(dtype, size):
  return jnp.arange(size)


def broadcasted_iota(dtype, shape, dimension):
  n = shape[dimension]
  mid = tuple(n if j == dimension else 1 for j in range(len(shape)))
  return jnp.broadcast_to(jnp.reshape(jnp.arange(n), mid), tuple(shape))


def dot(lhs, rhs, precision=None):
  return jnp.dot(lhs, rhs, precision=precision)


def slice_(operand, start_indices, limit_indices, strides=None):
  if strides is None:
    strides = (1,) * len(start_indices)
  axis = 0
  for a, b, s in zip(start_indices, limit_indices, strides):
    operand = jax.lax.slice_in_dim(operand, a, b, s, axis)
    axis += 1
  return operand


def index_in_dim(operand, index, axis=0, keepdims=True):
  out = jnp.take(operand, index, axis=axis)
  return jnp.expand_dims(out, axis) if keepdims else out


def dynamic_index_in_dim(operand, index, axis=0, keepdims=True):
  out = jax.lax.dynamic_slice_in_dim(operand, index, 1, axis)
  return out if keepdims else jnp.squeeze(out, axis=axis)


def dynamic_slice(operand, start_indices, slice_sizes):
  axis = 0
  for a, n in zip(start_indices, slice_sizes):
    operand = jax.lax.dynamic_slice_in_dim(operand, a, n, axis)
    axis += 1
  return operand


def dynamic_update_index_in_dim(operand, update, index, axis):
  if jnp.ndim(update) < jnp.ndim(operand):
    update = jnp.expand_dims(update, axis)
  return jax.lax.dynamic_update_slice_in_dim(operand, update, index, axis)


def cumsum(operand, axis=0, reverse=False):
  if reverse:
    return jnp.flip(jnp.cumsum(jnp.flip(operand, axis), axis=axis), axis)
  return jnp.cumsum(operand, axis=axis)


def cumprod(operand, axis=0, reverse=False):
  if reverse:
    return jnp.flip(jnp.cumprod(jnp.flip(operand, axis), axis=axis), axis)
  return jnp.cumprod(operand, axis=axis)


def reduce_sum(operand, axes):
  return jnp.sum(operand, axis=tuple(axes))


def reduce_max(operand, axes):
  return jnp.max(operand, axis=tuple(axes))


def reduce_min(operand, axes):
  return jnp.min(operand, axis=tuple(axes))


def reduce_prod(operand, axes):
  return jnp.prod(operand, axis=tuple(axes))


def switch(index, branches, *operands):
  if isinstance(index, int):
    n = len(branches)
    return branches[0 if index < 0 else n - 1 if index >= n else index](
        *operands)
  undecided()


def split(operand, sizes, axis=0):
  out = []
  at = 0
  for n in sizes:
    out.append(jax.lax.slice_in_dim(operand, at, at + n, 1, axis))
    at += n
  return out


def collapse(operand, start_dimension, stop_dimension=None):
  shape = tuple(operand.shape)
  stop = len(shape) if stop_dimension is None else stop_dimension
  size = 1
  for n in shape[start_dimension:stop]:
    size = size * n
  return jnp.reshape(operand, shape[:start_dimension] + (size,) + shape[stop:])


def optimization_barrier(operand):
  return operand


def map_(f, xs):
  _, ys = jax.lax.scan(lambda c, x: (c, f(x)), None, xs)
  return ys
