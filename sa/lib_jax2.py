"""jax models, part 2: slicing, solvers, random, nn, haiku, einops."""
from fractions import Fraction
import functools

import numpy as np

from . import arr as A
from . import expr as X
from . import interp as IN
from . import models as M
from . import lib_np as N
from . import lib_np2 as N2
from .arr import Arr
from .expr import Expr, Undecided
from .interp import Ext, Func, Inst, PyFn, raise_py
from .lib_jax import JAX, jx, arg, tree_flatten, tree_unflatten


# ---------------------------------------------------------------- slicing

@jx('jax.lax.slice_in_dim')
def _slice_in_dim(ip, a, kw):
  v = N2.toarr(a[0])
  st, en = arg(a, kw, 1, 'start_index'), arg(a, kw, 2, 'limit_index')
  sp, ax = arg(a, kw, 3, 'stride', 1), arg(a, kw, 4, 'axis', 0)
  if v.shape is None:
    return M.opaque('slice_in_dim', v, st, en, sp, ax)
  ax = N._na(M.as_int(ax), v.ndim)
  ks = [slice(None)] * v.ndim
  ks[ax] = slice(st, en, sp)
  for x in (st, en):
    # lax.slice rejects out-of-bounds limits, unlike numpy slicing
    if x is not None:
      x = M.as_int(x)
      if isinstance(x, int) and x < 0:
        continue
      if A.cmp_dim(A.dim(x), v.shape[ax]) > 0:
        raise_py('ValueError', 'slice limit_indices must be <= operand shape')
  return M.index(v, tuple(ks))


@jx('jax.lax.dynamic_slice_in_dim')
def _dyn(ip, a, kw):
  v = N2.toarr(a[0])
  st, sz = arg(a, kw, 1, 'start_index'), arg(a, kw, 2, 'slice_size')
  ax = arg(a, kw, 3, 'axis', 0)
  if v.shape is None:
    return M.opaque('dynamic_slice_in_dim', v, st, sz, ax)
  ax = N._na(M.as_int(ax), v.ndim)
  st, sz = A.dim(M.as_int(st)), A.dim(M.as_int(sz))
  # clamps the start so that the slice fits
  last = A.dim(X.add(A.ex(v.shape[ax]), X.scale(A.ex(sz), -1)))
  if A.cmp_dim(last, 0) < 0:
    raise_py('TypeError', 'slice slice_sizes must be less than or equal to '
             'operand shape')
  if A.cmp_dim(st, 0) < 0:
    # negative indices count from the end, before clamping
    st = A.dim(X.add(A.ex(st), A.ex(v.shape[ax])))
    if A.cmp_dim(st, 0) < 0:
      st = A.dim(0)
  if A.cmp_dim(st, last) > 0:
    st = last
  return A.slice_axis(v, ax, st, sz)


@jx('jax.lax.dynamic_update_slice_in_dim')
def _dus(ip, a, kw):
  v = N2.toarr(a[0])
  u = N2.toarr(a[1])
  ax = N._na(M.as_int(arg(a, kw, 3, 'axis')), v.ndim)
  st = M.as_int(a[2])
  ks = [slice(None)] * v.ndim
  ks[ax] = slice(st, A.dim(X.add(A.ex(A.dim(st)), A.ex(u.shape[ax]))))
  return M.update(v, tuple(ks), u)


# ---------------------------------------------------------------- solvers

@jx('jax.scipy.sparse.linalg.cg', 'jax.scipy.sparse.linalg.gmres',
    'jax.scipy.sparse.linalg.bicgstab')
def _cg(ip, a, kw):
  op, b = a[0], a[1]
  kw = dict(kw)
  lb, d = tree_flatten(ip, b)
  k = len([e for e in ip.events if e[0] == 'cg'])
  out = []
  for i, x in enumerate(lb):
    x = M.to_arr(x)
    if x.shape is None:
      out.append(M.opaque('cg.x', k, i))
    else:
      out.append(Arr.uniform(x.shape, X.rd(f'cg{k}.{i}', tuple(
          None for _ in x.shape), tuple(X.idx(j) for j in range(x.ndim)))))
  sol = tree_unflatten(ip, d, out)
  ip.events.append(('cg', op, b, kw, sol))
  return (sol, None)


# ---------------------------------------------------------------- random

@jx('jax.random.PRNGKey', 'jax.random.key')
def _key(ip, a, kw):
  return M.opaque('PRNGKey', *a)


@jx('jax.random.split')
def _split(ip, a, kw):
  n = arg(a, kw, 1, 'num', 2)
  n = A.dim(M.as_int(n))
  ip.events.append(('rng', 'split', a[0], n))
  if isinstance(n, int):
    return KeyArr([M.opaque('split', a[0], n, i) for i in range(n)])
  return M.opaque('split', a[0], n)


class KeyArr(list):
  """A stack of keys."""


@jx('jax.random.fold_in')
def _fold(ip, a, kw):
  ip.events.append(('rng', 'fold_in', a[0], a[1]))
  return M.opaque('fold_in', *a)


_DRAWS = {  # name -> argument names after the key
    'normal': ('shape', 'dtype'),
    'uniform': ('shape', 'dtype', 'minval', 'maxval'),
    'truncated_normal': ('lower', 'upper', 'shape', 'dtype'),
    'randint': ('shape', 'minval', 'maxval', 'dtype'),
    'bernoulli': ('p', 'shape'),
    'choice': ('a', 'shape', 'replace', 'p', 'axis'),
    'permutation': ('x', 'axis', 'independent'),
}
_DRAW_DEFAULTS = {'minval': 0, 'maxval': 1, 'replace': True, 'axis': 0,
                  'p': None}


def _draw(name):
  def f(ip, a, kw):
    names = ('key',) + _DRAWS[name]
    full = dict(zip(names, a))
    full.update(kw)
    key = full.pop('key')
    full.pop('dtype', None)
    s = N.shape_of(full.pop('shape', ()))
    for k, d in _DRAW_DEFAULTS.items():
      if k in names:
        full.setdefault(k, d)
    base = ('random.' + name, M.tokey(key)) + tuple(
        (k, M.tokey(full[k])) for k in sorted(full))
    if s is None:
      r = M.opaque('random.' + name, key, full)
    else:
      r = M.pk(Arr.uniform(s, X.of_atom(X.mkatom('call', base + tuple(
          X.idx(j) for j in range(len(s))), real=True))))
    ip.events.append(('rng', name, key, s, full, r))
    return r
  JAX['jax.random.' + name] = f


for _n in ('normal', 'uniform', 'truncated_normal', 'randint', 'bernoulli',
           'choice'):
  _draw(_n)


@jx('jax.random.permutation')
def _perm(ip, a, kw):
  r = M.opaque('random.permutation', *a)
  ip.events.append(('rng', 'permutation', a[0], None, {'x': a[1]}, r))
  return r


# ---------------------------------------------------------------- nn

def _act(name, f):
  JAX['jax.nn.' + name] = lambda ip, a, kw: M.pk(A.unary(
      f, N2.toarr(a[0])))


_act('relu', lambda e: X.maximum(e, X.ZERO))
_act('softplus', lambda e: X.apply_op('softplus', (e,)))
_act('elu', lambda e: X.apply_op('elu', (e,)))
_act('gelu', lambda e: X.apply_op('gelu', (e,)))
_act('swish', lambda e: X.apply_op('swish', (e,)))
_act('silu', lambda e: X.apply_op('swish', (e,)))
_act('sigmoid', lambda e: X.apply_op('sigmoid', (e,)))


@jx('jax.scipy.ndimage.map_coordinates')
def _map_coordinates(ip, a, kw):
  v = N2.toarr(arg(a, kw, 0, "input"))
  coords = [N2.toarr(c) for c in ip.iterate(arg(a, kw, 1, "coordinates"))]
  order = arg(a, kw, 2, 'order')
  mode = arg(a, kw, 3, 'mode', 'constant')
  cv = arg(a, kw, 4, 'cval', 0)
  ip.events.append(('map_coordinates', v, coords, order, mode, cv))
  if v.shape is None or any(c.shape is None for c in coords):
    return M.opaque('map_coordinates', v, tuple(coords), order, mode)
  if len(coords) != v.ndim:
    raise_py('ValueError', 'coordinates must be a sequence of length ndim')
  s = A.broadcast_shapes([c.shape for c in coords])
  e = X.of_atom(X.mkatom('call', (
      'map_coordinates', M.tokey(v), M.tokey(order), M.tokey(mode),
      tuple(M.tokey(A.broadcast_to(c, s)) for c in coords)) + tuple(
          X.idx(j) for j in range(len(s))), real=True))
  return Arr.uniform(s, e)


for _n in ('pmean', 'psum', 'pmax'):
  JAX['jax.lax.' + _n] = (lambda n: lambda ip, a, kw: M.opaque(
      'jax.lax.' + n, a[0], arg(a, kw, 1, 'axis_name')))(_n)
JAX['jax.lax.stop_gradient'] = lambda ip, a, kw: a[0]
JAX['jax.device_get'] = JAX['jax.device_put'] = lambda ip, a, kw: a[0]
JAX['jax.eval_shape'] = lambda ip, a, kw: ip.call(a[0], list(a[1:]), kw)
class Device:
  """A device of the platform under analysis (ip.platform, default cpu)."""

  def sa_attr(self, ip, name):
    if name == 'platform':
      return getattr(ip, 'platform', 'cpu')
    return M.opaque('device.' + name)


JAX['jax.local_devices'] = JAX['jax.devices'] = lambda ip, a, kw: [Device()]


@jx('jax.value_and_grad')
def _vag(ip, a, kw):
  f = a[0]
  nums = arg(a, kw, 1, 'argnums', 0)

  def g(ip_, b, kw_):
    val = ip.call(f, b, kw_)
    idx = [nums] if isinstance(nums, int) else list(nums)
    gr = []
    for i in idx:
      l, d = tree_flatten(ip, b[i])
      gr.append(tree_unflatten(ip, d, [
          M.opaque('grad', val, i, k, x) for k, x in enumerate(l)]))
    return (val, gr[0] if isinstance(nums, int) else tuple(gr))
  return PyFn(g, 'value_and_grad')


@jx('jax.grad')
def _grad(ip, a, kw):
  h = _vag(ip, a, kw)
  return PyFn(lambda ip_, b, kw_: ip.call(h, b, kw_)[1], 'grad')


# ---------------------------------------------------------------- haiku

@jx('haiku.get_parameter')
def _getp(ip, a, kw):
  name = a[0]
  s = N.shape_of(arg(a, kw, 1, 'shape', ()))
  e = X.of_atom(X.mkatom('call', ('param', name) + tuple(
      X.idx(j) for j in range(len(s))), real=True))
  ip.events.append(('param', name, s))
  return M.pk(Arr.uniform(s, e))


JAX['haiku.next_rng_key'] = lambda ip, a, kw: _next_rng(ip)


def _next_rng(ip):
  n = len([e for e in ip.events if e[0] == 'next_rng'])
  ip.events.append(('next_rng',))
  return M.opaque('next_rng_key', n)


@jx('haiku.transform')
def _transform(ip, a, kw):
  return Transformed(a[0])


JAX['haiku.without_apply_rng'] = lambda ip, a, kw: a[0]


class Transformed:

  def __init__(self, f):
    self.f = f

  def sa_attr(self, ip, name):
    if name == 'init':
      return PyFn(lambda ip_, a, kw: M.opaque('params', self.f))
    if name == 'apply':
      return PyFn(lambda ip_, a, kw: ip.call(self.f, list(a[1:]), kw))
    raise_py('AttributeError', name)

  def sa_iter(self, ip):
    return [self.sa_attr(ip, 'init'), self.sa_attr(ip, 'apply')]


# ---------------------------------------------------------------- einops

@jx('einops.rearrange')
def _rearrange(ip, a, kw):
  v = N2.toarr(a[0])
  pat = a[1]
  if v.shape is None:
    return M.opaque('rearrange', v, pat, kw)
  lhs, rhs = [_parse(s) for s in pat.split('->')]
  ell = v.ndim - (len(lhs) - 1) if ['...'] in lhs else 0

  def expand(side):
    out = []
    for g in side:
      if g == ['...']:
        out += [[f'.{k}'] for k in range(ell)]
      else:
        out.append(g)
    return out
  lhs, rhs = expand(lhs), expand(rhs)
  if len(lhs) != v.ndim:
    raise_py('ValueError', f'rearrange: rank mismatch {pat}')
  sizes, shape = {}, []
  for g, d in zip(lhs, v.shape):
    known = [k for k in g if k in kw or k.isdigit()]
    for k in known:
      sizes[k] = A.dim(M.as_int(kw[k])) if k in kw else int(k)
    unk = [k for k in g if k not in known]
    prod = functools.reduce(X.mul, [A.ex(sizes[k]) for k in known], X.ONE)
    if len(unk) == 1:
      q = X.mul(A.ex(d), X.power(prod, -1))
      if q.is_const() and q.const_value().denominator != 1:
        raise_py('ValueError', f'rearrange: {d} is not divisible by {prod}')
      sizes[unk[0]] = A.dim(q)
    elif unk:
      raise_py('ValueError', 'rearrange: cannot infer sizes')
    shape += [sizes[k] for k in g]
  names = [k for g in lhs for k in g]
  x = A.reshape(v, tuple(shape)) if shape != list(v.shape) else v
  order = [k for g in rhs for k in g if k in names]
  if sorted(order) != sorted(names):
    raise_py('ValueError', 'rearrange: identifiers differ')
  x = A.transpose(x, tuple(names.index(k) for k in order))
  out = []
  for g in rhs:
    out.append(A.dim(functools.reduce(X.mul, [A.ex(sizes[k]) for k in g],
                                      X.ONE)))
  return A.reshape(x, tuple(out)) if tuple(out) != tuple(x.shape) else x


def _parse(s):
  out, i, s = [], 0, s.strip()
  toks = s.replace('(', ' ( ').replace(')', ' ) ').split()
  grp = None
  for t in toks:
    if t == '(':
      grp = []
    elif t == ')':
      out.append(grp)
      grp = None
    elif grp is not None:
      grp.append(t)
    else:
      out.append([t] if t != '1' else [])
  return out


# ---------------------------------------------------------------- scipy

@jx('scipy.linalg.block_diag')
def _block_diag(ip, a, kw):
  ms = [N2.toarr(x) for x in a]
  if any(m.shape is None for m in ms):
    return M.opaque('block_diag', *a)
  cols = sum(m.shape[1] for m in ms)
  rows, off = [], 0
  for m in ms:
    rows.append(A.pad_axis(m, 1, off, cols - off - m.shape[1], 'constant'))
    off += m.shape[1]
  return A.concat(rows, 0)


@jx('scipy.linalg.circulant')
def _circulant(ip, a, kw):
  v = N2.toarr(a[0])
  n = v.shape[0]
  if not isinstance(n, int):
    raise Undecided('circulant of symbolic size')
  return A.stack([A.stack([A.take_index(v, 0, (i - j) % n) for j in range(n)],
                          0) for i in range(n)], 0)


@jx('scipy.linalg.toeplitz')
def _toeplitz(ip, a, kw):
  v = N2.toarr(a[0])
  n = v.shape[0]
  return A.stack([A.stack([A.take_index(v, 0, abs(i - j)) for j in range(n)],
                          0) for i in range(n)], 0)


@jx('scipy.special.factorial')
def _fact(ip, a, kw):
  import math
  v = M.pk(a[0]) if not isinstance(a[0], (int, Fraction)) else a[0]
  if isinstance(v, (int, Fraction)):
    return math.factorial(int(v))
  v = N2.toarr(v)
  return M.pk(A.unary(lambda e: X.const(math.factorial(int(e.const_value())))
                      if e.is_const() else X.apply_op('factorial', (e,)), v))
