"""Models of numpy / jax.numpy: dispatch, elementwise, reductions, shapes."""
from fractions import Fraction
import functools

import numpy as np

from . import arr as A
from . import expr as X
from . import interp as IN
from . import models as M
from .arr import Arr
from .expr import Expr, Undecided
from .interp import Ext, Inst, Phi, PyFn, TypeV, raise_py

F = {}

DTYPES = {}
for _p in ('numpy.', 'jax.numpy.'):
  for _n in ('float32', 'float64', 'float16', 'bfloat16', 'float_', 'floating',
             'inexact', 'number'):
    DTYPES[_p + _n] = 'float'
  for _n in ('complex64', 'complex128', 'complexfloating', 'complex_'):
    DTYPES[_p + _n] = 'complex'
  for _n in ('int32', 'int64', 'int8', 'uint8', 'uint32', 'integer', 'int_',
             'int16'):
    DTYPES[_p + _n] = 'int'
  DTYPES[_p + 'bool_'] = DTYPES[_p + 'bool'] = 'bool'

_CANON = {
    'jax.numpy.float_': 'numpy.float_',
}


def canon(q):
  return _CANON.get(q, q)


def np_def(*names):
  def deco(f):
    for n in names:
      F[n] = f
    return f
  return deco


def arg(a, kw, i, name, default=None):
  if len(a) > i:
    return a[i]
  return kw.get(name, default)


IGNORABLE = {'dtype', 'copy', 'precision', 'preferred_element_type', 'device',
             'unique_indices', 'indices_are_sorted', 'total_repeat_length',
             'optimize', 'subok', 'casting', 'is_leaf_takes_path', 'backend',
             'out_sharding', 'unroll', 'donate_argnums', 'inline', 'method',
             'static_argnums', 'static_argnames', 'name', 'policy', 'prevent_cse',
             'num_segments', 'key', 'rng', 'mutable', 'size', 'equal_nan',
             'wrap_negative_indices', 'fill_value', 'stable', 'kind',
             'descending', 'has_aux', 'holomorphic', 'allow_int',
             'check', 'split_rng', 'with_rng', 'rcond', 'rtol', 'atol', 'type', 'order'}


class Keywords(dict):
  """Keyword arguments that remember which of them a model looked at."""

  def __init__(self, d):
    dict.__init__(self, d)
    self.seen = set()

  def get(self, k, d=None):
    self.seen.add(k)
    return dict.get(self, k, d)

  def pop(self, k, *d):
    self.seen.add(k)
    return dict.pop(self, k, *d)

  def __getitem__(self, k):
    self.seen.add(k)
    return dict.__getitem__(self, k)

  def __contains__(self, k):
    self.seen.add(k)
    return dict.__contains__(self, k)

  def _all(self):
    self.seen.update(dict.keys(self))

  def __iter__(self):
    self._all()
    return dict.__iter__(self)

  def keys(self):
    self._all()
    return dict.keys(self)

  def items(self):
    self._all()
    return dict.items(self)

  def values(self):
    self._all()
    return dict.values(self)


def guarded(f, ip, name, args, kw):
  """Runs a model; an argument it did not look at leaves the call undecided."""
  if not kw:
    return f(ip, args, kw)
  k = Keywords(kw)
  r = f(ip, args, k)
  for x in dict.keys(kw):
    if x not in k.seen and x not in IGNORABLE:
      raise Undecided(f'{name} with argument {x}')
  return r


def call(ip, name, args, kw, np_=False):
  args = list(args)
  inst = [x for x in args if isinstance(x, Inst)]
  if inst and name in UFUNCS:
    if np_ or any(M.has_mixin(x) for x in inst):
      if not np_:
        raise_py('TypeError', f'jnp.{name} requires ndarray arguments, got '
                 f'{inst[0].cls.name}')
      return M.call_ufunc_protocol(ip, name, args, kw)
  base, _, meth = name.rpartition('.')
  if inst and np_ and base in UFUNCS and meth in UFUNC_METHODS:
    return M.call_ufunc_protocol(ip, base, args, kw, meth)
  if inst and np_:
    for x in inst:
      m, _ = x.cls.lookup('__array_function__')
      if m is not None:
        return ip.call(m, [x, Ext('numpy.' + name), (), tuple(args), kw], {})
  if inst and name not in ('vectorize', 'apply_along_axis', 'ndim', 'shape',
                           'array', 'asarray'):
    if any(M.has_mixin(x) for x in inst):
      raise_py('TypeError', f'{name} requires ndarray arguments, got '
               f'{inst[0].cls.name}')
  for i, x in enumerate(args):
    if isinstance(x, Inst) and x.cls.mod.stub:
      args[i] = _array(ip, [x], {})
  for i, x in enumerate(args):
    if isinstance(x, Phi):
      p, q = list(args), list(args)
      p[i], q[i] = x.a, x.b
      return ip.ite(x.c, call(ip, name, p, kw, np_), call(ip, name, q, kw, np_))
  if any(isinstance(x, np.ndarray) for x in args) and name in ND:
    return ND[name](ip, args, kw)
  f = F.get(name)
  if f is None:
    g = ip.extra('_numpy', name)
    if g is not None:
      return ip.call(g, args, kw)
    return M.opaque_call(ip, 'numpy.' + name, args, kw)
  return guarded(f, ip, name, args, kw)


def opq(name, *args, **k):
  return M.opaque('numpy.' + name, *args, **k)


# ---------------------------------------------------------------- elementwise

UFUNCS = set()


def _ceil(e):
  return X.scale(X.floor(X.scale(e, -1)), -1)


UNARY = {
    'sin': X.sin, 'cos': X.cos, 'exp': X.exp, 'log': X.log,
    'tanh': X.unary('tanh'), 'tan': X.unary('tan'), 'arctan': X.unary('arctan'),
    'arcsin': X.unary('arcsin'), 'arccos': X.unary('arccos'),
    'sinh': X.unary('sinh'), 'cosh': X.unary('cosh'),
    'sqrt': lambda e: X.power(e, Fraction(1, 2)),
    'cbrt': lambda e: X.power(e, Fraction(1, 3)),
    'square': lambda e: X.mul(e, e),
    'abs': X.absolute, 'absolute': X.absolute, 'fabs': X.absolute,
    'sign': X.sgn, 'floor': X.floor, 'ceil': _ceil,
    'negative': lambda e: X.scale(e, -1), 'positive': lambda e: e,
    'reciprocal': lambda e: X.power(e, -1),
    'conj': X.conj, 'conjugate': X.conj,
    'real': X.real, 'imag': X.imag,
    'exp2': lambda e: X.exp(X.mul(e, X.log(X.const(2)))),
    'expm1': lambda e: X.add(X.exp(e), X.const(-1)),
    'log1p': lambda e: X.log(X.add(e, X.ONE)),
    'log2': lambda e: X.mul(X.log(e), X.power(X.log(X.const(2)), -1)),
    'log10': lambda e: X.mul(X.log(e), X.power(X.log(X.const(10)), -1)),
    'logical_not': lambda e: X.lnot(_tb(e)), 'invert': X.lnot,
    'bitwise_not': X.lnot,
    'trunc': lambda e: X.mul(X.sgn(e), X.floor(X.absolute(e))),
    'round': lambda e: X.apply_op('round', (e,)),
    'rint': lambda e: X.apply_op('round', (e,)),
    'deg2rad': lambda e: X.mul(e, X.mul(X.PI, X.const(Fraction(1, 180)))),
    'radians': lambda e: X.mul(e, X.mul(X.PI, X.const(Fraction(1, 180)))),
}
BOOL_OUT = {'logical_not', 'isnan', 'isfinite', 'isinf', 'greater', 'less',
            'greater_equal', 'less_equal', 'equal', 'not_equal', 'logical_and',
            'logical_or', 'logical_xor', 'isclose'}


def _tb(e):
  """Numeric to boolean 0/1."""
  if all(a.boolean for a in e.atoms()):
    return e
  return X.lnot(X.eq0(e))


BINARY = {
    'add': 'add', 'subtract': 'sub', 'multiply': 'mul', 'divide': 'truediv',
    'true_divide': 'truediv', 'floor_divide': 'floordiv', 'mod': 'mod',
    'remainder': 'mod', 'power': 'pow', 'float_power': 'pow',
    'bitwise_and': 'and', 'bitwise_or': 'or', 'bitwise_xor': 'xor',
}
CMP = {'greater': 'gt', 'less': 'lt', 'greater_equal': 'ge',
       'less_equal': 'le', 'equal': 'eq', 'not_equal': 'ne'}
BIN_E = {
    'maximum': X.maximum, 'minimum': X.minimum, 'fmax': X.maximum,
    'fmin': X.minimum,
    'logical_and': lambda a, b: X.land(_tb(a), _tb(b)),
    'logical_or': lambda a, b: X.lor(_tb(a), _tb(b)),
    'logical_xor': lambda a, b: X.where(_tb(a), X.lnot(_tb(b)), _tb(b)),
    'arctan2': lambda a, b: X.apply_op('arctan2', (a, b)),
    'hypot': lambda a, b: X.power(X.add(X.mul(a, a), X.mul(b, b)),
                                  Fraction(1, 2)),
}


def conv(v):
  if isinstance(v, bool):
    return int(v)
  if isinstance(v, (list, tuple, range)):
    return M.to_arr(v)
  if isinstance(v, (int, Fraction, float, Expr, Arr)):
    return v
  if isinstance(v, np.ndarray):
    return v
  if v is None or isinstance(v, (str, dict)):
    raise_py('TypeError', f'array function on {v!r}')
  if isinstance(v, (M.TMVec,)):
    raise_py('TypeError', 'array function on a tree_math.Vector')
  raise Undecided(f'array function on {v!r}')


def _un(name, f):
  def g(ip, a, kw):
    v = conv(a[0])
    if isinstance(v, np.ndarray):
      return nd_map(v, lambda x: call(ip, name, [x], {}, True))
    if isinstance(v, float):
      v2 = {'abs': abs, 'absolute': abs, 'negative': lambda x: -x}.get(name)
      if v2:
        return v2(v)
    dt = v.dtype if isinstance(v, Arr) else None
    if name in ('real', 'imag', 'abs', 'absolute'):
      dt = None
    if name in BOOL_OUT:
      dt = 'bool'
    return M.pk(A.unary(f, v if isinstance(v, Arr) else A.lift(v), dt))
  F[name] = g
  UFUNCS.add(name)


for _n, _f in UNARY.items():
  _un(_n, _f)


@np_def('divmod')
def _divmod(ip, a, kw):
  q = ip.binop('floordiv', conv(a[0]), conv(a[1]))
  return (q, ip.binop('mod', conv(a[0]), conv(a[1])))


@np_def('modf')
def _modf(ip, a, kw):
  t = F['trunc'](ip, a, kw)
  return (ip.binop('sub', conv(a[0]), t), t)


UFUNCS.update(('divmod', 'modf'))
UFUNC_METHODS = ('reduce', 'accumulate', 'outer', 'reduceat', 'at')


def _bin(name, op):
  def g(ip, a, kw):
    if len(a) < 2:
      raise_py('TypeError', f'{name} takes two arrays')
    return ip.binop(op, conv(a[0]), conv(a[1]))
  F[name] = g
  UFUNCS.add(name)


for _n, _o in BINARY.items():
  _bin(_n, _o)


def _cmpf(name, op):
  F[name] = lambda ip, a, kw: ip.compare(op, conv(a[0]), conv(a[1]))
  UFUNCS.add(name)


for _n, _o in CMP.items():
  _cmpf(_n, _o)


def _bine(name, f):
  def g(ip, a, kw):
    x, y = conv(a[0]), conv(a[1])
    if name in ('maximum', 'minimum', 'fmax', 'fmin') and (
        isinstance(x, float) or isinstance(y, float)):
      # one argument is +-inf
      if not isinstance(x, float):
        x, y = y, x
      big = x > 0
      if name in ('maximum', 'fmax'):
        return x if big else y
      return y if big else x
    return M.pk(A.ewise(f, A.lift(x) if not isinstance(x, Arr) else x,
                        A.lift(y) if not isinstance(y, Arr) else y,
                        dtype='bool' if name in BOOL_OUT else None))
  F[name] = g
  UFUNCS.add(name)


for _n, _f in BIN_E.items():
  _bine(_n, _f)
F['matmul'] = lambda ip, a, kw: matmul(ip, a[0], a[1])
UFUNCS.add('matmul')


def nd_map(v, f):
  out = np.empty(v.shape, dtype=object)
  fl = out.reshape(-1)
  for i, x in enumerate(v.ravel().tolist()):
    fl[i] = f(x)
  return fl.reshape(v.shape)


def _isnan1(e):
  if e.is_const():
    return X.ZERO
  if e == X.sym('nan'):
    return X.ONE
  return X.of_atom(X.mkatom('isnan', (e,), boolean=True))


def _isnan1(e):
  if e.is_const():
    return X.ZERO
  if e == X.sym('nan'):
    return X.ONE
  return X.of_atom(X.mkatom('isnan', (e,), boolean=True))


@np_def('isnan', 'isinf')
def _isnan(ip, a, kw):
  if M.is_num(a[0]):
    return False
  return M.pk(A.unary(_isnan1, A.lift(conv(a[0])), 'bool'))


@np_def('isfinite')
def _isfinite(ip, a, kw):
  return ip.binop('sub', 1, F['isnan'](ip, a, kw))


UFUNCS |= {'isnan', 'isfinite', 'isinf'}


@np_def('isclose')
def _isclose(ip, a, kw):
  def f(x, y):
    d = X.add(x, X.scale(y, -1))
    if d.is_const() and y.is_const():
      try:
        c = Fraction(d.const_value())
        yv = Fraction(y.const_value())
        return X.const(int(abs(c) <= Fraction(1, 10**8) +
                           Fraction(1, 10**5) * abs(yv)))
      except (TypeError, ValueError):
        pass
    return X.eq0(d)
  x, y = conv(a[0]), conv(a[1])
  if isinstance(x, float) or isinstance(y, float):
    return x == y
  r = M.pk(A.ewise(f, A.lift(x), A.lift(y), dtype='bool'))
  if isinstance(r, (Fraction, int)):
    return bool(r)
  return r


@np_def('allclose', 'array_equal', 'array_equiv')
def _allclose(ip, a, kw):
  r = _isclose(ip, a[:2], {})
  return call(ip, 'all', [r], {})


@np_def('where')
def _where(ip, a, kw):
  if len(a) == 1:
    return opq('where', a[0])
  c, x, y = (conv(v) for v in a[:3])
  if isinstance(c, (int, Fraction)):
    c = int(bool(c))
  ca = A.lift(c) if not isinstance(c, Arr) else c
  ca = A.unary(_tb, ca, 'bool')
  return M.pk(A.ewise(X.where, ca, A.lift(x) if not isinstance(x, Arr) else x,
                      A.lift(y) if not isinstance(y, Arr) else y,
                      dtype=M.res_dtype('add', x, y)))


@np_def('clip')
def _clip(ip, a, kw):
  v = a[0]
  lo = arg(a, kw, 1, 'a_min', kw.get('min'))
  hi = arg(a, kw, 2, 'a_max', kw.get('max'))
  if lo is not None:
    v = call(ip, 'maximum', [v, lo], {})
  if hi is not None:
    v = call(ip, 'minimum', [v, hi], {})
  return v


# ---------------------------------------------------------------- creation

def shape_of(v):
  if isinstance(v, (tuple, list)):
    return tuple(A.dim(M.as_int(x)) for x in v)
  if isinstance(v, Arr):
    if v.shape is None:
      return None
    return tuple(A.dim(M.as_int(x)) for x in M.iterate(None, v))
  return (A.dim(M.as_int(v)),)


def dt_name(d):
  if d is None:
    return None
  if isinstance(d, M.DType):
    return d.name if d.name in ('complex', 'bool', 'int') else None
  if isinstance(d, TypeV):
    return {'complex': 'complex', 'bool': 'bool', 'int': 'int'}.get(d.name)
  if isinstance(d, Ext):
    r = DTYPES.get(d.name)
    return r if r in ('complex', 'bool', 'int') else None
  if isinstance(d, str):
    return 'complex' if 'complex' in d else (
        'bool' if d == 'bool' else ('int' if 'int' in d else None))
  return None


def astype(a, d):
  a = A.lift(a) if not isinstance(a, Arr) else a
  n = dt_name(d)
  if n == 'int':
    if a.dtype == 'bool':
      return M.pk(Arr(a.shape, a.br, a.cells, None))
    return M.pk(A.unary(_trunc, a, None))
  if n == 'bool':
    return M.pk(A.unary(_tb, a, 'bool'))
  if n == 'complex':
    return M.pk(Arr(a.shape, a.br, a.cells, 'complex'))
  if a.dtype == 'complex' and n is None and d is not None and (
      isinstance(d, (Ext, TypeV)) or (isinstance(d, M.DType)
                                      and d.name == 'float')):
    return M.pk(A.unary(X.real, a, None))
  return M.pk(Arr(a.shape, a.br, a.cells,
                  None if a.dtype == 'bool' else a.dtype))


def _trunc(e):
  if all(at.integer or at.op in ('idx', 'bv', 'vb') for at in e.atoms()) and \
      all(Fraction(c).denominator == 1 for c in e.t.values()):
    return e
  s = X.sign_of(e)
  if s is not None and s >= 0:
    return X.floor(e)
  if s is not None and s < 0:
    return X.scale(X.floor(X.scale(e, -1)), -1)
  return X.apply_op('trunc', (e,))


def mk_full(s, e):
  if s is None:
    return Arr.opaque(e)
  return M.pk(Arr.uniform(s, X.lift(e)))


np_def('zeros', 'empty')(lambda ip, a, kw: mk_full(
    shape_of(arg(a, kw, 0, 'shape')), X.ZERO))
np_def('ones')(lambda ip, a, kw: mk_full(
    shape_of(arg(a, kw, 0, 'shape')), X.ONE))


@np_def('full')
def _full(ip, a, kw):
  s = shape_of(arg(a, kw, 0, 'shape'))
  v = arg(a, kw, 1, 'fill_value')
  if isinstance(v, float):
    return v
  v = conv(v)
  if isinstance(v, Arr) and v.shape != ():
    return A.broadcast_to(v, s)
  return mk_full(s, X.lift(M.pk(v)))


def _like(e):
  def f(ip, a, kw):
    v = conv(a[0])
    if kw.get('shape') is not None:
      return mk_full(shape_of(kw['shape']), e)
    v = A.lift(v) if not isinstance(v, Arr) else v
    if v.shape is None:
      return Arr.opaque(e)
    return mk_full(v.shape, e)
  return f


np_def('zeros_like', 'empty_like')(_like(X.ZERO))
np_def('ones_like')(_like(X.ONE))


@np_def('full_like')
def _full_like(ip, a, kw):
  v = A.lift(conv(a[0]))
  return mk_full(v.shape, X.lift(M.pk(arg(a, kw, 1, 'fill_value'))))


@np_def('array', 'asarray', 'ascontiguousarray', 'asanyarray')
def _array(ip, a, kw):
  v = a[0]
  d = arg(a, kw, 1, 'dtype')
  if isinstance(v, np.ndarray):
    return v
  if isinstance(v, Inst):
    m, _ = v.cls.lookup('__array__')
    if m is not None:
      return ip.call(m, [v], {})
    return v
  if isinstance(v, IN.GenV):
    v = list(v)
  if isinstance(v, (list, tuple)):
    def has_inst(x):
      if isinstance(x, (list, tuple)):
        return any(has_inst(y) for y in x)
      return not isinstance(x, (int, Fraction, float, Expr, Arr, bool, range,
                                np.ndarray))
    if has_inst(v):
      return M.to_nd(v)
    if any(isinstance(x, float) for x in v):
      return opq('array', v)
    if len(v) == 0:
      return Arr((0,), ((),), {(0,): X.ZERO})
    try:
      r = M.list_to_arr(v)
    except A.ShapeError as e:
      raise_py('ValueError', str(e))
  elif isinstance(v, float):
    return v
  else:
    r = conv(v)
  if d is not None:
    r = astype(r, d)
  return M.pk(r) if not isinstance(r, Arr) or r.shape == () else r


@np_def('arange')
def _arange(ip, a, kw):
  a = [x for x in a]
  if len(a) == 1:
    st, en, sp = 0, a[0], 1
  else:
    st, en = a[0], a[1]
    sp = arg(a, kw, 2, 'step', 1)
  st, en, sp = (X.lift(M.pk(x)) for x in (st, en, sp))
  n = X.mul(X.add(en, X.scale(st, -1)), X.power(sp, -1))
  n = _ceil(n)
  nd = A.dim(n)
  if isinstance(nd, int) and nd <= 0:
    return Arr((0,), ((),), {(0,): X.ZERO})
  return Arr.uniform((nd,), X.add(st, X.mul(sp, X.idx(0))))


@np_def('linspace')
def _linspace(ip, a, kw):
  st, en = X.lift(M.pk(a[0])), X.lift(M.pk(a[1]))
  n = M.as_int(arg(a, kw, 2, 'num', 50))
  endp = arg(a, kw, 3, 'endpoint', True)
  den = X.add(A.ex(n), X.const(-1)) if endp else A.ex(n)
  if isinstance(n, int) and n == 1:
    return Arr.uniform((1,), st)
  return Arr.uniform((A.dim(n),), X.add(st, X.mul(
      X.mul(X.add(en, X.scale(st, -1)), X.power(den, -1)), X.idx(0))))


@np_def('eye', 'identity')
def _eye(ip, a, kw):
  n = A.dim(M.as_int(a[0]))
  m = n if len(a) < 2 or a[1] is None else A.dim(M.as_int(a[1]))
  k = arg(a, kw, 2, 'k', 0)
  if isinstance(n, int) and isinstance(m, int):
    return A.stack([A.stack([A.lift(int(j - i == k)) for j in range(m)], 0)
                    for i in range(n)], 0)
  return Arr.uniform((n, m), X.eq0(X.add(X.add(X.idx(1), X.scale(X.idx(0), -1)),
                                         X.const(-k))))


@np_def('meshgrid')
def _meshgrid(ip, a, kw):
  xs = [M.to_arr(x) for x in a]
  if any(x.shape is None for x in xs):
    return [opq('meshgrid', i, tuple(a)) for i in range(len(a))]
  ij = kw.get('indexing', 'xy') == 'ij'
  sparse = kw.get('sparse', False)
  n = len(xs)
  xs = [x if x.ndim else A.expand_dims(x, 0) for x in xs]
  order = list(range(n))
  if not ij and n >= 2:
    order[0], order[1] = 1, 0
  shape = [None] * n
  for k, x in enumerate(xs):
    shape[order[k]] = x.shape[0]
  out = []
  for k, x in enumerate(xs):
    y = x
    for ax in range(n):
      if ax != order[k]:
        y = A.expand_dims(y, ax)
    out.append(y if sparse else A.broadcast_to(y, tuple(shape)))
  return out


# ---------------------------------------------------------------- reductions

def norm_axes(axis, nd):
  if axis is None:
    return tuple(range(nd))
  if isinstance(axis, (tuple, list)):
    return tuple(_na(M.as_int(x), nd) for x in axis)
  if isinstance(axis, range):
    return tuple(_na(x, nd) for x in axis)
  return (_na(M.as_int(axis), nd),)


def _na(x, nd):
  x = M.as_int(x)
  if not isinstance(x, int):
    raise Undecided('abstract axis')
  if x >= nd or x < -nd:
    raise_py('ValueError', f'axis {x} is out of bounds')
  return x % nd


def _red(name, op):
  def g(ip, a, kw):
    v = conv(a[0])
    axis = arg(a, kw, 1, 'axis')
    keep = bool(kw.get('keepdims', False))
    if isinstance(v, float):
      return v
    v = A.lift(v) if not isinstance(v, Arr) else v
    if v.shape is None:
      if v.scalar().is_const() and op in ('max', 'min'):
        return M.pk(v.scalar())
      return opq(name, v, axis, keep)
    if kw.get('where') is not None or kw.get('initial') is not None:
      return opq(name, v, axis, keep, kw)
    if op in ('all', 'any'):
      v = A.unary(_tb, v, 'bool')
    axes = norm_axes(axis, v.ndim)
    if name in ('mean', 'nanmean'):
      n = functools.reduce(X.mul, [A.ex(v.shape[k]) for k in axes], X.ONE)
      r = A.reduce_all(v, axes, 'sum', keep)
      return M.pk(A.unary(lambda e: X.mul(e, X.power(n, -1)), r, v.dtype))
    return M.pk(A.reduce_all(v, axes, op, keep))
  F[name] = g


for _n, _o in (('sum', 'sum'), ('nansum', 'sum'), ('mean', 'mean'),
               ('nanmean', 'mean'), ('max', 'max'), ('amax', 'max'),
               ('min', 'min'), ('amin', 'min'), ('prod', 'prod'),
               ('all', 'all'), ('any', 'any')):
  _red(_n, _o)


@np_def('var')
def _var(ip, a, kw):
  m = F['mean'](ip, a, {**kw, 'keepdims': True})
  d = ip.binop('sub', conv(a[0]), m)
  return F['mean'](ip, [call(ip, 'square', [call(ip, 'abs', [d], {})], {})]
                   + list(a[1:]), kw)


@np_def('std')
def _std(ip, a, kw):
  return call(ip, 'sqrt', [_var(ip, a, kw)], {})


@np_def('average')
def _average(ip, a, kw):
  w = arg(a, kw, 2, 'weights')
  if w is None:
    return F['mean'](ip, a, kw)
  axis = arg(a, kw, 1, 'axis')
  num = F['sum'](ip, [ip.binop('mul', conv(a[0]), conv(w))], {'axis': axis})
  return ip.binop('truediv', num, F['sum'](ip, [w], {'axis': axis}))


@np_def('cumsum')
def _cumsum(ip, a, kw):
  v = M.to_arr(a[0])
  if v.shape is None:
    return opq('cumsum', v)
  axis = arg(a, kw, 1, 'axis', 0 if v.ndim == 1 else None)
  if axis is None:
    raise Undecided('flattened cumsum')
  axis = _na(axis, v.ndim)
  n = v.shape[axis]
  if not isinstance(n, int):
    return opq('cumsum', v, axis)
  acc, out = None, []
  for i in range(n):
    x = A.take_index(v, axis, i)
    acc = x if acc is None else A.ewise(X.add, acc, x)
    out.append(acc)
  return A.stack(out, axis)


def _argx(name, op):
  def g(ip, a, kw):
    return opq(name, a[0], arg(a, kw, 1, 'axis'))
  F[name] = g


for _n in ('argmax', 'argmin', 'argsort', 'sort', 'median', 'quantile',
           'searchsorted', 'unique', 'nonzero', 'percentile', 'histogram'):
  _argx(_n, _n)

F['quantile'] = F['searchsorted'] = F['percentile'] = None


def _opaque_all(name):
  def g(ip, a, kw):
    return M.opaque('numpy.' + name, *a, {k: kw[k] for k in sorted(kw)})
  F[name] = g


for _n in ('quantile', 'searchsorted', 'percentile', 'interp',
           'histogram', 'unique'):
  _opaque_all(_n)


def _consts(v):
  """The elements of a constant rank-1 array, else None."""
  if v.shape is None or v.ndim != 1 or not isinstance(v.shape[0], int) or (
      v.shape[0] > 256):
    return None
  out = [X.lift(e if not isinstance(e, A.Arr) else e.scalar())
         for e in M.iterate(None, v)]
  if not all(e.is_const() for e in out):
    return None
  return [e.const_value() for e in out]


def _int_arr(xs):
  return A.stack([A.full((), X.const(int(x))) for x in xs], 0)


@np_def('searchsorted')
def _searchsorted(ip, a, kw):
  s, v = M.to_arr(arg(a, kw, 0, 'a')), M.to_arr(arg(a, kw, 1, 'v'))
  side = arg(a, kw, 2, 'side', 'left')
  xs = _consts(s)
  if xs is None or v.shape is None or arg(a, kw, 3, 'sorter') is not None or (
      side not in ('left', 'right')) or sorted(xs) != xs:
    return M.opaque('numpy.searchsorted', *a, {k: kw[k] for k in sorted(kw)})
  import bisect  # pylint: disable=import-outside-toplevel
  f = bisect.bisect_left if side == 'left' else bisect.bisect_right
  if v.ndim == 0:
    e = v.scalar()
    if e.is_const():
      return f(xs, e.const_value())
    return M.opaque('numpy.searchsorted', *a, {k: kw[k] for k in sorted(kw)})
  qs = _consts(v)
  if not qs:
    return M.opaque('numpy.searchsorted', *a, {k: kw[k] for k in sorted(kw)})
  return _int_arr([f(xs, q) for q in qs])


@np_def('argsort')
def _argsort(ip, a, kw):
  xs = _consts(M.to_arr(a[0]))
  if not xs or len(set(xs)) != len(xs):
    return opq('argsort', a[0], arg(a, kw, 1, 'axis'))
  return _int_arr(sorted(range(len(xs)), key=lambda k: xs[k]))


@np_def('sort')
def _sort(ip, a, kw):
  xs = _consts(M.to_arr(a[0]))
  if not xs:
    return opq('sort', a[0], arg(a, kw, 1, 'axis'))
  return A.stack([A.full((), X.const(x)) for x in sorted(xs)], 0)


@np_def('convolve')
def _convolve(ip, a, kw):
  x, v = M.to_arr(arg(a, kw, 0, 'a')), M.to_arr(arg(a, kw, 1, 'v'))
  mode = arg(a, kw, 2, 'mode', 'full')
  if x.shape is None or v.shape is None or mode not in ('full', 'same', 'valid'):
    return M.opaque('numpy.convolve', x, v, mode)
  if x.ndim != 1 or v.ndim != 1:
    raise_py('ValueError', 'convolve needs rank 1')
  if X.sign_of(X.add(A.ex(v.shape[0]), X.scale(A.ex(x.shape[0]), -1))) == 1:
    x, v = v, x
  k = v.shape[0]
  if not isinstance(k, int) or k > 64:
    return M.opaque('numpy.convolve', x, v, mode)
  n = x.shape[0]
  lo, hi = {'full': (k - 1, k - 1), 'valid': (0, 0),
            'same': (k // 2, (k - 1) // 2)}[mode]
  if lo or hi:
    x = A.pad_axis(x, 0, lo, hi, 'constant')
  m = A.dim(X.add(A.ex(x.shape[0]), X.const(1 - k)))
  out = None
  for j in range(k):
    t = A.ewise(X.mul, A.slice_axis(x, 0, j, m), A.take_index(v, 0, k - 1 - j))
    out = t if out is None else A.ewise(X.add, out, t)
  return M.pk(out) if hasattr(M, 'pk') else out


from . import lib_np2  # pylint: disable=wrong-import-position
matmul = lib_np2.matmul
nd_dot = lib_np2.nd_dot
ND = lib_np2.ND
