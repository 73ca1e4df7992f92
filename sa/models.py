"""Transfer functions for Python operators and builtins (dispatch hub)."""
from fractions import Fraction
import itertools
import math

import numpy as np

from . import arr as A
from . import expr as X
from .arr import Arr
from .expr import Expr, Undecided

NUM = (int, Fraction, float)


def I():  # late import to avoid a cycle
  from . import interp
  return interp


def install(ip):
  from . import interp as _i
  global ENV
  ENV = _i
  from . import lib_py, lib_np, lib_jax
  lib_py.install(ip)


# ---------------------------------------------------------------- packing

def is_num(v):
  return isinstance(v, NUM) and not isinstance(v, bool)


def is_scalar(v):
  return isinstance(v, (int, Fraction, float, Expr))


def pk(v):
  """Arr of rank 0 -> scalar; constant Expr -> Fraction/int."""
  if isinstance(v, Arr):
    if v.shape == ():
      return pk(v.scalar())
    return v
  if isinstance(v, Expr) and v.is_const():
    c = v.const_value()
    return c
  return v


def to_arr(v):
  if isinstance(v, Arr):
    return v
  if isinstance(v, (list, tuple)):
    return list_to_arr(v)
  if isinstance(v, np.ndarray):
    return list_to_arr(v.tolist()) if v.ndim else to_arr(v.item())
  if isinstance(v, range):
    return list_to_arr(list(v))
  if isinstance(v, ENV.GenV):
    raise Undecided('array from generator')
  return A.lift(v)


def list_to_arr(v):
  if len(v) == 0:
    return Arr((0,), ((),), {(0,): X.ZERO})
  return A.stack([to_arr(x) for x in v], 0)


def as_int(v):
  if isinstance(v, bool):
    return int(v)
  if isinstance(v, int):
    return v
  if isinstance(v, Fraction):
    if v.denominator == 1:
      return int(v)
    ENV.raise_py('TypeError', 'float used as an integer')
  if isinstance(v, Expr):
    return A.dim(v)
  if isinstance(v, Arr) and v.shape == ():
    return as_int(pk(v))
  if isinstance(v, Arr) and v.shape is None:
    return v.scalar()
  if isinstance(v, (str, dict, ENV.Func, ENV.ClassV)) or (
      isinstance(v, ENV.Inst) and not v.cls.mod.stub and
      v.cls.lookup('__index__')[0] is None):
    ENV.raise_py('TypeError', f'integer expected, got {short_type(v)}')
  raise Undecided(f'integer expected, got {v!r}')


def short_type(v):
  return v.cls.name if isinstance(v, ENV.Inst) else type(v).__name__


def where3(c, a, b):
  f = lambda cc, x, y: X.where(cc, x, y)
  if all(isinstance(x, (int, Fraction, float, Expr, bool)) for x in (c, a, b)):
    cc = X.lift(c)
    return pk(X.where(cc, X.lift(a), X.lift(b)))
  return pk(A.ewise(f, c if not isinstance(c, bool) else int(c), a, b))


class DType:
  """Abstract dtype."""

  def __init__(self, name):
    self.name = name

  def __eq__(self, o):
    return isinstance(o, DType) and o.name == self.name

  def __hash__(self):
    return hash(('dtype', self.name))

  def __repr__(self):
    return f'dtype({self.name})'


# ---------------------------------------------------------------- opaque

def tokey(v):
  """Hashable structural key of an abstract value."""
  if v is None or isinstance(v, (bool, str, bytes)):
    return ('c', repr(v))
  if isinstance(v, (int, Fraction)):
    return ('n', Fraction(v))
  if isinstance(v, float):
    return ('f', repr(v))
  if isinstance(v, Expr):
    return pk(v) if False else (('n', v.const_value()) if v.is_const() else v)
  if isinstance(v, Arr):
    if v.is_uniform():
      if v.shape is None:
        return v.scalar()
      return ('arr', tuple(A.ex(d) for d in v.shape), v.scalar())
    return ('arr', tuple(A.ex(d) for d in v.shape), A.boxed(v))
  if isinstance(v, (tuple, list)):
    return (type(v).__name__,) + tuple(tokey(x) for x in v)
  if isinstance(v, dict):
    return ('dict',) + tuple((tokey(k), tokey(x)) for k, x in v.items())
  if isinstance(v, (set, frozenset)):
    return ('set',) + tuple(sorted((tokey(x) for x in v), key=repr))
  if isinstance(v, slice):
    return ('slice', tokey(v.start), tokey(v.stop), tokey(v.step))
  if isinstance(v, np.ndarray):
    return ('nd', v.shape) + tuple(tokey(x) for x in v.ravel().tolist())
  if isinstance(v, ENV.Ext):
    return ('ext', v.name)
  if isinstance(v, ENV.TypeV):
    return ('type', v.name)
  if isinstance(v, DType):
    return ('dtype', v.name)
  if isinstance(v, ENV.Inst):
    if v.cls.dc is not None:
      return ('inst', v.cls.qual) + tuple(tokey(x) for x in v._key())
    return ('inst', v.cls.qual, id(v))
  if isinstance(v, ENV.Func):
    return ('func', v.qual, id(v.node), id(v.env) if v.env is not None else 0)
  if isinstance(v, ENV.ClassV):
    return ('class', v.qual)
  if isinstance(v, ENV.Partial):
    return ('partial', tokey(v.func), tokey(tuple(v.args)), tokey(v.kwargs))
  if isinstance(v, ENV.Bound):
    return ('bound', tokey(v.func), tokey(v.self_))
  if isinstance(v, ENV.PyFn):
    return ('pyfn', v.name, id(v))
  if isinstance(v, TMVec):
    return ('tmvec', tokey(v.tree))
  if v is Ellipsis:
    return ('ellipsis',)
  return ('obj', type(v).__name__, id(v))


def opaque(name, *args, real=True, pos=False, dtype=None):
  return Arr.opaque(X.of_atom(X.mkatom(
      'call', (name,) + tuple(tokey(a) for a in args), real=real, pos=pos)),
                    dtype)


def opaque_call(ip, name, args, kwargs):
  ip.unmodelled[name] = ip.unmodelled.get(name, 0) + 1
  a = list(args)
  if kwargs:
    a.append({k: kwargs[k] for k in sorted(kwargs)})
  return opaque(name, *a)


# ---------------------------------------------------------------- tree_math

class TMVec:
  """tree_math.Vector: elementwise arithmetic over a pytree."""

  def __init__(self, tree):
    self.tree = tree

  def __repr__(self):
    return f'Vector({self.tree!r})'


def tm_bin(ip, op, a, b):
  from . import lib_jax as J
  ta = a.tree if isinstance(a, TMVec) else None
  tb = b.tree if isinstance(b, TMVec) else None
  if ta is not None and tb is not None:
    la, da = J.tree_flatten(ip, ta)
    lb, db = J.tree_flatten(ip, tb)
    if da != db:
      ENV.raise_py('ValueError', f'arguments have different tree structures')
    return TMVec(J.tree_unflatten(ip, da, [
        binop(ip, op, x, y) for x, y in zip(la, lb)]))
  o = b if ta is not None else a
  if not is_scalar(o) and not (isinstance(o, Arr) and o.shape in ((), None)):
    ENV.raise_py('TypeError', 'tree_math.Vector arithmetic needs a scalar')
  if ta is not None:
    la, da = J.tree_flatten(ip, ta)
    return TMVec(J.tree_unflatten(ip, da, [binop(ip, op, x, b) for x in la]))
  lb, db = J.tree_flatten(ip, tb)
  return TMVec(J.tree_unflatten(ip, db, [binop(ip, op, a, y) for y in lb]))


# ---------------------------------------------------------------- operators

def _num2(op, a, b):
  a0, b0 = a, b
  if isinstance(a, bool):
    a = int(a)
  if isinstance(b, bool):
    b = int(b)
  flt = isinstance(a, float) or isinstance(b, float)
  try:
    if op == 'add':
      return a + b
    if op == 'sub':
      return a - b
    if op == 'mul':
      return a * b
    if op == 'truediv':
      if flt:
        return float(a) / float(b)
      return Fraction(a) / Fraction(b)
    if op == 'floordiv':
      r = a // b
      return r if isinstance(a, int) and isinstance(b, int) else (
          r if flt else Fraction(r))
    if op == 'mod':
      return a % b
    if op == 'pow':
      if flt:
        return a ** b
      if isinstance(b, int) or b.denominator == 1:
        b = int(b)
        if isinstance(a, int) and b >= 0:
          return a ** b
        return Fraction(a) ** b
      return pk(X.power(X.const(a), b))
    if op == 'lshift':
      return a << b
    if op == 'rshift':
      return a >> b
    if op in ('and', 'or', 'xor'):
      if isinstance(a0, bool) and isinstance(b0, bool):
        return {'and': a0 and b0, 'or': a0 or b0, 'xor': a0 != b0}[op]
      return {'and': a & b, 'or': a | b, 'xor': a ^ b}[op]
  except ZeroDivisionError:
    ENV.raise_py('ZeroDivisionError', 'division by zero')
  except TypeError:
    pass
  raise Undecided(f'operator {op} on numbers {a} {b}')


def _boolish(x):
  return isinstance(x, bool) or (isinstance(x, Arr) and x.dtype == 'bool') or (
      isinstance(x, Expr) and all(a.boolean for a in x.atoms()))


def expr_op(op):
  if op == 'add':
    return X.add
  if op == 'sub':
    return lambda a, b: X.add(a, X.scale(b, -1))
  if op == 'mul':
    return X.mul
  if op == 'truediv':
    return lambda a, b: X.mul(a, X.power(b, -1))
  if op == 'pow':
    return X._powsym
  if op == 'floordiv':
    return lambda a, b: X.floor(X.mul(a, X.power(b, -1)))
  if op == 'mod':
    return lambda a, b: X.add(a, X.scale(X.mul(b, X.floor(
        X.mul(a, X.power(b, -1)))), -1))
  if op == 'and':
    return X.land
  if op == 'or':
    return X.lor
  if op == 'xor':
    return lambda a, b: X.add(X.add(a, b), X.scale(X.mul(a, b), -2))
  raise Undecided(f'operator {op}')


def res_dtype(op, a, b):
  da = getattr(a, 'dtype', None)
  db = getattr(b, 'dtype', None)
  if 'complex' in (da, db):
    return 'complex'
  if op in ('and', 'or', 'xor') and da == 'bool':
    return 'bool'
  for x in (a, b):
    if isinstance(x, Expr) and not x.is_real():
      return 'complex'
  return None


def arr_bin(ip, op, a, b):
  if isinstance(a, (list, tuple, np.ndarray)):
    a = to_arr(a)
  if isinstance(b, (list, tuple, np.ndarray)):
    b = to_arr(b)
  if op == 'matmul':
    from . import lib_np
    return lib_np.matmul(ip, a, b)
  if a is None or b is None:
    ENV.raise_py('TypeError', f'unsupported operand None for {op}')
  for x in (a, b):
    if not isinstance(x, (Arr, int, Fraction, float, Expr, bool)):
      if isinstance(x, (str, dict, DType, ENV.Func, ENV.Bound, ENV.PyFn)):
        ENV.raise_py('TypeError', f'unsupported operand for {op}')
      raise Undecided(f'operator {op} on {x!r}')
  if not isinstance(a, Arr) and not isinstance(b, Arr):
    return pk(expr_op(op)(X.lift(a), X.lift(b)))
  try:
    return pk(A.ewise(expr_op(op), a, b, dtype=res_dtype(op, a, b)))
  except A.ShapeError as e:
    ENV.raise_py('ValueError', str(e))


def binop(ip, op, a, b):
  if isinstance(a, ENV.Phi):
    return ip.ite(a.c, binop(ip, op, a.a, b), binop(ip, op, a.b, b))
  if isinstance(b, ENV.Phi):
    return ip.ite(b.c, binop(ip, op, a, b.a), binop(ip, op, a, b.b))
  if isinstance(a, NUM) and isinstance(b, NUM):
    return _num2(op, a, b)
  if isinstance(a, ENV.Inst) or isinstance(b, ENV.Inst):
    return inst_bin(ip, op, a, b)
  if isinstance(a, TMVec) or isinstance(b, TMVec):
    return tm_bin(ip, op, a, b)
  if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
    return nd_bin(ip, op, a, b)
  if isinstance(a, str) and op == 'mod':
    try:
      return a % (tuple(plain(x) for x in b) if isinstance(b, tuple)
                  else plain(b))
    except (TypeError, ValueError, KeyError):
      return a
  if isinstance(a, str) or isinstance(b, str):
    if op == 'add' and isinstance(a, str) and isinstance(b, str):
      return a + b
    if op == 'mul':
      return a * b
    if isinstance(a, Arr) or isinstance(b, Arr):
      return opaque_call(ip, op, [a, b], {})
    ENV.raise_py('TypeError', f'unsupported operands for {op}')
  if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
    if op == 'add':
      if type(a) is not type(b):
        ENV.raise_py('TypeError', 'can only concatenate same sequence types')
      return a + b
  if op == 'mul' and isinstance(a, (tuple, list)) and isinstance(
      b, (int, Fraction, Expr)):
    n = as_int(b)
    if not isinstance(n, int):
      raise Undecided('sequence repeated symbolically often')
    return a * n
  if op == 'mul' and isinstance(b, (tuple, list)) and isinstance(
      a, (int, Fraction, Expr)):
    return binop(ip, op, b, a)
  if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
    return {'or': a | b, 'and': a & b, 'sub': a - b, 'xor': a ^ b}[op]
  if isinstance(a, dict) and isinstance(b, dict) and op == 'or':
    return {**a, **b}
  if op == 'or' and isinstance(a, (ENV.TypeV, ENV.ClassV, ENV.Ext)):
    return ENV.Ext('typing.Union')
  if isinstance(a, ENV.Ext) or isinstance(b, ENV.Ext):
    return opaque_call(ip, op, [a, b], {})
  return arr_bin(ip, op, a, b)


_REFL = {'add': 'radd', 'sub': 'rsub', 'mul': 'rmul', 'truediv': 'rtruediv',
         'floordiv': 'rfloordiv', 'mod': 'rmod', 'pow': 'rpow',
         'matmul': 'rmatmul', 'and': 'rand', 'or': 'ror', 'xor': 'rxor'}


def has_mixin(v):
  return isinstance(v, ENV.Inst) and any(
      isinstance(c, ENV.Ext) and c.name.endswith('NDArrayOperatorsMixin')
      for c in v.cls.mro())


def call_ufunc_protocol(ip, ufname, inputs, kwargs=None, method='__call__'):
  """numpy ufunc dispatch through __array_ufunc__."""
  for v in inputs:
    if isinstance(v, ENV.Inst):
      m, _ = v.cls.lookup('__array_ufunc__')
      if m is not None:
        r = ip.call(m, [v, ENV.Ext('numpy.' + ufname), method] + list(inputs),
                    dict(kwargs or {}))
        if r is not NotImplemented:
          return r
  ENV.raise_py('TypeError', f'ufunc {ufname} not supported for the inputs')


def inst_bin(ip, op, a, b):
  for x, y, nm in ((a, b, f'__{op}__'), (b, a, f'__{_REFL.get(op, op)}__')):
    if isinstance(x, ENV.Inst):
      m, _ = x.cls.lookup(nm)
      if m is not None:
        r = ip.call(m, [x, y], {})
        if r is not NotImplemented:
          return r
  if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
    return nd_bin(ip, op, a, b)
  if has_mixin(a) or has_mixin(b):
    return call_ufunc_protocol(ip, ENV._UFUNC[op], [a, b])
  ENV.raise_py('TypeError', f'unsupported operand types for {op}: '
               f'{tyname(a)} and {tyname(b)}')


def tyname(v):
  return v.cls.name if isinstance(v, ENV.Inst) else type(v).__name__


def nd_bin(ip, op, a, b):
  if op == 'matmul' or op == 'dot':
    from . import lib_np
    return lib_np.nd_dot(ip, a, b)
  if not isinstance(a, np.ndarray):
    if isinstance(a, (list, tuple)):
      a = to_nd(a)
    else:
      a = box(a)
  if not isinstance(b, np.ndarray):
    if isinstance(b, (list, tuple)):
      b = to_nd(b)
    else:
      b = box(b)
  bb = np.broadcast(a, b)
  out = np.empty(bb.shape, dtype=object)
  res = [binop(ip, op, x, y) if op in _REFL else compare(ip, op, x, y)
         for x, y in bb]
  flat = out.reshape(-1)
  for i, r in enumerate(res):
    flat[i] = r
  out = flat.reshape(bb.shape)
  if out.ndim == 0:
    return out.item()
  return out


def box(v):
  r = np.empty((), dtype=object)
  r[()] = v
  return r


def to_nd(v):
  """Nested lists of arbitrary values to an object ndarray."""
  def shp(x):
    if isinstance(x, np.ndarray):
      return x.shape
    if isinstance(x, (list, tuple)):
      if not x:
        return (0,)
      s = shp(x[0])
      return (len(x),) + s
    return ()
  s = shp(v)
  out = np.empty(s, dtype=object)

  def fill(x, ix):
    if len(ix) == len(s):
      out[ix] = x
      return
    items = list(x)
    if len(items) != s[len(ix)]:
      raise Undecided('ragged object array')
    for k, y in enumerate(items):
      fill(y, ix + (k,))
  fill(v, ())
  return out


def unaryop(ip, op, a):
  if isinstance(a, ENV.Phi):
    return ip.ite(a.c, unaryop(ip, op, a.a), unaryop(ip, op, a.b))
  if isinstance(a, ENV.Inst):
    m, _ = a.cls.lookup(f'__{op}__')
    if m is not None:
      return ip.call(m, [a], {})
    if has_mixin(a):
      return call_ufunc_protocol(ip, ENV._UFUNC[op], [a])
    ENV.raise_py('TypeError', f'bad operand for unary {op}')
  if isinstance(a, TMVec):
    from . import lib_jax as J
    la, da = J.tree_flatten(ip, a.tree)
    return TMVec(J.tree_unflatten(ip, da, [unaryop(ip, op, x) for x in la]))
  if isinstance(a, np.ndarray):
    out = np.empty(a.shape, dtype=object)
    f = out.reshape(-1)
    for i, x in enumerate(a.ravel().tolist()):
      f[i] = unaryop(ip, op, x)
    return f.reshape(a.shape)
  if isinstance(a, bool):
    if op == 'invert':
      return ~int(a)
    a = int(a)
  if isinstance(a, NUM):
    return {'neg': lambda: -a, 'pos': lambda: a, 'abs': lambda: abs(a),
            'invert': lambda: ~as_int(a)}[op]()
  if isinstance(a, (Expr, Arr)):
    f = {'neg': lambda e: X.scale(e, -1), 'pos': lambda e: e,
         'abs': X.absolute, 'invert': X.lnot}[op]
    if isinstance(a, Expr):
      return pk(f(a))
    return pk(A.unary(f, a, a.dtype if op != 'abs' or a.dtype != 'complex'
                      else None))
  if isinstance(a, ENV.Ext):
    return opaque_call(ip, op, [a], {})
  ENV.raise_py('TypeError', f'bad operand for unary {op}')


# ---------------------------------------------------------------- comparison

def cmp_expr(op, a, b):
  d = X.add(a, X.scale(b, -1))
  if op == 'gt':
    return X.gt0(d)
  if op == 'lt':
    return X.gt0(X.scale(d, -1))
  if op == 'ge':
    return X.lnot(X.gt0(X.scale(d, -1)))
  if op == 'le':
    return X.lnot(X.gt0(d))
  if op == 'eq':
    return X.eq0(d)
  if op == 'ne':
    return X.lnot(X.eq0(d))
  raise Undecided(op)


def cond(e):
  """0-1 Expr to Python bool where constant."""
  if isinstance(e, Expr) and e.is_const():
    return e.const_value() != 0
  return e


def pyeq(ip, a, b):
  """Python == restricted to True/False."""
  if isinstance(a, (Expr, Arr)) or isinstance(b, (Expr, Arr)):
    if is_scalar(a) and is_scalar(b):
      r = cond(cmp_expr('eq', X.lift(a), X.lift(b)))
      return r
    return a == b
  if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
    if type(a) is not type(b):
      return False
    if len(a) != len(b):
      return False
    acc = True
    for x, y in zip(a, b):
      r = pyeq(ip, x, y)
      if r is False:
        return False
      if r is not True:
        acc = r if acc is True else X.land(acc, r)
    return acc
  r = (a == b)
  if r is NotImplemented:
    return a is b
  return bool(r) if isinstance(r, (bool, np.bool_)) else r


def contains(ip, x, coll):
  if isinstance(coll, str):
    return x in coll
  if isinstance(coll, (dict, set, frozenset)):
    ENV.hash_value(x)
    return x in coll
  if isinstance(coll, ENV.Inst):
    m, _ = coll.cls.lookup('__contains__')
    if m is not None:
      return ip.call(m, [coll, x], {})
  if isinstance(coll, Arr) and coll.shape is None:
    return X.of_atom(X.mkatom('truth', (opaque('contains', coll, x).scalar(),),
                              boolean=True))
  if isinstance(coll, range):
    coll = list(coll)
  if isinstance(coll, Arr):
    coll = list(iterate(ip, coll))
  acc = False
  for y in iterate(ip, coll):
    if x is y:
      return True
    if x is None or y is None:
      continue
    r = pyeq(ip, x, y)
    if r is True:
      return True
    if isinstance(r, Expr):
      acc = r if acc is False else X.lor(acc, r)
  return acc


def plain(x):
  if isinstance(x, Fraction):
    return int(x) if x.denominator == 1 else float(x)
  return x


def compare(ip, op, a, b):
  if op == 'is' or op == 'isnot':
    r = (a is b) or (isinstance(a, ENV.Ext) and a == b) or (
        isinstance(a, (str, int)) and type(a) is type(b) and a == b)
    if isinstance(a, ENV.Phi) or isinstance(b, ENV.Phi):
      p, q = (a, b) if isinstance(a, ENV.Phi) else (b, a)
      return ip.ite(p.c, compare(ip, op, p.a, q), compare(ip, op, p.b, q))
    return r if op == 'is' else not r
  if op in ('in', 'notin'):
    r = contains(ip, a, b)
    if op == 'notin':
      return (not r) if isinstance(r, bool) else X.lnot(r)
    return r
  if isinstance(a, ENV.Phi):
    return ip.ite(a.c, compare(ip, op, a.a, b), compare(ip, op, a.b, b))
  if isinstance(b, ENV.Phi):
    return ip.ite(b.c, compare(ip, op, a, b.a), compare(ip, op, a, b.b))
  if is_scalar(a) and is_scalar(b):
    if isinstance(a, NUM) and isinstance(b, NUM):
      return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b,
              'gt': a > b, 'ge': a >= b}[op]
    return cond(cmp_expr(op, X.lift(a), X.lift(b)))
  if isinstance(a, ENV.Inst) or isinstance(b, ENV.Inst):
    if has_mixin(a) or has_mixin(b):
      d = next(x for x in (a, b) if has_mixin(x))
      nm = f'__{op}__'
      m, _ = d.cls.lookup(nm)
      # dataclass-generated __eq__ precedes the mixin's
      if m is None and not (op in ('eq', 'ne') and d.cls.dc is not None):
        return call_ufunc_protocol(ip, ENV._UFUNC[op], [a, b])
    if op in ('eq', 'ne'):
      for x, y in ((a, b), (b, a)):
        m = x.cls.lookup('__eq__')[0] if isinstance(x, ENV.Inst) and \
            not isinstance(y, ENV.Inst) else None
        if isinstance(m, ENV.Func):
          r = ip.call(m, [x, y], {})
          if r is not NotImplemented:
            return r if op == 'eq' else not bool(r)
      r = bool(a == b)
      return r if op == 'eq' else not r
    d = a.cls.dc if isinstance(a, ENV.Inst) else None
    if d and d.get('order') and isinstance(b, ENV.Inst) and b.cls is a.cls:
      p, q = a._key(), b._key()
      return {'lt': p < q, 'le': p <= q, 'gt': p > q, 'ge': p >= q}[op]
    x = a if isinstance(a, ENV.Inst) else b
    nm = f'__{op}__' if x is a else f'__{ENV._SWAP[op]}__'
    m, _ = x.cls.lookup(nm)
    if m is not None:
      return ip.call(m, [x, b if x is a else a], {})
    ENV.raise_py('TypeError', f'{op} not supported')
  if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
    return nd_bin(ip, op, a, b)
  if isinstance(a, Arr) or isinstance(b, Arr):
    if op in ('eq', 'ne') and (a is None or b is None or isinstance(
        a, (str, DType)) or isinstance(b, (str, DType))):
      x = a if isinstance(a, Arr) else b
      if x.shape is None:
        e = X.of_atom(X.mkatom('truth', (opaque('eq', a, b).scalar(),),
                               boolean=True))
        return e if op == 'eq' else X.lnot(e)
      return op == 'ne'
    if isinstance(a, (list, tuple)):
      a = to_arr(a)
    if isinstance(b, (list, tuple)):
      b = to_arr(b)
    r = A.ewise(lambda x, y: cmp_expr(op, x, y), a, b, dtype='bool')
    r = pk(r)
    if isinstance(r, (Fraction, Expr)):
      return cond(X.lift(r))
    return r
  if op == 'eq' or op == 'ne':
    r = pyeq(ip, a, b)
    if isinstance(r, bool):
      return r if op == 'eq' else not r
    return r if op == 'eq' else X.lnot(r)
  if isinstance(a, (str,)) and isinstance(b, str):
    return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[op]
  if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
    for x, y in zip(a, b):
      e = pyeq(ip, x, y)
      if e is True:
        continue
      if e is not False:
        raise Undecided('lexicographic comparison of abstract tuples')
      return compare(ip, op, x, y)
    return _num_cmp(op, len(a), len(b))
  if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
    return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[op]
  ENV.raise_py('TypeError', f'{op} not supported between {tyname(a)} and {tyname(b)}')


def _num_cmp(op, a, b):
  return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[op]


def truth(ip, v):
  if isinstance(v, np.ndarray):
    if v.size == 1:
      return ip.truth(v.ravel()[0])
    ENV.raise_py('ValueError', 'truth value of an array')
  if isinstance(v, (DType, TMVec)):
    return True
  if v is NotImplemented or v is Ellipsis:
    return True
  if isinstance(v, ENV.ExcV):
    return True
  raise Undecided(f'truth of {v!r}')


# ---------------------------------------------------------------- iteration

def iterate(ip, v):
  if isinstance(v, (list, tuple, range)):
    return list(v)
  if isinstance(v, str):
    return list(v)
  if isinstance(v, dict):
    return list(v.keys())
  if isinstance(v, (set, frozenset)):
    return sorted(v, key=repr)
  if isinstance(v, ENV.GenV):
    return v
  if isinstance(v, Arr):
    if v.shape is None:
      raise Undecided(f'iteration over an opaque value {v!r}')
    if not v.shape:
      ENV.raise_py('TypeError', 'iteration over a 0-d array')
    n = v.shape[0]
    if not isinstance(n, int):
      raise Undecided('iteration over an axis of symbolic size')
    return [pk(A.take_index(v, 0, i)) for i in range(n)]
  if isinstance(v, np.ndarray):
    return [x for x in v]
  if isinstance(v, ENV.Inst):
    m, _ = v.cls.lookup('__iter__')
    if m is not None:
      return iterate(ip, ip.call(m, [v], {}))
    m, _ = v.cls.lookup('__len__')
    if m is not None and v.cls.lookup('__getitem__')[0] is not None:
      n = ip.call(m, [v], {})
      return [ip.getitem(v, i) for i in range(n)]
    if '__tuple__' in v.attrs:
      return list(v.attrs['__tuple__'])
    ENV.raise_py('TypeError', f'{v.cls.name} is not iterable')
  if isinstance(v, ENV.ClassV) and v.ns.get('__enum__'):
    return v.ns['__members__']
  if isinstance(v, ENV.Phi):
    a, b = list(iterate(ip, v.a)), list(iterate(ip, v.b))
    if len(a) == len(b):
      return [ip.ite(v.c, x, y) for x, y in zip(a, b)]
    raise Undecided('iteration over a join of different lengths')
  if v is None or isinstance(v, NUM):
    ENV.raise_py('TypeError', f'{tyname(v)} is not iterable')
  if isinstance(v, (Expr,)):
    ENV.raise_py('TypeError', 'number is not iterable')
  if hasattr(v, 'sa_iter'):
    return v.sa_iter(ip)
  raise Undecided(f'iteration over {v!r}')


# ---------------------------------------------------------------- indexing

def getitem(ip, v, k):
  if isinstance(v, (tuple, list)):
    if isinstance(k, slice):
      return v[_pyslice(k)]
    i = as_int(k) if not isinstance(k, tuple) else None
    if i is None:
      ENV.raise_py('TypeError', 'sequence indices must be integers')
    if not isinstance(i, int):
      raise Undecided('sequence indexed by an abstract integer')
    if i >= len(v) or i < -len(v):
      ENV.raise_py('IndexError', 'index out of range')
    return v[i]
  if isinstance(v, str):
    return v[_pyslice(k)] if isinstance(k, slice) else v[as_int(k)]
  if isinstance(v, range):
    return v[_pyslice(k)] if isinstance(k, slice) else v[as_int(k)]
  if isinstance(v, dict):
    ENV.hash_value(k)
    if k not in v:
      if isinstance(v, DefaultDict):
        v[k] = ip.call(v.factory, [], {})
        return v[k]
      ENV.raise_py('KeyError', repr(k))
    return v[k]
  if isinstance(v, Arr):
    return pk(index(v, k))
  if isinstance(v, np.ndarray):
    if isinstance(k, tuple):
      k = tuple(_pyslice(x) if isinstance(x, slice) else
                (x if x is None or x is Ellipsis else as_int(x)) for x in k)
    elif isinstance(k, slice):
      k = _pyslice(k)
    elif k is not None and k is not Ellipsis:
      k = as_int(k)
    return v[k]
  if isinstance(v, ENV.Inst):
    m, _ = v.cls.lookup('__getitem__')
    if m is not None:
      return ip.call(m, [v, k], {})
    if '__tuple__' in v.attrs:
      return v.attrs['__tuple__'][as_int(k)]
    ENV.raise_py('TypeError', f'{v.cls.name} is not subscriptable')
  if isinstance(v, (ENV.TypeV, ENV.ClassV)):
    if isinstance(v, ENV.ClassV) and v.ns.get('__enum__'):
      return v.ns[k]
    return v
  if isinstance(v, ENV.Ext):
    if v.name.startswith('typing.') or v.name.startswith('collections.abc'):
      return v
    return opaque_call(ip, 'getitem', [v, k], {})
  if isinstance(v, ENV.Phi):
    return ip.ite(v.c, getitem(ip, v.a, k), getitem(ip, v.b, k))
  if isinstance(v, (Expr, int, Fraction)):
    if k is Ellipsis or k == () or k is None or (
        isinstance(k, tuple) and all(x is None or x is Ellipsis for x in k)):
      return pk(index(A.lift(v), k))
    ENV.raise_py('TypeError', 'scalar is not subscriptable')
  if v is None:
    ENV.raise_py('TypeError', 'None is not subscriptable')
  if hasattr(v, 'sa_getitem'):
    return v.sa_getitem(ip, k)
  raise Undecided(f'subscript of {v!r}')


class DefaultDict(dict):
  factory = None


def _pyslice(s):
  f = lambda x: None if x is None else as_int(x)
  return slice(f(s.start), f(s.stop), f(s.step))


def norm_slice(s, n):
  """(start, length, step) of slice s on an axis of size n."""
  step = 1 if s.step is None else as_int(s.step)
  if not isinstance(step, int):
    raise Undecided('symbolic slice step')

  def fix(x, default):
    if x is None:
      return default
    x = as_int(x)
    sg = X.sign_of(A.ex(x))
    if sg is None:
      raise Undecided(f'slice bound {x} of unknown sign')
    if sg < 0:
      x = A.dim(X.add(A.ex(n), A.ex(x)))
      sg2 = X.sign_of(A.ex(x))
      if sg2 is None:
        raise Undecided('slice bound')
      if sg2 < 0:
        x = 0 if step > 0 else -1
    elif A.cmp_dim(x, n) > 0:
      x = n
    return x
  if step > 0:
    a, b = fix(s.start, 0), fix(s.stop, n)
    ln = X.add(A.ex(b), X.scale(A.ex(a), -1))
    if A.cmp_dim(A.dim(ln), 0) <= 0:
      return 0, 0, 1
    ln = A._ceil_div(ln, step) if step != 1 else ln
    return a, A.dim(ln), step
  last = A.dim(X.add(A.ex(n), X.const(-1)))
  a = last if s.start is None else fix(s.start, last)
  if s.start is not None and A.cmp_dim(a, n) >= 0:
    a = last
  b = -1 if s.stop is None else fix(s.stop, -1)
  ln = X.add(A.ex(a), X.scale(A.ex(b), -1))
  if A.cmp_dim(A.dim(ln), 0) <= 0:
    return 0, 0, 1
  return a, A.dim(A._ceil_div(ln, -step)), step


def index(a, k):
  """numpy basic + simple advanced indexing."""
  ks = list(k) if isinstance(k, tuple) else [k]
  if a.shape is None:
    return opaque('getitem', a, k)
  r = _mask_index(a, ks)
  if r is not None:
    return r
  n_real = sum(1 for x in ks if x is not None and x is not Ellipsis)
  if Ellipsis in [x for x in ks if not isinstance(x, (Arr, np.ndarray, list))]:
    i = [n for n, x in enumerate(ks)
         if not isinstance(x, (Arr, np.ndarray, list)) and x is Ellipsis][0]
    ks[i:i + 1] = [slice(None)] * (a.ndim - n_real)
  else:
    ks += [slice(None)] * (a.ndim - n_real)
  if n_real > a.ndim:
    ENV.raise_py('IndexError', 'too many indices for array')
  adv = [x for x in ks if isinstance(x, (list, np.ndarray)) or (
      isinstance(x, Arr) and x.shape != ())]
  ax = 0
  cur = a
  if adv:
    return _adv_index(a, ks)
  for x in ks:
    if x is None:
      cur = A.expand_dims(cur, ax)
      ax += 1
    elif isinstance(x, slice):
      st, ln, sp = norm_slice(x, cur.shape[ax])
      cur = A.slice_axis(cur, ax, st, ln, sp)
      ax += 1
    else:
      i = as_int(x)
      sg = X.sign_of(A.ex(i)) if not isinstance(i, int) else (
          (i > 0) - (i < 0))
      if not isinstance(i, int) and sg is None and not any(
          at.op in ('vb', 'idx', 'bv') or at.nonneg or at.integer
          for at in A.ex(i).atoms()):
        raise Undecided('index of unknown sign')
      if not isinstance(i, int) and sg is not None and sg < 0:
        i = A.dim(X.add(A.ex(cur.shape[ax]), A.ex(i)))
      cur = A.take_index(cur, ax, i)
  return cur


def _mask_index(a, ks):
  """a[..., mask] for one boolean mask of known entries."""
  at = [n for n, x in enumerate(ks) if isinstance(x, Arr) and x.dtype == 'bool'
        and x.shape and all(isinstance(d, int) for d in x.shape)]
  if len(at) != 1 or any(
      x is None or isinstance(x, (list, np.ndarray)) or
      (isinstance(x, Arr) and x.shape != ()) for n, x in enumerate(ks)
      if n != at[0]):
    return None
  mask = ks[at[0]]
  entries = [A.at_index(mask, ix)
             for ix in itertools.product(*map(range, mask.shape))]
  if not all(e.is_const() for e in entries):
    return None
  r = len(mask.shape)
  n_real = sum(1 for x in ks if x is not Ellipsis) - 1 + r
  if n_real > a.ndim:
    ENV.raise_py('IndexError', 'too many indices for array')
  before, after = ks[:at[0]], ks[at[0] + 1:]
  fill = [slice(None)] * (a.ndim - n_real)
  for part in (before, after):
    for i, x in enumerate(part):
      if x is Ellipsis:
        part[i:i + 1], fill = fill, []
        break
  after = after + fill
  base = index(a, tuple(before + [slice(None)] * r + after))
  ax = sum(1 for x in before if isinstance(x, slice))
  if not all(A.same_dim(base.shape[ax + k], d)
             for k, d in enumerate(mask.shape)):
    ENV.raise_py('IndexError', 'boolean index did not match indexed array')
  keep = [i for i, e in enumerate(entries) if e.const_value() != 0]
  n = len(entries)
  flat = A.reshape(base, base.shape[:ax] + (n,) + base.shape[ax + r:])
  if not keep:
    return A.full(flat.shape[:ax] + (0,) + flat.shape[ax + 1:], X.ZERO)
  return A.stack([A.take_index(flat, ax, i) for i in keep], ax)


def _scatter(a, ks, v, combine):
  """a.at[..., idx, ...].add(v) for one vector of known indices."""
  at = [n for n, x in enumerate(ks) if not isinstance(x, slice)]
  if len(at) != 1 or any(
      x != slice(None) for n, x in enumerate(ks) if n != at[0]):
    return None
  ax = at[0]
  x = ks[ax]
  if not isinstance(x, Arr):
    x = to_arr(x)
  n = a.shape[ax]
  if len(x.shape) != 1 or not isinstance(x.shape[0], int) or \
      not isinstance(n, int):
    return None
  where = [A.at_index(x, (i,)) for i in range(x.shape[0])]
  if not all(e.is_const() for e in where):
    return None
  shape = a.shape[:ax] + (len(where),) + a.shape[ax + 1:]
  v = A.broadcast_to(to_arr(v), shape)
  items = [A.take_index(a, ax, i) for i in range(n)]
  for k, e in enumerate(where):
    i = as_int(e)
    if i < -n or i >= n:
      continue  # out of bounds updates are dropped
    new = A.take_index(v, ax, k)
    items[i] = new if combine is None else A.ewise(combine, items[i], new)
  return A.stack(items, ax)


def _adv_index(a, ks):
  advs = [(n, x) for n, x in enumerate(ks)
          if isinstance(x, (list, np.ndarray)) or (
              isinstance(x, Arr) and x.shape != ())]
  if len(advs) == 1:
    n, x = advs[0]
    x = to_arr(x)
    if x.dtype == 'bool':
      return opaque('boolindex', a, x)
    # process the others first
    rest = [y for y in ks]
    pos_axis = sum(1 for y in ks[:n] if y is not None)
    out_axis = sum(1 for y in ks[:n] if y is None or isinstance(y, slice))
    rest[n] = slice(None)
    base = index(a, tuple(rest))
    out = take(base, x, out_axis)
    # integers are advanced indices too; when a slice or a new axis lies between
    # the advanced indices, their dimensions come first in the result
    where = [m for m, y in enumerate(ks) if y is not None and
             not isinstance(y, slice)]
    if len(where) > 1 and where[-1] - where[0] != len(where) - 1:
      if out.shape is None:
        return opaque('advindex', a, tuple(ks))
      r = len(x.shape)
      moved = list(range(out_axis, out_axis + r))
      order = moved + [j for j in range(len(out.shape)) if j not in moved]
      out = A.transpose(out, order)
    return out
  # several index arrays: pointwise gather when they cover consecutive axes
  idxs = [to_arr(x) for _, x in advs]
  ns = [n for n, _ in advs]
  if len(ks) == len(ns) == a.ndim:
    shape = A.broadcast_shapes([x.shape for x in idxs])
    idxs = [A.broadcast_to(x, shape) for x in idxs]
    return gather_nd(a, idxs)
  return opaque('advindex', a, tuple(ks))


def gather_nd(a, idxs):
  """a[i0, i1, ...] pointwise with affine index arrays."""
  def f(*es):
    mp = {X.mkatom('idx', (j,)).id: e for j, e in enumerate(es)}
    if len(a.cells) == 1:
      (b,) = a.cells.values()
      return X.subst(b, mp)
    key = []
    for j, e in enumerate(es):
      seg = 0
      for p in a.br[j]:
        if A.cmp_dim(p, A.dim(e)) <= 0:
          seg += 1
      key.append(seg)
    return X.subst(a.cells[tuple(key)], mp)
  return A.ewise(f, *idxs)


def take(a, x, axis):
  """Gather along an axis by an integer array x."""
  if x.shape is None:
    return opaque('take', a, x, axis)
  if len(x.shape) == 1 and isinstance(x.shape[0], int) and (
      x.shape[0] <= 64 or all(e.is_const() for e in x.cells.values())):
    vals = [X.lift(v.scalar() if isinstance(v, Arr) else v)
            for v in iterate(None, x)]
    if all(v.is_const() for v in vals):
      items = [A.take_index(a, axis, as_int(v)) for v in vals]
      if not items:
        raise Undecided('empty gather')
      return A.stack(items, axis)
  r = len(x.shape)
  shape = a.shape[:axis] + x.shape + a.shape[axis + 1:]
  if len(a.cells) != 1 or any(x.br):
    e = A.boxed(a) if len(a.cells) != 1 else a.scalar()
  else:
    e = a.scalar()
  xe = A.boxed(x) if not x.is_uniform() else x.scalar()
  xe = X.subst(xe, {X.mkatom('idx', (j,)).id: X.idx(j + axis)
                    for j in range(r)})
  mp = {X.mkatom('idx', (axis,)).id: xe}
  for j in range(axis + 1, a.ndim):
    mp[X.mkatom('idx', (j,)).id] = X.idx(j + r - 1)
  return Arr.uniform(shape, X.subst(e, mp), a.dtype)


def update(a, k, v, combine=None):
  """Functional a.at[k].set(v) / .add(v)."""
  if a.shape is None:
    return opaque('update', a, k, v)
  ks = list(k) if isinstance(k, tuple) else [k]
  n_real = sum(1 for x in ks if x is not None and x is not Ellipsis)
  if any(x is Ellipsis for x in ks):
    i = [n for n, x in enumerate(ks) if x is Ellipsis][0]
    ks[i:i + 1] = [slice(None)] * (a.ndim - n_real)
  else:
    ks += [slice(None)] * (a.ndim - n_real)
  if any(isinstance(x, (list, np.ndarray)) or (
      isinstance(x, Arr) and x.shape != ()) or x is None for x in ks):
    r = None if any(x is None for x in ks) else _scatter(a, ks, v, combine)
    return opaque('update', a, k, v) if r is None else r
  v = to_arr(v)

  def rec(cur, dims, val):
    """cur: array restricted so far; dims: remaining (axis, key)."""
    if not dims:
      val = A.broadcast_to(val, cur.shape)
      if combine is not None:
        return A.ewise(combine, cur, val)
      return val
    ax, key = dims[0]
    n = cur.shape[ax]
    if isinstance(key, slice):
      st, ln, sp = norm_slice(key, n)
      if sp != 1:
        raise Undecided('strided update')
    else:
      st = as_int(key)
      if A.cmp_dim(st, 0) < 0:
        st = A.dim(X.add(A.ex(n), A.ex(st)))
      ln = 1
    lo = A.slice_axis(cur, ax, 0, st)
    mid = A.slice_axis(cur, ax, st, ln)
    end = A.dim(X.add(A.ex(st), A.ex(ln)))
    hi_len = A.dim(X.add(A.ex(n), X.scale(A.ex(end), -1)))
    hi = A.slice_axis(cur, ax, end, hi_len)
    mid = rec(mid, dims[1:], val)
    parts = [p for p, l in ((lo, st), (mid, ln), (hi, hi_len))
             if not A.same_dim(l, 0)]
    return A.concat(parts, ax)
  # give v the full rank: insert axes for integer keys
  shape_sel = []
  for ax, key in enumerate(ks):
    if isinstance(key, slice):
      shape_sel.append(norm_slice(key, a.shape[ax])[1])
  v = A.broadcast_to(v, tuple(shape_sel))
  for ax, key in enumerate(ks):
    if not isinstance(key, slice):
      v = A.expand_dims(v, ax)
  r = rec(a, list(enumerate(ks)), v)
  return Arr(r.shape, r.br, r.cells, a.dtype)


def setitem(ip, obj, k, v, target, env):
  if isinstance(obj, list):
    if isinstance(k, slice):
      obj[_pyslice(k)] = list(iterate(ip, v))
    else:
      i = as_int(k)
      if not isinstance(i, int):
        raise Undecided('list store at an abstract index')
      if i >= len(obj) or i < -len(obj):
        ENV.raise_py('IndexError', 'assignment index out of range')
      obj[i] = v
    return
  if isinstance(obj, dict):
    ENV.hash_value(k)
    obj[k] = v
    return
  if isinstance(obj, tuple):
    ENV.raise_py('TypeError', 'tuple does not support item assignment')
  if isinstance(obj, np.ndarray):
    obj[k if not isinstance(k, slice) else _pyslice(k)] = v
    return
  if isinstance(obj, Arr):
    r = update(obj, k, v)
    ip.assign(target.value, r, env)
    return
  if isinstance(obj, ENV.Inst):
    m, _ = obj.cls.lookup('__setitem__')
    if m is not None:
      ip.call(m, [obj, k, v], {})
      return
  if obj is None or isinstance(obj, (str, int, Fraction, Expr, range,
                                     ENV.Func)):
    ENV.raise_py('TypeError', 'object does not support item assignment')
  raise Undecided(f'item assignment on {obj!r}')


# delegated to the library files -------------------------------------------

def call_ext(ip, name, args, kwargs):
  from . import lib_py
  return lib_py.call_ext(ip, name, args, kwargs)


def ext_attr(ip, v, name):
  from . import lib_py
  return lib_py.ext_attr(ip, v, name)


def value_attr(ip, v, name):
  from . import lib_py
  return lib_py.value_attr(ip, v, name)


def inst_attr(ip, v, name):
  from . import lib_py
  return lib_py.inst_attr(ip, v, name)


def class_attr(ip, v, name):
  from . import lib_py
  return lib_py.class_attr(ip, v, name)


def super_attr(ip, v, name):
  from . import lib_py
  return lib_py.super_attr(ip, v, name)


def ext_base_init(ip, cls, obj, args, kwargs):
  from . import lib_py
  return lib_py.ext_base_init(ip, cls, obj, args, kwargs)


BUILTINS = {}
BUILTIN_CONSTS = {}
TYPE_CALLS = {}


def finish_class(ip, cls):
  """Enum and NamedTuple class bodies."""
  bases = {b.name for b in cls.mro() if isinstance(b, ENV.Ext)}
  if bases & {'enum.Enum', 'enum.IntEnum', 'enum.Flag'}:
    members = []
    for k, v in list(cls.ns.items()):
      if k.startswith('_') or isinstance(v, (ENV.Func, ENV.PropertyV,
                                             ENV.ClassMethodV)):
        continue
      m = ENV.Inst(cls)
      m.attrs['name'] = k
      m.attrs['value'] = v
      cls.ns[k] = m
      members.append(m)
    cls.ns['__enum__'] = True
    cls.ns['__members__'] = members
  if 'typing.NamedTuple' in bases:
    from . import lib_std
    lib_std.make_namedtuple(ip, cls)
