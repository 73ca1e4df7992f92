"""Models of builtins, attributes of values and the standard library."""
from fractions import Fraction
import itertools
import math

import numpy as np

from . import arr as A
from . import expr as X
from . import interp as IN
from . import models as M
from .arr import Arr
from .expr import Expr, Undecided
from .interp import (Bound, ClassMethodV, ClassV, EXCS, Ext, ExcV, FieldV, Func,
                     GenV, Inst, Partial, Phi, PropertyV, PyFn, StaticMethodV,
                     SuperV, TypeV, raise_py)

B = M.BUILTINS
T = {n: TypeV(n) for n in (
    'object', 'int', 'float', 'complex', 'bool', 'str', 'tuple', 'list', 'dict',
    'set', 'frozenset', 'type', 'slice', 'range', 'bytes')}
T['bool'].bases = (T['int'],)


def blt(name):
  def deco(f):
    B[name] = PyFn(f, name)
    return f
  return deco


def lst(ip, v):
  return list(ip.iterate(v))


@blt('len')
def _len(ip, a, kw):
  v = a[0]
  if isinstance(v, (tuple, list, dict, str, set, frozenset, range, bytes)):
    return len(v)
  if isinstance(v, Arr):
    if v.shape is None:
      return M.opaque('len', v).scalar()
    if not v.shape:
      raise_py('TypeError', 'len() of unsized object')
    return v.shape[0]
  if isinstance(v, np.ndarray):
    return len(v)
  if isinstance(v, Inst):
    m, _ = v.cls.lookup('__len__')
    if m is not None:
      return ip.call(m, [v], {})
    if '__tuple__' in v.attrs:
      return len(v.attrs['__tuple__'])
  if isinstance(v, ClassV) and v.ns.get('__enum__'):
    return len(v.ns['__members__'])
  if isinstance(v, Phi):
    return ip.ite(v.c, _len(ip, [v.a], {}), _len(ip, [v.b], {}))
  raise_py('TypeError', f'object of type {M.tyname(v)} has no len()')


@blt('range')
def _range(ip, a, kw):
  a = [M.as_int(x) for x in a]
  if all(isinstance(x, int) for x in a):
    return range(*a)
  return SymRange(*a)


class SymRange:
  """range() with symbolic bounds; only the loop summarizer can walk it."""

  def __init__(self, *a):
    if len(a) == 1:
      self.start, self.stop, self.step = 0, a[0], 1
    else:
      self.start, self.stop = a[0], a[1]
      self.step = a[2] if len(a) > 2 else 1

  def sa_iter(self, ip):
    raise Undecided('loop over a range of symbolic length')


@blt('zip')
def _zip(ip, a, kw):
  ls = []
  for x in a:
    if isinstance(x, CountV):
      ls.append(itertools.count(x.start, x.step))
    elif isinstance(x, GenV):
      ls.append(iter(x))  # the same iterator may be given more than once
    else:
      ls.append(lst(ip, x))
  try:
    return GenV(list(zip(*ls, strict=bool(kw.get('strict')))))
  except ValueError:
    return raise_py('ValueError', 'zip() arguments of different length')


@blt('enumerate')
def _enumerate(ip, a, kw):
  s = a[1] if len(a) > 1 else kw.get('start', 0)
  return GenV([(i + s, x) for i, x in enumerate(lst(ip, a[0]))])


@blt('sum')
def _sum(ip, a, kw):
  acc = a[1] if len(a) > 1 else kw.get('start', 0)
  for x in lst(ip, a[0]):
    acc = ip.binop('add', acc, x)
  return acc


def _minmax(name, f):
  @blt(name)
  def g(ip, a, kw):
    items = lst(ip, a[0]) if len(a) == 1 else list(a)
    key = kw.get('key')
    if not items:
      if 'default' in kw:
        return kw['default']
      raise_py('ValueError', f'{name}() arg is an empty sequence')
    if key is not None:
      ks = [ip.call(key, [x], {}) for x in items]
      best = 0
      for i in range(1, len(items)):
        c = ip.truth(ip.compare('lt' if name == 'min' else 'gt', ks[i], ks[best]))
        if c is True:
          best = i
        elif c is not False:
          raise Undecided(f'{name} with an abstract key')
      return items[best]
    acc = items[0]
    for x in items[1:]:
      c = ip.truth(ip.compare('lt' if name == 'min' else 'gt', x, acc))
      if c is True:
        acc = x
      elif c is not False:
        if M.is_scalar(x) and M.is_scalar(acc):
          acc = M.pk(f(X.lift(x), X.lift(acc)))
        else:
          acc = ip.ite(c, x, acc)
    return acc
  return g


_minmax('min', X.minimum)
_minmax('max', X.maximum)


@blt('abs')
def _abs(ip, a, kw):
  return ip.unaryop('abs', a[0])


def _fold_truth(ip, xs, stop):
  acc = None
  for x in xs:
    c = ip.truth(x)
    if c is stop:
      return stop
    if not isinstance(c, bool):
      acc = c if acc is None else (X.lor(acc, c) if stop else X.land(acc, c))
  return (not stop) if acc is None else acc


@blt('any')
def _any(ip, a, kw):
  return _fold_truth(ip, lst(ip, a[0]), True)


@blt('all')
def _all(ip, a, kw):
  return _fold_truth(ip, lst(ip, a[0]), False)


@blt('sorted')
def _sorted(ip, a, kw):
  import functools
  items = lst(ip, a[0])
  key = kw.get('key')
  ks = [x if key is None else ip.call(key, [x], {}) for x in items]

  def cmp(i, j):
    c = ip.truth(ip.compare('lt', ks[i], ks[j]))
    if c is True:
      return -1
    if c is not False:
      raise Undecided('sorting abstract values')
    c = ip.truth(ip.compare('gt', ks[i], ks[j]))
    return 1 if c is True else 0
  order = sorted(range(len(items)), key=functools.cmp_to_key(cmp),
                 reverse=bool(kw.get('reverse', False)))
  return [items[i] for i in order]


@blt('map')
def _map(ip, a, kw):
  return GenV([ip.call(a[0], list(xs), {}) for xs in zip(*[
      lst(ip, x) for x in a[1:]])])


@blt('filter')
def _filter(ip, a, kw):
  out = []
  for x in lst(ip, a[1]):
    c = ip.truth(x if a[0] is None else ip.call(a[0], [x], {}))
    if not isinstance(c, bool):
      raise Undecided('filter on an abstract condition')
    if c:
      out.append(x)
  return GenV(out)


@blt('reversed')
def _reversed(ip, a, kw):
  return GenV(lst(ip, a[0])[::-1])


@blt('iter')
def _iter(ip, a, kw):
  v = a[0]
  return v if isinstance(v, GenV) else GenV(lst(ip, v))


@blt('next')
def _next(ip, a, kw):
  for x in a[0]:
    return x
  if len(a) > 1:
    return a[1]
  raise_py('StopIteration')


@blt('print')
def _print(ip, a, kw):
  ip.events.append(('print', len(a)))
  return None


@blt('callable')
def _callable(ip, a, kw):
  v = a[0]
  return isinstance(v, (Func, Bound, Partial, PyFn, ClassV, TypeV, Ext)) or (
      isinstance(v, Inst) and v.cls.lookup('__call__')[0] is not None)


@blt('hash')
def _hash(ip, a, kw):
  return IN.hash_value(a[0])


@blt('id')
def _id(ip, a, kw):
  return id(a[0])


@blt('repr')
def _repr(ip, a, kw):
  return repr(a[0])


@blt('round')
def _round(ip, a, kw):
  v = a[0]
  if M.is_num(v):
    return round(v, *[M.as_int(x) for x in a[1:]])
  return ip.call(Ext('numpy.round'), a, {})


@blt('divmod')
def _divmod(ip, a, kw):
  return (ip.binop('floordiv', a[0], a[1]), ip.binop('mod', a[0], a[1]))


@blt('pow')
def _pow(ip, a, kw):
  return ip.binop('pow', a[0], a[1])


@blt('super')
def _super(ip, a, kw):
  return SuperV(a[0], a[1])


@blt('vars')
def _vars(ip, a, kw):
  return a[0].attrs


@blt('hasattr')
def _hasattr(ip, a, kw):
  try:
    ip.getattr(a[0], a[1])
    return True
  except IN.PyRaise as e:
    if e.clsname() == 'AttributeError':
      return False
    raise


@blt('getattr')
def _getattr(ip, a, kw):
  try:
    return ip.getattr(a[0], a[1])
  except IN.PyRaise as e:
    if e.clsname() == 'AttributeError' and len(a) > 2:
      return a[2]
    raise


@blt('setattr')
def _setattr(ip, a, kw):
  ip.setattr(a[0], a[1], a[2])


@blt('property')
def _property(ip, a, kw):
  p = PropertyV(a[0])
  if len(a) > 1:
    p.fset = a[1]
  return p


@blt('classmethod')
def _classmethod(ip, a, kw):
  return ClassMethodV(a[0])


@blt('staticmethod')
def _staticmethod(ip, a, kw):
  return StaticMethodV(a[0])


# ---------------------------------------------------------------- isinstance

ARRAY_TYPES = {'numpy.ndarray', 'jax.numpy.ndarray', 'jax.Array',
               'jax.numpy.DeviceArray'}


def isinst(ip, v, t):
  if isinstance(t, tuple):
    return any(isinst(ip, v, x) for x in t)
  if isinstance(t, ClassV):
    if isinstance(v, Inst):
      return t in v.cls.mro()
    if isinstance(v, np.ndarray):
      return any(isinstance(b, Ext) and b.name == 'numpy.ndarray'
                 for b in t.mro())
    return False
  if isinstance(t, TypeV):
    n = t.name
    if n == 'object':
      return True
    if isinstance(v, ExcV):
      return t in v.cls.mro()
    if isinstance(v, Inst):
      if n == 'tuple' and '__tuple__' in v.attrs:
        return True
      return t in v.cls.mro()
    if n == 'int':
      if isinstance(v, Expr):
        return all(a.integer for a in v.atoms()) and bool(v.atoms()) and not \
            any(c.denominator != 1 for c in v.t.values())
      return isinstance(v, int)
    if n == 'float':
      return isinstance(v, (float, Fraction)) or (
          isinstance(v, Expr) and not isinst(ip, v, T['int'])
          and not getattr(v, 'np_', False))
    if n == 'bool':
      return isinstance(v, bool)
    if n == 'complex':
      return isinstance(v, Expr) and not v.is_real()
    if n == 'type':
      return isinstance(v, (TypeV, ClassV))
    py = {'str': str, 'tuple': tuple, 'list': list, 'dict': dict, 'set': set,
          'frozenset': frozenset, 'slice': slice, 'range': range,
          'bytes': bytes}.get(n)
    return py is not None and isinstance(v, py)
  if isinstance(t, Ext):
    n = t.name
    if n in ARRAY_TYPES:
      return isinstance(v, Arr) or (isinstance(v, np.ndarray)
                                    and n == 'numpy.ndarray')
    if n.endswith('.Number') or n.endswith('.Real') or n.endswith('.Integral'):
      return isinstance(v, (int, Fraction, float, Expr))
    if n in ('collections.abc.Callable', 'typing.Callable'):
      return _callable(ip, [v], {})
    if n.split('.')[-1] in ('Sequence', 'Iterable', 'Sized', 'Collection'):
      return isinstance(v, (tuple, list, str, range)) or (
          n.endswith('Iterable') and isinstance(v, (dict, set, GenV)))
    if n.split('.')[-1] in ('Mapping', 'MutableMapping'):
      return isinstance(v, dict)
    if n in ('tree_math.Vector', 'tree_math._src.vector.Vector'):
      return isinstance(v, M.TMVec)
    if isinstance(v, Inst):
      return t in v.cls.mro()
    if isinstance(v, Arr):
      if v.shape is None:
        return X.of_atom(X.mkatom('truth', (M.opaque('isinstance', v, t).scalar(),),
                                  boolean=True))
      return False
    if hasattr(v, 'sa_isinstance'):
      return v.sa_isinstance(n)
    if v is None or isinstance(v, (str, tuple, list, dict, int, Fraction, Expr,
                                   Func, Ext)):
      return False
  if t is None:
    return False
  if isinstance(t, (int, str, Fraction, Expr, Arr, list, dict)) or (
      isinstance(t, Inst) and not t.cls.mod.stub):
    raise_py('TypeError', 'isinstance() arg 2 must be a type')
  raise Undecided(f'isinstance({v!r}, {t!r})')


@blt('isinstance')
def _isinstance(ip, a, kw):
  return isinst(ip, a[0], a[1])


@blt('issubclass')
def _issubclass(ip, a, kw):
  ts = a[1] if isinstance(a[1], tuple) else (a[1],)
  if isinstance(a[0], (ClassV, TypeV)):
    return any(t in a[0].mro() for t in ts)
  return False


# ---------------------------------------------------------------- type calls

def _tc(name):
  def deco(f):
    M.TYPE_CALLS[name] = f
    return f
  return deco


@_tc('object')
def _object(ip, a, kw):
  return ExtObj('object')


class ExtObj:
  """A unique external object."""

  def __init__(self, name):
    self.name = name


@_tc('int')
def _int(ip, a, kw):
  if not a:
    return 0
  v = _dunder(ip, a[0], '__int__')
  if isinstance(v, str):
    try:
      return int(v)
    except ValueError:
      raise_py('ValueError', 'invalid literal for int()')
  if isinstance(v, (int, Fraction, float)):
    return int(v)
  if isinstance(v, Inst):
    m, _ = v.cls.lookup('__int__')
    if m is not None:
      return ip.call(m, [v], {})
  if isinstance(v, Arr) and v.shape is None:
    return M.opaque('int', v).scalar()
  v = M.pk(v)
  if isinstance(v, (int, Fraction)):
    return int(v)
  if isinstance(v, Expr):
    if isinst(ip, v, T['int']):
      return v
    # int() truncates towards zero
    s = X.sign_of(v)
    if s is not None and s >= 0:
      return A.dim(X.floor(v))
    c = X.gt0(X.scale(v, -1))
    return M.pk(X.where(c, X.scale(X.floor(X.scale(v, -1)), -1), X.floor(v)))
  raise_py('TypeError', f'int() argument {M.tyname(v)}')


def _dunder(ip, v, name):
  if isinstance(v, Inst):
    m, _ = v.cls.lookup(name)
    if m is not None:
      return ip.call(m, [v], {})
  return v


@_tc('float')
def _float(ip, a, kw):
  if not a:
    return Fraction(0)
  v = _dunder(ip, a[0], '__float__')
  if isinstance(v, str):
    s = v.strip().lower()
    if s in ('inf', 'infinity', '+inf'):
      return float('inf')
    if s == '-inf':
      return float('-inf')
    if s == 'nan':
      return X.sym('nan')
    return Fraction(s)
  if isinstance(v, (bool, int)):
    return Fraction(v)
  if isinstance(v, (Fraction, float, Expr)):
    return v
  if isinstance(v, Arr):
    if v.shape is None:
      return M.opaque('float', v).scalar()
    if v.shape == ():
      return M.pk(v)
    if all(d == 1 for d in v.shape):
      return M.pk(v.scalar())
  raise_py('TypeError', 'float() argument')


@_tc('complex')
def _complex(ip, a, kw):
  r = X.lift(a[0])
  if len(a) > 1:
    r = X.add(r, X.mul(X.I, X.lift(a[1])))
  return r


@_tc('bool')
def _bool(ip, a, kw):
  return ip.truth(a[0]) if a else False


@_tc('str')
def _str(ip, a, kw):
  if not a:
    return ''
  v = a[0]
  if isinstance(v, str):
    return v
  if isinstance(v, int):
    return str(v)
  if isinstance(v, IN.ExcV):
    return ', '.join(str(x) for x in v.args)
  return f'{v!r}'


@_tc('tuple')
def _tuple(ip, a, kw):
  return tuple(lst(ip, a[0])) if a else ()


@_tc('list')
def _list(ip, a, kw):
  return lst(ip, a[0]) if a else []


@_tc('dict')
def _dict(ip, a, kw):
  d = {}
  if a:
    if isinstance(a[0], dict):
      d.update(a[0])
    else:
      for kv in lst(ip, a[0]):
        k, v = lst(ip, kv)
        IN.hash_value(k)
        d[k] = v
  d.update(kw)
  return d


@_tc('set')
def _set(ip, a, kw):
  out = set()
  for x in (lst(ip, a[0]) if a else []):
    IN.hash_value(x)
    out.add(x)
  return out


@_tc('frozenset')
def _frozenset(ip, a, kw):
  return frozenset(_set(ip, a, kw))


@_tc('slice')
def _slice(ip, a, kw):
  return slice(*a)


M.TYPE_CALLS['range'] = _range


@_tc('type')
def _type(ip, a, kw):
  if len(a) != 1:
    raise Undecided('dynamic class creation')
  return type_of(a[0])


def type_of(v):
  if isinstance(v, Inst):
    return v.cls
  if isinstance(v, ExcV):
    return v.cls
  if isinstance(v, bool):
    return T['bool']
  if isinstance(v, int):
    return T['int']
  if isinstance(v, (Fraction, float, Expr)):
    return T['float']
  for n in ('str', 'tuple', 'list', 'dict', 'set', 'frozenset', 'slice'):
    if isinstance(v, {'str': str, 'tuple': tuple, 'list': list, 'dict': dict,
                      'set': set, 'frozenset': frozenset, 'slice': slice}[n]):
      return T[n]
  if isinstance(v, Arr):
    return Ext('jax.Array')
  if v is None:
    return TypeV('NoneType')
  return TypeV(type(v).__name__)


def install(ip):
  pass


for _n, _t in T.items():
  if _n != 'range':
    B[_n] = _t
for _n, _t in EXCS.items():
  B[_n] = _t
M.BUILTIN_CONSTS.update({
    'NotImplemented': NotImplemented, 'Ellipsis': Ellipsis, '__debug__': True})

from . import lib_std  # pylint: disable=wrong-import-position
call_ext = lib_std.call_ext
ext_attr = lib_std.ext_attr
value_attr = lib_std.value_attr
inst_attr = lib_std.inst_attr
class_attr = lib_std.class_attr
super_attr = lib_std.super_attr
ext_base_init = lib_std.ext_base_init
CountV = lib_std.CountV
from . import lib_stub  # pylint: disable=wrong-import-position
lib_std.STD.update(lib_stub.TABLE)
from . import lib_conv  # pylint: disable=wrong-import-position
lib_std.STD.update(lib_conv.TABLE)
