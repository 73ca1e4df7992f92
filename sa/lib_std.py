"""Attributes of abstract values and standard-library functions."""
from fractions import Fraction
import functools
import itertools
import math

import numpy as np

from . import arr as A
from . import expr as X
from . import interp as IN
from . import models as M
from .arr import Arr
from .expr import Expr, Undecided
from .interp import (Bound, ClassV, Ext, ExcV, FieldV, Func, GenV, Inst,
                     Partial, Phi, PropertyV, PyFn, SuperV, TypeV, raise_py)
from . import lib_np as NP
from . import sigs as SIGS


def no_attr(kind, cls, name):
  if hasattr(cls, name) or kind == 'array' and name in JAX_ATTRS:
    raise Undecided(f'attribute {name} of {kind}')
  raise_py('AttributeError', f'{kind} has no attribute {name}')


JAX_ATTRS = {'addressable_shards', 'aval', 'block_until_ready', 'device',
             'devices', 'global_shards', 'is_deleted', 'mT', 'sharding',
             'weak_type', 'at', 'delete', 'to_device', 'committed'}


class CountV:
  def __init__(self, start=0, step=1):
    self.start, self.step = start, step


class AtV:
  """x.at and x.at[k]."""

  def __init__(self, a, k=None, has=False):
    self.a, self.k, self.has = a, k, has

  def sa_getitem(self, ip, k):
    return AtV(self.a, k, True)


def meth(fn, name='method'):
  return PyFn(fn, name)


_AT = {
    'set': None,
    'add': X.add,
    'multiply': X.mul,
    'mul': X.mul,
    'divide': lambda a, b: X.mul(a, X.power(b, -1)),
    'min': X.minimum,
    'max': X.maximum,
    'subtract': lambda a, b: X.add(a, X.scale(b, -1)),
}


def at_attr(ip, v, name):
  if name in _AT and v.has:
    def f(ip_, a, kw):
      return M.pk(M.update(v.a, v.k, a[0], _AT[name]))
    return meth(f, 'at.' + name)
  if name == 'get':
    return meth(lambda ip_, a, kw: ip.getitem(v.a, v.k))
  raise_py('AttributeError', name)


def lst(ip, v):
  return list(ip.iterate(v))


ARR_METHODS = {
    'sum': 'sum', 'mean': 'mean', 'max': 'max', 'min': 'min', 'prod': 'prod',
    'all': 'all', 'any': 'any', 'conj': 'conj', 'conjugate': 'conj',
    'squeeze': 'squeeze', 'ravel': 'ravel', 'flatten': 'ravel',
    'dot': 'dot', 'round': 'round', 'clip': 'clip', 'take': 'take',
    'trace': 'trace', 'cumsum': 'cumsum', 'argmax': 'argmax',
    'argmin': 'argmin', 'argsort': 'argsort', 'std': 'std', 'var': 'var',
    'diagonal': 'diagonal', 'swapaxes': 'swapaxes', 'repeat': 'repeat',
}


def arr_attr(ip, v, name):
  a = v if isinstance(v, Arr) else A.lift(v)
  if name == 'shape':
    if a.shape is None:
      return M.opaque('shape', a)
    return tuple(a.shape)
  if name == 'ndim':
    if a.shape is None:
      return M.opaque('ndim', a).scalar()
    return len(a.shape)
  if name == 'size':
    if a.shape is None:
      return M.opaque('size', a).scalar()
    return M.pk(functools.reduce(X.mul, [A.ex(d) for d in a.shape], X.ONE))
  if name == 'dtype':
    return M.DType(a.dtype if a.dtype in ('complex', 'bool') else 'float')
  if name == 'T':
    return M.pk(A.transpose(a, tuple(range(a.ndim))[::-1]))
  if name in ('real', 'imag'):
    return NP.call(ip, name, [v], {})
  if name == 'at':
    return AtV(a)
  if name == 'astype':
    def astype(ip_, args, kw):
      d = args[0] if args else kw.get('dtype')
      return NP.astype(a, d)
    return meth(astype)
  if name == 'reshape':
    def reshape(ip_, args, kw):
      s = args[0] if len(args) == 1 else tuple(args)
      return NP.call(ip, 'reshape', [v, s], {})
    return meth(reshape)
  if name == 'transpose':
    def transpose(ip_, args, kw):
      if not args:
        return NP.call(ip, 'transpose', [v], {})
      s = args[0] if len(args) == 1 and isinstance(args[0], (tuple, list)) \
          else tuple(args)
      return NP.call(ip, 'transpose', [v, s], {})
    return meth(transpose)
  if name in ARR_METHODS:
    return meth(lambda ip_, args, kw: NP.call(
        ip, ARR_METHODS[name], [v] + list(args), kw), name)
  if name in ('copy', 'block_until_ready', 'item', '__array__', 'tolist',
              'to_py', 'addressable_data', 'view'):
    return meth(lambda ip_, args, kw: M.pk(v), name)
  if name == 'is_integer':
    return meth(lambda ip_, args, kw: M.compare(ip, 'eq', v, NP.call(
        ip, 'floor', [v], {})))
  if name in ('__add__', '__mul__', '__sub__', '__truediv__'):
    return meth(lambda ip_, args, kw: ip.binop(name[2:-2], v, args[0]))
  if a.shape is None:
    return M.opaque('attr', a, name)
  no_attr('array', np.ndarray, name)


def value_attr(ip, v, name):
  if isinstance(v, AtV):
    return at_attr(ip, v, name)
  if isinstance(v, Arr):
    return arr_attr(ip, v, name)
  if isinstance(v, (Expr, Fraction, int, float)) and not isinstance(v, bool):
    if name in ('shape', 'ndim', 'astype', 'size', 'at', 'dtype') and \
        isinstance(v, (int, Fraction)):
      # Python numbers have none of these; numpy scalars do.
      if name in ('ndim',):
        return 0
      if name == 'shape':
        return ()
    if name == 'is_integer' and M.is_num(v):
      return meth(lambda ip_, a, kw: v == int(v))
    return arr_attr(ip, v, name)
  if isinstance(v, np.ndarray):
    return nd_attr(ip, v, name)
  if isinstance(v, str):
    return str_attr(ip, v, name)
  if isinstance(v, dict):
    return dict_attr(ip, v, name)
  if isinstance(v, list):
    return list_attr(ip, v, name)
  if isinstance(v, tuple):
    if name == 'index':
      return meth(lambda ip_, a, kw: _index(ip, v, a[0]))
    if name == 'count':
      return meth(lambda ip_, a, kw: sum(
          1 for x in v if M.pyeq(ip, x, a[0]) is True))
    no_attr('tuple', tuple, name)
  if isinstance(v, (set, frozenset)):
    return set_attr(ip, v, name)
  if isinstance(v, slice):
    return {'start': v.start, 'stop': v.stop, 'step': v.step}[name]
  if isinstance(v, M.DType):
    return {'name': v.name, 'kind': v.name[0], 'type': v,
            'itemsize': 4}.get(name, v)
  if isinstance(v, M.TMVec):
    if name in ('tree', '_tree'):
      return v.tree
    from . import lib_jax as J
    if name in ('dot', 'sum', 'size'):
      return M.opaque('tree_math.' + name, v.tree)
    raise_py('AttributeError', name)
  if isinstance(v, PropertyV):
    if name == 'setter':
      def setter(ip_, a, kw):
        p = PropertyV(v.fget)
        p.fset = a[0]
        return p
      return meth(setter)
    if name in ('fget', 'fset'):
      return getattr(v, name)
  if isinstance(v, ExcV):
    if name == 'args':
      return v.args
    raise_py('AttributeError', name)
  if isinstance(v, TypeV):
    if name in ('__name__', '__qualname__'):
      return v.name
    if v.name == 'dict' and name == 'fromkeys':
      return meth(lambda ip_, a, kw: {k: (a[1] if len(a) > 1 else None)
                                      for k in lst(ip, a[0])})
    if v.name == 'object' and name == '__setattr__':
      def osa(ip_, a, kw):
        a[0].attrs[a[1]] = a[2]
      return meth(osa)
    if v.name == 'object' and name == '__new__':
      return meth(lambda ip_, a, kw: Inst(a[0]))
    raise_py('AttributeError', f'type {v.name} has no attribute {name}')
  if isinstance(v, Bound):
    if name == '__self__':
      return v.self_
    if name == '__func__':
      return v.func
    return ip.getattr(v.func, name)
  if isinstance(v, PyFn):
    if name in v.attrs:
      return v.attrs[name]
    if name == '__name__':
      return v.name
    if name == '__call__':
      return v
    if name in ('__doc__', '__wrapped__', '__qualname__'):
      return v.name
    if hasattr(v, 'sub') and name in v.sub:
      return v.sub[name]
    raise_py('AttributeError', name)
  if hasattr(v, 'sa_attr'):
    return v.sa_attr(ip, name)
  if v is None:
    raise_py('AttributeError', f'NoneType has no attribute {name}')
  if isinstance(v, bool):
    no_attr('bool', bool, name)
  raise Undecided(f'attribute {name} of {type(v).__name__}')


def _index(ip, v, x):
  for i, y in enumerate(v):
    if M.pyeq(ip, y, x) is True:
      return i
  raise_py('ValueError', 'not in sequence')


def nd_attr(ip, v, name):
  if name == 'shape':
    return v.shape
  if name == 'ndim':
    return v.ndim
  if name == 'size':
    return v.size
  if name == 'T':
    return v.T
  if name == 'dtype':
    return M.DType('object')
  if name in ('ravel', 'flatten'):
    return meth(lambda ip_, a, kw: v.ravel())
  if name == 'tolist':
    return meth(lambda ip_, a, kw: v.tolist())
  if name == 'copy':
    return meth(lambda ip_, a, kw: v.copy())
  if name == 'transpose':
    return meth(lambda ip_, a, kw: v.transpose(*a))
  if name == 'item':
    return meth(lambda ip_, a, kw: v.item(*a))
  if name == 'reshape':
    return meth(lambda ip_, a, kw: v.reshape(*a))
  if name == 'dot':
    return meth(lambda ip_, a, kw: NP.nd_dot(ip, v, a[0]))
  if name in ('sum', 'trace', 'mean', 'prod'):
    return meth(lambda ip_, a, kw: NP.call(ip, name, [v] + list(a), kw))
  if name in ('astype', 'view'):
    return meth(lambda ip_, a, kw: v)
  if name == 'flat':
    return list(v.ravel())
  if name in ('diagonal', 'swapaxes', 'squeeze'):
    return meth(lambda ip_, a, kw: getattr(v, name)(*a, **kw))
  no_attr('ndarray', np.ndarray, name)


def str_attr(ip, v, name):
  if not hasattr(v, name):
    no_attr('str', str, name)

  def f(ip_, a, kw):
    if name == 'join':
      return v.join([str(x) for x in lst(ip, a[0])])
    if name == 'format':
      try:
        return v.format(*a, **kw)
      except (ValueError, TypeError):
        return v
    a2 = [tuple(x) if isinstance(x, list) else x for x in a]
    return getattr(v, name)(*a2, **kw)
  return meth(f, 'str.' + name)


def dict_attr(ip, v, name):
  if name == 'items':
    return meth(lambda ip_, a, kw: [(k, x) for k, x in v.items()])
  if name == 'keys':
    return meth(lambda ip_, a, kw: list(v.keys()))
  if name == 'values':
    return meth(lambda ip_, a, kw: list(v.values()))

  def f(ip_, a, kw):
    if name == 'update':
      if a:
        src = a[0].items() if isinstance(a[0], dict) else [
            tuple(lst(ip, kv)) for kv in lst(ip, a[0])]
        for k, x in src:
          v[k] = x
      v.update(kw)
      return None
    if name == 'pop':
      if a[0] in v:
        return v.pop(a[0])
      if len(a) > 1:
        return a[1]
      raise_py('KeyError', repr(a[0]))
    if name == 'copy':
      r = type(v)(v)
      if isinstance(v, M.DefaultDict):
        r.factory = v.factory
      return r
    if a:
      IN.hash_value(a[0])
    return getattr(v, name)(*a, **kw)
  if not hasattr(v, name):
    no_attr('dict', dict, name)
  return meth(f, 'dict.' + name)


def list_attr(ip, v, name):
  def f(ip_, a, kw):
    if name == 'extend':
      v.extend(lst(ip, a[0]))
      return None
    if name == 'index':
      return _index(ip, v, a[0])
    if name == 'remove':
      del v[_index(ip, v, a[0])]
      return None
    if name == 'count':
      return sum(1 for x in v if M.pyeq(ip, x, a[0]) is True)
    if name == 'sort':
      v[:] = ip.call(M.BUILTINS['sorted'], [list(v)], kw)
      return None
    if name == 'pop' and not v:
      raise_py('IndexError', 'pop from empty list')
    if name in ('insert', 'pop'):
      a = [M.as_int(a[0])] + list(a[1:]) if a else a
    return getattr(v, name)(*a, **kw)
  if not hasattr(v, name):
    no_attr('list', list, name)
  return meth(f, 'list.' + name)


def set_attr(ip, v, name):
  def f(ip_, a, kw):
    a2 = []
    for x in a:
      if name in ('add', 'discard', 'remove'):
        IN.hash_value(x)
        a2.append(x)
      else:
        a2.append(lst(ip, x) if not isinstance(x, (set, frozenset)) else x)
    return getattr(v, name)(*a2, **kw)
  if not hasattr(v, name):
    no_attr('set', set, name)
  return meth(f, 'set.' + name)


# ---------------------------------------------------------------- instances

def inst_attr(ip, v, name):
  if name == '__tuple__' in v.attrs:
    return v.attrs[name]
  if '__tuple__' in v.attrs:
    if name == '_replace':
      def rep(ip_, a, kw):
        vals = {n: v.attrs[n] for n in v.cls.fields_}
        vals.update(kw)
        return ip.call(v.cls, [], vals)
      return meth(rep)
    if name == '_asdict':
      return meth(lambda ip_, a, kw: {n: v.attrs[n] for n in v.cls.fields_})
  for c in v.cls.mro():
    if isinstance(c, Ext):
      r = ext_inst_attr(ip, v, c, name)
      if r is not NotImplemented:
        return r
  if name in ('__dataclass_fields__',) and v.cls.dc is not None:
    return {n: n for n in v.cls.dc_fields()}
  return NotImplemented


def ext_inst_attr(ip, v, c, name):
  h = getattr(ip, 'ext_attr_hook', None)
  if h is not None:
    r = h(ip, v, c, name)
    if r is not NotImplemented:
      return r
  if c.name in ('haiku.Module',):
    if name in ('name', 'module_name'):
      return v.attrs.get('__hkname__', v.cls.name)
  return NotImplemented


def class_attr(ip, v, name):
  if name == 'mro':
    return meth(lambda ip_, a, kw: list(v.mro()))
  if name == '__qualname__':
    return v.name
  if name == '__module__':
    return v.mod.name
  if name == '__annotations__':
    return {n: None for n in v.annots}
  if name == '__init__':
    return meth(lambda ip_, a, kw: None)
  if name == '__members__' and v.ns.get('__enum__'):
    return {m.attrs['name']: m for m in v.ns['__members__']}
  return NotImplemented


def super_attr(ip, v, name):
  if name in ('__init_subclass__', '__post_init__'):
    return meth(lambda ip_, a, kw: None)
  if name == '__new__':
    return meth(lambda ip_, a, kw: Inst(a[0]))
  if name == '__setattr__':
    def osa(ip_, a, kw):
      v.obj.attrs[a[0]] = a[1]
    return meth(osa)
  raise_py('AttributeError', f'super object has no attribute {name}')


def ext_base_init(ip, cls, obj, args, kwargs):
  return NotImplemented


# ---------------------------------------------------------------- std library

STD = {}


def std(name):
  def deco(f):
    STD[name] = f
    return f
  return deco


IDENT_DECOS = {
    'gin.register', 'gin.configurable', 'gin.external_configurable',
    'jax.jit', 'jax.named_call', 'jax.checkpoint', 'jax.remat',
    'haiku.remat', 'abc.abstractmethod',
    'typing.no_type_check', 'typing.overload', 'haiku.transparent',
    'jax.pmap',
}


def _ident_deco(name):
  def f(ip, a, kw):
    if a and callable_value(a[0]):
      return a[0]
    return meth(lambda ip_, b, kw_: b[0], name)
  STD[name] = f


def callable_value(v):
  return isinstance(v, (Func, Bound, Partial, PyFn, ClassV, Ext, Phi)) or (
      isinstance(v, Inst))


for _n in IDENT_DECOS:
  _ident_deco(_n)


@std('functools.partial')
def _partial(ip, a, kw):
  return Partial(a[0], list(a[1:]), dict(kw))


@std('functools.reduce')
def _reduce(ip, a, kw):
  items = lst(ip, a[1])
  if len(a) > 2:
    acc = a[2]
  else:
    if not items:
      raise_py('TypeError', 'reduce() of empty iterable')
    acc = items.pop(0)
  for x in items:
    acc = ip.call(a[0], [acc, x], {})
  return acc


@std('functools.wraps')
def _wraps(ip, a, kw):
  src = a[0]

  def deco(ip_, b, kw_):
    f = b[0]
    if isinstance(f, (Func, PyFn)):
      try:
        f.attrs['__name__'] = ip.getattr(src, '__name__')
      except IN.PyRaise:
        pass
      f.attrs['__wrapped__'] = src
    return f
  return meth(deco)


def _cache(ip, a, kw):
  if a and callable_value(a[0]):
    f = a[0]

    def g(ip_, b, kw_):
      for x in b:
        IN.hash_value(x)
      for x in kw_.values():
        IN.hash_value(x)
      return ip.call(f, b, kw_)
    return PyFn(g, 'lru_cache')
  return meth(lambda ip_, b, kw_: _cache(ip, b, {}))


STD['functools.lru_cache'] = _cache
STD['functools.cache'] = _cache
STD['functools.cached_property'] = lambda ip, a, kw: PropertyV(a[0])


@std('dataclasses.dataclass')
def _dataclass(ip, a, kw):
  def apply(cls):
    cls.dc = dict(kw)
    own = [n for n in cls.annots]
    cls.fields_ = own
    if kw.get('unsafe_hash') or kw.get('frozen'):
      pass
    return cls
  if a and isinstance(a[0], ClassV):
    return apply(a[0])
  return meth(lambda ip_, b, kw_: apply(b[0]))


@std('dataclasses.field')
def _field(ip, a, kw):
  return FieldV(kw.get('default'), kw.get('default_factory'), 'default' in kw)


@std('dataclasses.replace')
def _replace(ip, a, kw):
  o = a[0]
  vals = {n: o.attrs.get(n) for n in o.cls.dc_fields()}
  for k in kw:
    if k not in vals:
      raise_py('TypeError', f'unexpected field {k}')
  vals.update(kw)
  return ip.call(o.cls, [], vals)


@std('dataclasses.fields')
def _fields(ip, a, kw):
  c = a[0].cls if isinstance(a[0], Inst) else a[0]

  class F:
    def __init__(self, n):
      self.n = n

    def sa_attr(self, ip_, name):
      return self.n if name == 'name' else None
  return tuple(F(n) for n in c.dc_fields())


@std('dataclasses.asdict')
def _asdict(ip, a, kw):
  return {n: a[0].attrs.get(n) for n in a[0].cls.dc_fields()}


STD['dataclasses.astuple'] = lambda ip, a, kw: tuple(
    a[0].attrs.get(n) for n in a[0].cls.dc_fields())
STD['dataclasses.is_dataclass'] = lambda ip, a, kw: (
    isinstance(a[0], Inst) and a[0].cls.dc is not None) or (
        isinstance(a[0], ClassV) and a[0].dc is not None)


@std('contextlib.contextmanager')
def _cm(ip, a, kw):
  a[0].attrs['__ctx__'] = True
  return a[0]


for _op, _nm in (('add', 'add'), ('sub', 'sub'), ('mul', 'mul'),
                 ('truediv', 'truediv'), ('floordiv', 'floordiv'),
                 ('mod', 'mod'), ('pow', 'pow'), ('matmul', 'matmul'),
                 ('and_', 'and'), ('or_', 'or'), ('xor', 'xor'),
                 ('iadd', 'add'), ('concat', 'add')):
  STD['operator.' + _op] = (lambda o: lambda ip, a, kw: ip.binop(
      o, a[0], a[1]))(_nm)
for _op in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
  STD['operator.' + _op] = (lambda o: lambda ip, a, kw: ip.compare(
      o, a[0], a[1]))(_op)
STD['operator.neg'] = lambda ip, a, kw: ip.unaryop('neg', a[0])
STD['operator.abs'] = lambda ip, a, kw: ip.unaryop('abs', a[0])
STD['operator.getitem'] = lambda ip, a, kw: ip.getitem(a[0], a[1])
STD['operator.itemgetter'] = lambda ip, a, kw: meth(
    lambda ip_, b, kw_: ip.getitem(b[0], a[0]) if len(a) == 1 else tuple(
        ip.getitem(b[0], k) for k in a))
STD['operator.attrgetter'] = lambda ip, a, kw: meth(
    lambda ip_, b, kw_: ip.getattr(b[0], a[0]))


@std('operator.index')
def _opindex(ip, a, kw):
  v = a[0]
  if isinstance(v, (Fraction, float)):
    raise_py('TypeError', 'float cannot be interpreted as an integer')
  return M.as_int(v)


def _it(name, f):
  STD['itertools.' + name] = f


_it('product', lambda ip, a, kw: GenV(list(itertools.product(
    *[lst(ip, x) for x in a], repeat=kw.get('repeat', 1)))))
_it('chain', lambda ip, a, kw: GenV([y for x in a for y in lst(ip, x)]))
_it('chain.from_iterable', lambda ip, a, kw: GenV(
    [y for x in lst(ip, a[0]) for y in lst(ip, x)]))
_it('combinations', lambda ip, a, kw: GenV(list(itertools.combinations(
    lst(ip, a[0]), a[1]))))
_it('combinations_with_replacement', lambda ip, a, kw: GenV(list(
    itertools.combinations_with_replacement(lst(ip, a[0]), a[1]))))
_it('permutations', lambda ip, a, kw: GenV(list(itertools.permutations(
    lst(ip, a[0]), *a[1:]))))
_it('accumulate', lambda ip, a, kw: GenV(_accumulate(ip, a, kw)))
_it('zip_longest', lambda ip, a, kw: GenV(list(itertools.zip_longest(
    *[lst(ip, x) for x in a], **kw))))
_it('count', lambda ip, a, kw: CountV(*a))
_it('repeat', lambda ip, a, kw: GenV([a[0]] * a[1]))
def _islice(ip, a, kw):
  if isinstance(a[0], CountV):
    start, stop, step = (0, a[1], 1) if len(a) == 2 else (
        a[1] or 0, a[2], a[3] if len(a) > 3 else 1)
    out = []
    for n in range(start, stop, step):
      out.append(ip.binop('add', a[0].start, ip.binop('mul', n, a[0].step)))
    return GenV(out)
  return GenV(lst(ip, a[0])[slice(*a[1:])])


_it('islice', _islice)
_it('pairwise', lambda ip, a, kw: GenV(list(itertools.pairwise(lst(ip, a[0])))))
_it('starmap', lambda ip, a, kw: GenV([ip.call(a[0], list(x), {})
                                       for x in lst(ip, a[1])]))


def _accumulate(ip, a, kw):
  out = []
  for x in lst(ip, a[0]):
    if not out:
      out.append(x)
    elif len(a) > 1:
      out.append(ip.call(a[1], [out[-1], x], {}))
    else:
      out.append(ip.binop('add', out[-1], x))
  return out


def _math(name):
  def f(ip, a, kw):
    return NP.call(ip, name, a, kw)
  STD['math.' + name] = f


for _n in ('sin', 'cos', 'exp', 'log', 'sqrt', 'tanh', 'floor', 'ceil', 'tan',
           'isnan', 'isinf', 'isfinite', 'trunc', 'log2', 'log10', 'hypot'):
  _math(_n)
STD['math.prod'] = lambda ip, a, kw: functools.reduce(
    lambda x, y: ip.binop('mul', x, y), lst(ip, a[0]), 1)
STD['math.fsum'] = lambda ip, a, kw: ip.call(M.BUILTINS['sum'], a, {})
STD['math.pow'] = lambda ip, a, kw: ip.binop('pow', a[0], a[1])
STD['math.fabs'] = lambda ip, a, kw: ip.unaryop('abs', a[0])
STD['math.gcd'] = lambda ip, a, kw: math.gcd(*a)
STD['math.isclose'] = lambda ip, a, kw: NP.call(ip, 'isclose', a[:2], {})


@std('collections.defaultdict')
def _defaultdict(ip, a, kw):
  d = M.DefaultDict()
  d.factory = a[0] if a else None
  return d


STD['collections.OrderedDict'] = lambda ip, a, kw: M.TYPE_CALLS['dict'](
    ip, a, kw)


@std('collections.namedtuple')
def _namedtuple(ip, a, kw):
  fields = a[1].replace(',', ' ').split() if isinstance(a[1], str) else list(a[1])
  import ast
  mod = IN.Module('<namedtuple>', ip.repo)
  cls = ClassV(a[0], [], {}, mod, ast.parse('class X: pass').body[0])
  cls.annots = fields
  make_namedtuple(ip, cls)
  return cls


def make_namedtuple(ip, cls):
  cls.fields_ = list(cls.annots)
  fields = cls.fields_

  def new(ip_, args, kw):
    obj = Inst(args[0])
    vals = dict(zip(fields, args[1:]))
    vals.update(kw)
    for n in fields:
      if n not in vals:
        if n in cls.ns:
          vals[n] = cls.ns[n]
        else:
          raise_py('TypeError', f'{cls.name}() missing {n}')
      obj.attrs[n] = vals[n]
    obj.attrs['__tuple__'] = tuple(vals[n] for n in fields)
    return obj

  def replaced(ip_, args, kw):
    vals = dict(zip(fields, args[0].attrs['__tuple__']))
    for k in kw:
      if k not in vals:
        raise_py('ValueError', f'unexpected field {k}')
    return new(ip_, [args[0].cls], dict(vals, **kw))

  cls.ns['__new__'] = PyFn(new, '__new__')
  for nm, f in (('_replace', replaced), ('_asdict', lambda ip_, args, kw: dict(
      zip(fields, args[0].attrs['__tuple__'])))):
    p = PyFn(f, nm)
    p.method = True
    cls.ns.setdefault(nm, p)
  cls.ns.setdefault('_fields', tuple(fields))


@std('copy.copy')
def _copy(ip, a, kw):
  v = a[0]
  if isinstance(v, (list, dict, set)):
    return type(v)(v)
  if isinstance(v, Inst):
    r = Inst(v.cls)
    r.attrs = dict(v.attrs)
    return r
  return v


@std('copy.deepcopy')
def _deepcopy(ip, a, kw):
  v = a[0]
  if isinstance(v, (list, tuple)):
    return type(v)(_deepcopy(ip, [x], {}) for x in v)
  if isinstance(v, dict):
    return {k: _deepcopy(ip, [x], {}) for k, x in v.items()}
  return _copy(ip, a, kw)


STD['operator.methodcaller'] = lambda ip, a, kw: meth(
    lambda ip_, b, kw_: ip.call(ip.getattr(b[0], a[0]), list(a[1:]), dict(kw)))
STD['types.MappingProxyType'] = lambda ip, a, kw: a[0]
STD['typing.cast'] = lambda ip, a, kw: a[1]
STD['typing.TypeVar'] = lambda ip, a, kw: Ext('typing.Any')
STD['typing.NewType'] = lambda ip, a, kw: Ext('typing.Any')
STD['warnings.warn'] = lambda ip, a, kw: None
STD['logging.warning'] = STD['logging.info'] = lambda ip, a, kw: None
STD['numpy.errstate'] = lambda ip, a, kw: None
STD['inspect.signature'] = lambda ip, a, kw: M.opaque_call(
    ip, 'inspect.signature', a, kw)

EXT_CONSTS = {
    'math.pi': X.PI, 'math.inf': float('inf'), 'math.nan': X.sym('nan'),
    'numpy.pi': X.PI, 'jax.numpy.pi': X.PI,
    'numpy.inf': float('inf'), 'jax.numpy.inf': float('inf'),
    'numpy.nan': X.sym('nan'), 'jax.numpy.nan': X.sym('nan'),
    'numpy.newaxis': None, 'jax.numpy.newaxis': None,
    'math.e': X.exp(X.ONE), 'numpy.e': X.exp(X.ONE),
}


def ext_attr(ip, v, name):
  q = v.name + '.' + name
  q = NP.canon(q)
  if q in EXT_CONSTS:
    return EXT_CONSTS[q]
  if name in ('__name__', '__qualname__'):
    return v.name.split('.')[-1]
  if name == '__init__' and v.name.startswith('haiku'):
    return meth(lambda ip_, a, kw: None)
  return Ext(q)


def call_ext(ip, name, args, kwargs):
  name = NP.canon(name)
  args, kwargs = SIGS.promote(name, list(args), dict(kwargs))
  f = STD.get(name)
  if f is not None:
    return f(ip, list(args), dict(kwargs))
  if name.startswith('numpy.') or name.startswith('jax.numpy.'):
    short = name[len('numpy.'):] if name.startswith('numpy.') else \
        name[len('jax.numpy.'):]
    return NP.call(ip, short, list(args), dict(kwargs),
                   np_=name.startswith('numpy.'))
  from . import lib_jax as J
  f = J.JAX.get(name)
  if f is not None:
    return NP.guarded(f, ip, name, list(args), dict(kwargs))
  if name in NP.DTYPES:
    return NP.astype(args[0], Ext(name)) if args else 0
  g = ip.extra('_lax', name[8:]) if name.startswith('jax.lax.') else \
      ip.extra('_jaxlib', name)
  if g is not None:
    return ip.call(g, args, kwargs)
  return M.opaque_call(ip, name, args, kwargs)
