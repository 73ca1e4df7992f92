"""Abstract xarray: the documented semantics of what jax_cfd uses of it.

This file is interpreted by the analyser in place of the xarray package (it is
never imported by Python).  Data are analyser arrays; index coordinates are
constants, so alignment is decided entry by entry.  Data are assumed finite.
"""
import operator

import numpy as np
import _sa


class MergeError(ValueError):
  pass


def _is_labels(data):
  return isinstance(data, list) and len(data) > 0 and isinstance(data[0], str)


def _asdata(data):
  if isinstance(data, (DataArray, Variable)):
    return data.data
  if _is_labels(data):
    return list(data)
  if isinstance(data, tuple) and len(data) > 0 and isinstance(data[0], str):
    return list(data)
  if isinstance(data, (list, tuple)):
    return np.asarray(data)
  if isinstance(data, str):
    return data
  return np.asarray(data)


def _shape(data):
  if isinstance(data, list):
    return (len(data),)
  if isinstance(data, str):
    return ()
  return tuple(np.shape(data))


def _index(data, axis, key):
  if isinstance(data, list):
    return data[key]
  return data[(slice(None),) * axis + (key,)]


def _same(a, b):
  """Whether two coordinate variables are equal."""
  if a.dims != b.dims or _shape(a.data) != _shape(b.data):
    return False
  if isinstance(a.data, (list, str)) or isinstance(b.data, (list, str)):
    return a.data == b.data
  return _sa.equal(a.data, b.data)


class Variable:

  def __init__(self, dims, data, attrs=None, encoding=None):
    if isinstance(dims, str):
      dims = (dims,)
    if isinstance(data, DataArray):
      raise TypeError('Using a DataArray object to construct a variable is '
                      'ambiguous')
    self.dims = tuple(dims)
    self.data = _asdata(data)
    if len(self.dims) != len(_shape(self.data)):
      raise ValueError('dimensions do not match the number of data dimensions')
    self.attrs = dict(attrs) if attrs is not None else {}

  @property
  def shape(self):
    return _shape(self.data)

  @property
  def ndim(self):
    return len(self.dims)

  @property
  def sizes(self):
    return dict(zip(self.dims, self.shape))

  @property
  def values(self):
    return self.data


def _to_var(name, value):
  if isinstance(value, DataArray):
    return Variable(value.dims, value.data, value.attrs)
  if isinstance(value, Variable):
    return value
  if isinstance(value, tuple):
    return Variable(*value)
  data = _asdata(value)
  if len(_shape(data)) == 0:
    return Variable((), data)
  if len(_shape(data)) == 1:
    return Variable((name,), data)
  raise MissingDims(f'{name}: cannot infer the dimensions')


class MissingDims(ValueError):
  pass


def _merge_coords(list_of_coords, sizes_checked=True):
  """Coordinates of an operation: conflicting non-index ones are dropped."""
  out = {}
  dropped = []
  for coords in list_of_coords:
    for name, var in coords.items():
      if name in dropped:
        continue
      if name in out:
        if not _same(out[name], var):
          if out[name].dims == (name,) or var.dims == (name,):
            if out[name].dims == var.dims:
              raise ValueError(f'indexes along {name} are not equal')
          del out[name]
          dropped.append(name)
      else:
        out[name] = var
  return out


def _positions(index, wanted):
  out = []
  for w in _entries(wanted):
    k = _find(index, w)
    if k is None:
      raise KeyError(w)
    out.append(k)
  return out


def _entries(data):
  if isinstance(data, list):
    return data
  return [data[k] for k in range(_shape(data)[0])]


def _find(index, value):
  for k, x in enumerate(_entries(index)):
    if isinstance(x, str) or isinstance(value, str):
      if x == value:
        return k
    elif _sa.equal(x, value):
      return k
  return None


def _reindexed(array, dim, positions):
  axis = array.dims.index(dim)
  data = np.stack([_index(array.data, axis, k) for k in positions], axis)
  coords = {}
  for name, var in array._coords.items():
    if dim in var.dims:
      ax = var.dims.index(dim)
      if isinstance(var.data, list):
        var = Variable(var.dims, [var.data[k] for k in positions])
      else:
        var = Variable(
            var.dims,
            np.stack([_index(var.data, ax, k) for k in positions], ax))
    coords[name] = var
  return DataArray(data, coords, array.dims, array.name)


def _align(arrays, join='inner'):
  """Alignment on the index coordinates."""
  arrays = list(arrays)
  dims = []
  for a in arrays:
    for d in a.dims:
      if d not in dims:
        dims.append(d)
  for d in dims:
    users = [a for a in arrays if d in a.dims and d in a._coords]
    if not users:
      continue
    first = users[0]._coords[d]
    if all(_same(first, a._coords[d]) for a in users[1:]):
      continue
    if join == 'exact':
      raise ValueError(f'cannot align objects: indexes along {d} differ')
    keep = []
    for x in _entries(first.data):
      if all(_find(a._coords[d].data, x) is not None for a in users[1:]):
        keep.append(x)
    arrays = [
        _reindexed(a, d, [_find(a._coords[d].data, x) for x in keep])
        if d in a.dims and d in a._coords else a for a in arrays]
  return arrays


def _broadcast_data(array, dims):
  """Data of array laid out along dims (size one where it has none)."""
  order = [array.dims.index(d) for d in dims if d in array.dims]
  data = array.data
  if len(order) > 1:
    data = np.transpose(data, tuple(order))
  shape = [1] * len(dims)
  for k, d in enumerate(dims):
    if d in array.dims:
      shape[k] = _shape(array.data)[array.dims.index(d)]
  if len(order) != len(dims):
    data = np.reshape(data, tuple(shape))
  return data


def _union_dims(arrays):
  dims = []
  for a in arrays:
    for d in a.dims:
      if d not in dims:
        dims.append(d)
  return tuple(dims)


def _result_name(objs):
  names = []
  for o in objs:
    if isinstance(o, DataArray):
      if o.name not in names:
        names.append(o.name)
  return names[0] if len(names) == 1 else None


def _binary(op, a, b):
  if isinstance(b, Dataset):
    return b._map_vars(lambda v: _binary(op, a, v))
  if not isinstance(b, DataArray):
    if isinstance(b, Variable):
      b = DataArray(b.data, {}, b.dims, a.name)
    else:
      if len(np.shape(b)) not in (0, len(a.dims)):
        raise ValueError('operands could not be broadcast together')
      data = op(a.data, b)
      return DataArray(data, a._coords, a.dims, a.name)
  a, b = _align([a, b])
  dims = _union_dims([a, b])
  for d in dims:
    if d in a.dims and d in b.dims and a.sizes[d] != b.sizes[d]:
      raise ValueError(f'sizes along {d} differ')
  data = op(_broadcast_data(a, dims), _broadcast_data(b, dims))
  return DataArray(data, _merge_coords([a._coords, b._coords]), dims,
                   _result_name([a, b]))


def _flip(op):
  return lambda x, y: op(y, x)


class _Coords:

  def __init__(self, owner):
    self._owner = owner

  def __getitem__(self, name):
    if name not in self._owner._coords:
      raise KeyError(name)
    return self._owner._coord(name)

  def __setitem__(self, name, value):
    self._owner._set_coord(name, value)

  def __contains__(self, name):
    return name in self._owner._coords

  def __iter__(self):
    return iter(list(self._owner._coords))

  def __len__(self):
    return len(self._owner._coords)

  def keys(self):
    return self._owner._coords.keys()

  def items(self):
    return [(k, self._owner._coord(k)) for k in self._owner._coords]


class _Common:
  """Operators shared by arrays and datasets."""

  def __add__(self, o):
    return self._bin(operator.add, o)

  def __radd__(self, o):
    return self._bin(_flip(operator.add), o)

  def __sub__(self, o):
    return self._bin(operator.sub, o)

  def __rsub__(self, o):
    return self._bin(_flip(operator.sub), o)

  def __mul__(self, o):
    return self._bin(operator.mul, o)

  def __rmul__(self, o):
    return self._bin(_flip(operator.mul), o)

  def __truediv__(self, o):
    return self._bin(operator.truediv, o)

  def __rtruediv__(self, o):
    return self._bin(_flip(operator.truediv), o)

  def __pow__(self, o):
    return self._bin(operator.pow, o)

  def __rpow__(self, o):
    return self._bin(_flip(operator.pow), o)

  def __lt__(self, o):
    return self._bin(operator.lt, o)

  def __le__(self, o):
    return self._bin(operator.le, o)

  def __gt__(self, o):
    return self._bin(operator.gt, o)

  def __ge__(self, o):
    return self._bin(operator.ge, o)

  def __eq__(self, o):
    return self._bin(operator.eq, o)

  def __ne__(self, o):
    return self._bin(operator.ne, o)

  def __and__(self, o):
    return self._bin(operator.and_, o)

  def __or__(self, o):
    return self._bin(operator.or_, o)

  def __neg__(self):
    return self._unary(lambda x: -x)

  def __invert__(self):
    return self._unary(lambda x: ~x)

  def __abs__(self):
    return self._unary(np.abs)

  def conj(self):
    return self._unary(np.conj)

  def conjugate(self):
    return self._unary(np.conj)

  @property
  def real(self):
    return self._unary(np.real)

  @property
  def imag(self):
    return self._unary(np.imag)

  def astype(self, dtype):
    return self._unary(lambda x: x)

  def isnull(self):
    return self._unary(lambda x: np.zeros(np.shape(x), dtype=bool))

  def notnull(self):
    return self._unary(lambda x: np.ones(np.shape(x), dtype=bool))

  def fillna(self, value):
    return self._unary(lambda x: x)

  def compute(self, **kwargs):
    return self

  def load(self, **kwargs):
    return self

  def persist(self, **kwargs):
    return self

  def chunk(self, chunks=None, **kwargs):
    return self

  def mean(self, dim=None, skipna=None, keep_attrs=None, axis=None):
    return self._reduce(np.mean, dim, axis)

  def sum(self, dim=None, skipna=None, keep_attrs=None, min_count=None,
          axis=None):
    return self._reduce(np.sum, dim, axis)

  def max(self, dim=None, skipna=None, keep_attrs=None, axis=None):
    return self._reduce(np.max, dim, axis)

  def min(self, dim=None, skipna=None, keep_attrs=None, axis=None):
    return self._reduce(np.min, dim, axis)

  def prod(self, dim=None, skipna=None, keep_attrs=None, axis=None):
    return self._reduce(np.prod, dim, axis)

  def std(self, dim=None, skipna=None, keep_attrs=None, axis=None, ddof=0):
    if ddof != 0:
      raise NotImplementedError('ddof')
    return self._reduce(np.std, dim, axis)

  def var(self, dim=None, skipna=None, keep_attrs=None, axis=None, ddof=0):
    if ddof != 0:
      raise NotImplementedError('ddof')
    return self._reduce(np.var, dim, axis)

  def any(self, dim=None, keep_attrs=None, axis=None):
    return self._reduce(np.any, dim, axis)

  def all(self, dim=None, keep_attrs=None, axis=None):
    return self._reduce(np.all, dim, axis)


def _dim_list(dim, dims):
  if dim is None or dim is ...:
    return list(dims)
  if isinstance(dim, str):
    return [dim]
  return list(dim)


class DataArray(_Common):

  def __init__(self, data=None, coords=None, dims=None, name=None, attrs=None):
    if isinstance(data, DataArray):
      if coords is None:
        coords = data._coords
      if dims is None:
        dims = data.dims
      if name is None:
        name = data.name
      if attrs is None:
        attrs = data.attrs
    elif isinstance(data, Variable):
      if dims is None:
        dims = data.dims
    self.data = _asdata(data)
    ndim = len(_shape(self.data))
    if dims is None:
      if isinstance(coords, dict) and len(coords) == ndim and ndim:
        dims = tuple(coords)
      else:
        dims = tuple(f'dim_{k}' for k in range(ndim))
    if isinstance(dims, str):
      dims = (dims,)
    self.dims = tuple(dims)
    if len(self.dims) != ndim:
      raise ValueError('dimensions do not match the number of data dimensions')
    self.name = name
    self.attrs = dict(attrs) if attrs is not None else {}
    self._coords = {}
    if isinstance(coords, (list, tuple)):
      coords = dict(zip(self.dims, coords))
    if coords is not None:
      for k, v in coords.items():
        self._set_coord(k, v)

  # ---- structure

  @property
  def shape(self):
    return _shape(self.data)

  @property
  def ndim(self):
    return len(self.dims)

  @property
  def size(self):
    n = 1
    for s in self.shape:
      n = n * s
    return n

  @property
  def sizes(self):
    return dict(zip(self.dims, self.shape))

  @property
  def values(self):
    return self.data

  @property
  def dtype(self):
    return self.data.dtype

  @property
  def variable(self):
    return Variable(self.dims, self.data, self.attrs)

  @property
  def coords(self):
    return _Coords(self)

  @property
  def T(self):
    return self.transpose()

  def _coord(self, name):
    if name in self._coords:
      var = self._coords[name]
    elif name in self.dims:
      var = Variable((name,), np.arange(self.sizes[name]))
    else:
      raise KeyError(name)
    keep = {k: v for k, v in self._coords.items()
            if all(d in var.dims for d in v.dims)}
    return DataArray(var.data, keep, var.dims, name)

  def _set_coord(self, name, value):
    var = _to_var(name, value)
    for d, n in zip(var.dims, var.shape):
      if d not in self.dims:
        raise ValueError(f'coordinate {name} has dimension {d}, '
                         f'but the array has {self.dims}')
      if n != self.sizes[d]:
        raise ValueError(f'conflicting sizes for dimension {d}')
    self._coords[name] = var

  def __getattr__(self, name):
    if name in self._coords or name in self.dims:
      return self._coord(name)
    raise AttributeError(name)

  def __getitem__(self, key):
    if isinstance(key, str):
      return self._coord(key)
    if isinstance(key, dict):
      return self.isel(key)
    if not isinstance(key, tuple):
      key = (key,)
    if Ellipsis in key:
      k = key.index(Ellipsis)
      fill = len(self.dims) - (len(key) - 1)
      key = key[:k] + (slice(None),) * fill + key[k + 1:]
    if len(key) > len(self.dims):
      raise IndexError('too many indices')
    return self.isel(dict(zip(self.dims, key)))

  def __setitem__(self, key, value):
    if isinstance(key, str):
      self._set_coord(key, value)
    else:
      raise NotImplementedError('assignment into an array')

  def __contains__(self, value):
    raise NotImplementedError('membership of values')

  def __len__(self):
    return self.shape[0]

  def __iter__(self):
    return iter([self[k] for k in range(self.shape[0])])

  def __array__(self, dtype=None):
    return self.data

  def __float__(self):
    return float(self.data)

  def __int__(self):
    return int(self.data)

  def __bool__(self):
    return bool(self.data)

  def item(self):
    return self.data

  def to_numpy(self):
    return self.data

  def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
    if len(inputs) == 1:
      return self._unary(ufunc)
    a, b = inputs
    if isinstance(a, DataArray):
      return _binary(ufunc, a, b)
    return _binary(_flip(ufunc), b, a)

  # ---- operators

  def _bin(self, op, o):
    return _binary(op, self, o)

  def _unary(self, f):
    return DataArray(f(self.data), self._coords, self.dims, self.name)

  def _reduce(self, f, dim, axis=None):
    if axis is not None:
      axes = (axis,) if isinstance(axis, int) else tuple(axis)
      dim = [self.dims[a] for a in axes]
    dims = _dim_list(dim, self.dims)
    for d in dims:
      if d not in self.dims:
        raise ValueError(f'{d} not found in array dimensions {self.dims}')
    keep = tuple(d for d in self.dims if d not in dims)
    axes = tuple(self.dims.index(d) for d in dims)
    data = f(self.data, axis=axes) if axes else self.data
    coords = {k: v for k, v in self._coords.items()
              if not any(d in dims for d in v.dims)}
    return DataArray(data, coords, keep, self.name)

  # ---- reshaping and selection

  def copy(self, deep=True, data=None):
    return DataArray(self.data if data is None else data, self._coords,
                     self.dims, self.name, self.attrs)

  def rename(self, new_name_or_name_dict=None, **names):
    new = new_name_or_name_dict
    if new is None and not names:
      return DataArray(self.data, self._coords, self.dims, None, self.attrs)
    if new is not None and not isinstance(new, dict):
      return DataArray(self.data, self._coords, self.dims, new, self.attrs)
    mapping = dict(new) if new is not None else {}
    mapping.update(names)
    for k in mapping:
      if k not in self.dims and k not in self._coords:
        raise ValueError(f'cannot rename {k}')
    return self._renamed(mapping, self.name)

  def _renamed(self, mapping, name):
    coords = {mapping.get(k, k): Variable(
        tuple(mapping.get(d, d) for d in v.dims), v.data)
              for k, v in self._coords.items()}
    return DataArray(self.data, coords,
                     tuple(mapping.get(d, d) for d in self.dims), name,
                     self.attrs)

  def drop_vars(self, names, errors='raise'):
    if isinstance(names, str):
      names = [names]
    coords = {k: v for k, v in self._coords.items() if k not in names}
    return DataArray(self.data, coords, self.dims, self.name, self.attrs)

  def assign_coords(self, coords=None, **kwargs):
    out = self.copy()
    new = dict(coords) if coords is not None else {}
    new.update(kwargs)
    for k, v in new.items():
      out._set_coord(k, v)
    return out

  def transpose(self, *dims):
    if not dims:
      dims = tuple(reversed(self.dims))
    if ... in dims:
      k = dims.index(...)
      rest = tuple(d for d in self.dims if d not in dims)
      dims = dims[:k] + rest + dims[k + 1:]
    if sorted(dims) != sorted(self.dims):
      raise ValueError(f'{dims} must be a permuted list of {self.dims}')
    data = np.transpose(
        self.data, tuple(self.dims.index(d) for d in dims)) if (
            len(dims) > 1) else self.data
    return DataArray(data, self._coords, dims, self.name, self.attrs)

  def squeeze(self, dim=None, drop=False):
    dims = [d for d in self.dims if self.sizes[d] == 1] if dim is None else (
        _dim_list(dim, self.dims))
    return self.isel({d: 0 for d in dims}, drop=drop)

  def expand_dims(self, dim):
    dims = [dim] if isinstance(dim, str) else list(dim)
    return DataArray(
        np.reshape(self.data, (1,) * len(dims) + tuple(self.shape)),
        self._coords, tuple(dims) + self.dims, self.name)

  def isel(self, indexers=None, drop=False, missing_dims='raise', **kwargs):
    index = dict(indexers) if indexers is not None else {}
    index.update(kwargs)
    out = self
    for d, key in index.items():
      if d not in out.dims:
        raise ValueError(f'dimension {d} does not exist')
      out = out._isel1(d, key, drop)
    return out

  def _isel1(self, d, key, drop):
    if isinstance(key, DataArray):
      key = key.data
    scalar = not isinstance(key, slice) and len(np.shape(key)) == 0
    if scalar:
      key = int(key)
    axis = self.dims.index(d)
    data = _index(self.data, axis, key)
    coords = {}
    for name, var in self._coords.items():
      if d in var.dims:
        if scalar and drop:
          continue
        ax = var.dims.index(d)
        var = Variable(tuple(x for x in var.dims if x != d or not scalar),
                       _index(var.data, ax, key))
      coords[name] = var
    dims = tuple(x for x in self.dims if x != d or not scalar)
    return DataArray(data, coords, dims, self.name, self.attrs)

  def sel(self, indexers=None, method=None, tolerance=None, drop=False,
          **kwargs):
    if method is not None:
      raise NotImplementedError('sel(method=)')
    index = dict(indexers) if indexers is not None else {}
    index.update(kwargs)
    out = self
    for d, label in index.items():
      out = out.isel({d: _locate(out, d, label)}, drop=drop)
    return out

  def roll(self, shifts=None, roll_coords=False, **kwargs):
    moves = dict(shifts) if shifts is not None else {}
    moves.update(kwargs)
    data = self.data
    for d, n in moves.items():
      if d not in self.dims:
        raise ValueError(f'dimension {d} does not exist')
      data = np.roll(data, n, self.dims.index(d))
    coords = self._coords
    if roll_coords:
      coords = {}
      for name, var in self._coords.items():
        x = var.data
        for d, n in moves.items():
          if d in var.dims:
            if isinstance(x, list):
              x = [x[(k - n) % len(x)] for k in range(len(x))]
            else:
              x = np.roll(x, n, var.dims.index(d))
        coords[name] = Variable(var.dims, x)
    return DataArray(data, coords, self.dims, self.name, self.attrs)

  def shift(self, shifts=None, fill_value=None, **kwargs):
    raise NotImplementedError('shift')

  def where(self, cond, other=None):
    if other is None:
      raise NotImplementedError('where without a replacement')
    picked = _binary(lambda x, c: np.where(c, x, 0), self, cond)
    rest = _binary(lambda x, c: np.where(c, 0, x),
                   self * 0 + other, cond)
    return picked + rest

  def dot(self, other, dims=None):
    dims = [d for d in self.dims if d in other.dims] if dims is None else dims
    return (self * other).sum(dims)

  def diff(self, dim, n=1):
    axis = self.dims.index(dim)
    a = _index(self.data, axis, slice(1, None))
    b = _index(self.data, axis, slice(None, -1))
    coords = {k: v for k, v in self._coords.items() if dim not in v.dims}
    out = DataArray(a - b, coords, self.dims, self.name)
    if dim in self._coords:
      out._set_coord(dim, self._coords[dim].data[1:])
    return out

  def quantile(self, q, dim=None):
    if dim is not None:
      raise NotImplementedError('quantile along dimensions')
    q = np.asarray(q)
    data = _sa.quantile(self.name, self.data, q)
    if len(np.shape(q)) == 0:
      return DataArray(data, {'quantile': q}, (), self.name)
    return DataArray(data, {'quantile': q}, ('quantile',), self.name)

  def interp(self, coords=None, method='linear', assume_sorted=False,
             kwargs=None, **coords_kwargs):
    targets = dict(coords) if coords is not None else {}
    targets.update(coords_kwargs)
    names = list(targets)
    points = _align([targets[n] if isinstance(targets[n], DataArray)
                     else DataArray(targets[n], {}, _to_var(n, targets[n]).dims)
                     for n in names])
    dims = _union_dims(points)
    shape = []
    for d in dims:
      shape.append([p.sizes[d] for p in points if d in p.dims][0])
    data = _sa.interp(
        self.transpose(*([d for d in self.dims if d not in names] + names)).data,
        [self._coord(n).data for n in names],
        [np.broadcast_to(_broadcast_data(p, dims), tuple(shape))
         for p in points], method, tuple(shape))
    rest = [d for d in self.dims if d not in names]
    out_coords = {k: v for k, v in self._coords.items()
                  if not any(d in names for d in v.dims)}
    out_coords = _merge_coords(
        [out_coords] + [{k: v for k, v in p._coords.items()} for p in points])
    # The new dimensions take the place of the first interpolated one.
    first = min(self.dims.index(n) for n in names)
    lead = [d for d in rest if self.dims.index(d) < first]
    trail = [d for d in rest if d not in lead]
    out = DataArray(data, {}, tuple(rest) + dims, self.name)
    out = out.transpose(*(tuple(lead) + dims + tuple(trail)))
    for k, v in out_coords.items():
      out._set_coord(k, v)
    for n, p in zip(names, points):
      if n not in out.dims:
        out._set_coord(n, Variable(p.dims, p.data))
    return out


def _locate(obj, d, label):
  """Positions of a label (or an inclusive slice of labels) along d."""
  if d not in obj._coords:
    if d in obj.dims:
      if isinstance(label, slice):
        return slice(label.start,
                     None if label.stop is None else label.stop + 1)
      return label
    raise KeyError(d)
  if d not in obj.dims:
    raise KeyError(f'{d} is not an indexed dimension')
  index = obj._coords[d].data
  if isinstance(label, DataArray):
    label = label.data
  if isinstance(label, slice):
    if label.step is not None:
      raise NotImplementedError('stepped label slice')
    lo, hi = label.start, label.stop
    if isinstance(lo, DataArray):
      lo = lo.data
    if isinstance(hi, DataArray):
      hi = hi.data
    xs = _entries(index)
    start, stop = 0, len(xs)
    if lo is not None:
      while start < len(xs) and xs[start] < lo:
        start += 1
    if hi is not None:
      while stop > 0 and xs[stop - 1] > hi:
        stop -= 1
    return slice(start, max(start, stop))
  if isinstance(label, (list, tuple)):
    return np.asarray(_positions(index, list(label)))
  k = _find(index, label)
  if k is None:
    raise KeyError(label)
  return k


class Dataset(_Common):

  def __init__(self, data_vars=None, coords=None, attrs=None):
    self._vars = {}
    self._coords = {}
    self._sizes = {}
    self.attrs = dict(attrs) if attrs is not None else {}
    if isinstance(data_vars, Dataset):
      coords = data_vars._coords if coords is None else coords
      data_vars = data_vars.data_vars
    if coords is not None:
      for k, v in coords.items():
        if v is None:
          raise ValueError(f'coordinate {k} is None')
        self._add_coord(k, _to_var(k, v))
    if data_vars is not None:
      for k, v in data_vars.items():
        self._add(k, v)

  def _check(self, var):
    for d, n in zip(var.dims, var.shape):
      if d in self._sizes and self._sizes[d] != n:
        raise ValueError(f'conflicting sizes for dimension {d}: '
                         f'{self._sizes[d]} and {n}')
      self._sizes[d] = n

  def _add_coord(self, name, var):
    if name in self._coords and not _same(self._coords[name], var):
      raise MergeError(f'conflicting values for coordinate {name}')
    self._check(var)
    self._coords[name] = var

  def _add(self, name, value):
    if isinstance(value, DataArray):
      for k, v in value._coords.items():
        if k in self._coords and not _same(self._coords[k], v):
          if v.dims == (k,):
            raise NotImplementedError('outer join of different indexes')
          raise MergeError(f'conflicting values for coordinate {k}')
        self._add_coord(k, v)
    var = _to_var(name, value)
    self._check(var)
    if name in var.dims and len(var.dims) == 1:
      self._coords[name] = var
    else:
      self._vars[name] = var

  # ---- mapping

  def _dataarray(self, name):
    if name in self._vars:
      var = self._vars[name]
    elif name in self._coords:
      var = self._coords[name]
    elif name in self._sizes:
      var = Variable((name,), np.arange(self._sizes[name]))
    else:
      raise KeyError(name)
    keep = {k: v for k, v in self._coords.items()
            if all(d in var.dims for d in v.dims)}
    return DataArray(var.data, keep, var.dims, name, var.attrs)

  def _coord(self, name):
    return self._dataarray(name)

  def _set_coord(self, name, value):
    var = _to_var(name, value)
    if name in self._coords:
      del self._coords[name]
    self._check(var)
    self._coords[name] = var

  def __getitem__(self, key):
    if isinstance(key, str):
      return self._dataarray(key)
    if isinstance(key, dict):
      return self.isel(key)
    out = Dataset(attrs=self.attrs)
    used = []
    for k in key:
      out._vars[k] = self._vars[k] if k in self._vars else self._coords[k]
      out._check(out._vars[k])
      used += list(out._vars[k].dims)
    for k, v in self._coords.items():
      if all(d in used for d in v.dims):
        out._coords[k] = v
    return out

  def __setitem__(self, key, value):
    self._add(key, value)

  def __getattr__(self, name):
    if name in self._vars or name in self._coords or name in self._sizes:
      return self._dataarray(name)
    raise AttributeError(name)

  def __contains__(self, name):
    return name in self._vars or name in self._coords

  def __iter__(self):
    return iter(list(self._vars))

  def __len__(self):
    return len(self._vars)

  def keys(self):
    return list(self._vars) + list(self._coords)

  def items(self):
    return [(k, self._dataarray(k)) for k in self._vars]

  def values(self):
    return [self._dataarray(k) for k in self._vars]

  @property
  def data_vars(self):
    return {k: self._dataarray(k) for k in self._vars}

  @property
  def variables(self):
    out = dict(self._vars)
    out.update(self._coords)
    return out

  @property
  def dims(self):
    return dict(self._sizes)

  @property
  def sizes(self):
    return dict(self._sizes)

  @property
  def coords(self):
    return _Coords(self)

  # ---- operations

  def _from(self, arrays, attrs=None):
    """Dataset of the given arrays (conflicting scalar coordinates dropped)."""
    out = Dataset(attrs=attrs)
    coords = _merge_coords([a._coords for a in arrays.values()])
    for k, v in coords.items():
      out._add_coord(k, v)
    for k, a in arrays.items():
      out._vars[k] = Variable(a.dims, a.data, a.attrs)
      out._check(out._vars[k])
    return out

  def _map_vars(self, f):
    return self._from({k: f(self._dataarray(k)) for k in self._vars})

  def map(self, func, keep_attrs=None, args=(), **kwargs):
    return self._from({k: func(self._dataarray(k), *args, **kwargs)
                       for k in self._vars}, self.attrs if keep_attrs else None)

  def apply(self, func, keep_attrs=None, args=(), **kwargs):
    return self.map(func, keep_attrs, args, **kwargs)

  def _bin(self, op, o):
    if isinstance(o, Dataset):
      return self._from({k: _binary(op, self._dataarray(k), o._dataarray(k))
                         for k in self._vars if k in o._vars})
    return self._map_vars(lambda v: _binary(op, v, o))

  def _unary(self, f):
    return self._map_vars(lambda v: v._unary(f))

  def _reduce(self, f, dim, axis=None):
    dims = _dim_list(dim, self._sizes)
    for d in dims:
      if d not in self._sizes:
        raise ValueError(f'{d} not found in dataset dimensions')
    return self._map_vars(
        lambda v: v._reduce(f, [d for d in dims if d in v.dims]))

  def _kept(self, f):
    """Applies f to the variables and to the coordinates."""
    out = Dataset(attrs=self.attrs)
    for k in self._coords:
      a = f(self._dataarray(k))
      if a is not None:
        out._add_coord(k, Variable(a.dims, a.data))
    for k in self._vars:
      a = f(self._dataarray(k))
      out._vars[k] = Variable(a.dims, a.data, a.attrs)
      out._check(out._vars[k])
    return out

  def isel(self, indexers=None, drop=False, missing_dims='raise', **kwargs):
    index = dict(indexers) if indexers is not None else {}
    index.update(kwargs)
    for d in index:
      if d not in self._sizes:
        raise ValueError(f'dimension {d} does not exist')

    def pick(a):
      here = {d: k for d, k in index.items() if d in a.dims}
      if drop and a.name in self._coords and any(
          not isinstance(k, slice) for k in here.values()):
        return None
      return a.isel(here, drop=drop)

    return self._kept(pick)

  def sel(self, indexers=None, method=None, tolerance=None, drop=False,
          **kwargs):
    if method is not None:
      raise NotImplementedError('sel(method=)')
    index = dict(indexers) if indexers is not None else {}
    index.update(kwargs)
    return self.isel({d: _locate(self, d, label) for d, label in index.items()},
                     drop=drop)

  @property
  def _dimnames(self):
    return tuple(self._sizes)

  def roll(self, shifts=None, roll_coords=False, **kwargs):
    moves = dict(shifts) if shifts is not None else {}
    moves.update(kwargs)

    def move(a):
      if a.name in self._coords and not roll_coords:
        return a
      here = {d: n for d, n in moves.items() if d in a.dims}
      return a.roll(here, roll_coords=roll_coords)

    return self._kept(move)

  def rename(self, name_dict=None, **names):
    mapping = dict(name_dict) if name_dict is not None else {}
    mapping.update(names)
    for k in mapping:
      if k not in self._vars and k not in self._coords and \
          k not in self._sizes:
        raise ValueError(f'cannot rename {k}')
    out = Dataset(attrs=self.attrs)
    for k, v in self._coords.items():
      out._add_coord(mapping.get(k, k), Variable(
          tuple(mapping.get(d, d) for d in v.dims), v.data))
    for k, v in self._vars.items():
      w = Variable(tuple(mapping.get(d, d) for d in v.dims), v.data, v.attrs)
      out._vars[mapping.get(k, k)] = w
      out._check(w)
    return out

  def transpose(self, *dims):
    return self._kept(lambda a: a.transpose(
        *[d for d in (dims or tuple(reversed(a.dims))) if d in a.dims]))

  def assign(self, variables=None, **kwargs):
    out = self.copy()
    new = dict(variables) if variables is not None else {}
    new.update(kwargs)
    for k, v in new.items():
      out._add(k, v(out) if callable(v) else v)
    return out

  def assign_coords(self, coords=None, **kwargs):
    out = self.copy()
    new = dict(coords) if coords is not None else {}
    new.update(kwargs)
    for k, v in new.items():
      out._set_coord(k, v)
    return out

  def copy(self, deep=False, data=None):
    out = Dataset(attrs=self.attrs)
    out._vars = dict(self._vars)
    out._coords = dict(self._coords)
    out._sizes = dict(self._sizes)
    return out

  def drop_vars(self, names, errors='raise'):
    if isinstance(names, str):
      names = [names]
    out = self.copy()
    out._vars = {k: v for k, v in self._vars.items() if k not in names}
    out._coords = {k: v for k, v in self._coords.items() if k not in names}
    return out

  def quantile(self, q, dim=None):
    return self._map_vars(lambda v: v.quantile(q, dim))

  def to_array(self, dim='variable', name=None):
    arrays = [self._dataarray(k) for k in self._vars]
    dims = _union_dims(arrays)
    data = np.stack([np.broadcast_to(
        _broadcast_data(a, dims),
        tuple(self._sizes[d] for d in dims)) for a in arrays])
    out = DataArray(data, self._coords, (dim,) + dims, name)
    out._set_coord(dim, list(self._vars))
    return out


def ones_like(other, dtype=None):
  return other._unary(lambda x: np.ones(np.shape(x)))


def zeros_like(other, dtype=None):
  return other._unary(lambda x: np.zeros(np.shape(x)))


def full_like(other, fill_value, dtype=None):
  return other._unary(lambda x: np.full(np.shape(x), fill_value))


def concat(objs, dim, **kwargs):
  objs = list(objs)
  first = objs[0]
  if isinstance(first, Dataset):
    out = Dataset(attrs=first.attrs)
    for k in first._coords:
      vs = [o._coords[k] for o in objs]
      if dim in vs[0].dims:
        if _is_labels(vs[0].data):
          flat = []
          for v in vs:
            flat = flat + v.data
          out._add_coord(k, Variable(vs[0].dims, flat))
        else:
          out._add_coord(k, Variable(vs[0].dims, np.concatenate(
              [v.data for v in vs], vs[0].dims.index(dim))))
      elif all(_same(vs[0], v) for v in vs):
        out._add_coord(k, vs[0])
      elif vs[0].dims == (k,):
        raise NotImplementedError('outer join of different indexes')
      else:
        out._add_coord(k, Variable((dim,) + vs[0].dims,
                                   np.stack([v.data for v in vs])))
    for k in first._vars:
      arrays = [o._dataarray(k) for o in objs]
      a = _concat_arrays(arrays, dim)
      out._vars[k] = Variable(a.dims, a.data, arrays[0].attrs)
      out._check(out._vars[k])
    return out
  out = _concat_arrays(objs, dim)
  coords = {}
  for k, v in first._coords.items():
    vs = [o._coords[k] for o in objs]
    if dim in v.dims:
      coords[k] = Variable(v.dims, np.concatenate(
          [w.data for w in vs], v.dims.index(dim)))
    elif all(_same(v, w) for w in vs):
      coords[k] = v
  for k, v in coords.items():
    out._set_coord(k, v)
  return out


def _concat_arrays(arrays, dim):
  dims = arrays[0].dims
  data = [a.transpose(*dims).data if a.dims != dims else a.data
          for a in arrays]
  if dim in dims:
    return DataArray(np.concatenate(data, dims.index(dim)), {}, dims,
                     _result_name(arrays))
  return DataArray(np.stack(data), {}, (dim,) + dims, _result_name(arrays))


def merge(objects, compat='no_conflicts', join='outer'):
  out = Dataset()
  for o in objects:
    if isinstance(o, DataArray):
      out._add(o.name, o)
    else:
      for k, v in o.data_vars.items():
        out._add(k, v)
  return out


def dot(*arrays, dim=None, dims=None):
  dim = dim if dim is not None else dims
  out = arrays[0]
  for a in arrays[1:]:
    out = out * a
  if dim is None:
    dim = [d for d in out.dims if all(d in a.dims for a in arrays)]
  return out.sum(dim)


def where(cond, x, y):
  objs = [o for o in (cond, x, y) if isinstance(o, DataArray)]
  return apply_ufunc(np.where, cond, x, y)


def apply_ufunc(func, *args, input_core_dims=None, output_core_dims=((),),
                exclude_dims=(), vectorize=False, join='exact',
                dataset_join='exact', dataset_fill_value=None, keep_attrs=None,
                kwargs=None, dask='forbidden', output_dtypes=None,
                output_sizes=None, meta=None, dask_gufunc_kwargs=None,
                on_missing_core_dim='raise'):
  if vectorize:
    raise NotImplementedError('vectorize')
  if input_core_dims is None:
    input_core_dims = [()] * len(args)
  if len(input_core_dims) != len(args):
    raise ValueError('input_core_dims must have one entry per argument')
  opts = dict(input_core_dims=input_core_dims,
              output_core_dims=output_core_dims, join=join, kwargs=kwargs)
  datasets = [a for a in args if isinstance(a, Dataset)]
  if datasets:
    arrays = {}
    for k in datasets[0]._vars:
      if not all(k in d._vars for d in datasets):
        raise ValueError('datasets have different data variables')
      arrays[k] = apply_ufunc(
          func, *[a._dataarray(k) if isinstance(a, Dataset) else a
                  for a in args], **opts)
    return datasets[0]._from(arrays)
  pairs = [(a, tuple(core)) for a, core in zip(args, input_core_dims)]
  labelled = [a for a, _ in pairs if isinstance(a, DataArray)]
  aligned = iter(_align(labelled, 'exact' if join == 'exact' else 'inner'))
  pairs = [(next(aligned) if isinstance(a, DataArray) else a, core)
           for a, core in pairs]
  broadcast = []
  for a, core in pairs:
    if isinstance(a, DataArray):
      for d in core:
        if d not in a.dims:
          raise ValueError(f'operand lacks the core dimension {d}')
      for d in a.dims:
        if d not in core and d not in broadcast:
          broadcast.append(d)
  for a, core in pairs:
    for d in core:
      if d in broadcast:
        raise ValueError(f'core dimension {d} is also a loop dimension')
  inputs = []
  for a, core in pairs:
    if isinstance(a, DataArray):
      own = [d for d in broadcast if d in a.dims]
      # Leading missing dimensions are left to numpy broadcasting.
      lead = 0
      while lead < len(broadcast) and broadcast[lead] not in a.dims:
        lead += 1
      inputs.append(_broadcast_data(a, tuple(broadcast[lead:]) + core))
    else:
      inputs.append(a)
  result = func(*inputs, **(kwargs or {}))
  if len(output_core_dims) != 1:
    raise NotImplementedError('several outputs')
  out_core = tuple(output_core_dims[0])
  dims = tuple(broadcast) + out_core
  if len(_shape(_asdata(result))) != len(dims):
    raise ValueError('applied function returned data with an unexpected '
                     'number of dimensions')
  dropped = []
  for _, core in pairs:
    for d in core:
      if d not in out_core:
        dropped.append(d)
  arrays = [a for a, _ in pairs if isinstance(a, DataArray)]
  coords = {k: v for k, v in _merge_coords(
      [a._coords for a in arrays]).items()
            if not any(d in dropped for d in v.dims)}
  return DataArray(result, coords, dims, _result_name(arrays))
