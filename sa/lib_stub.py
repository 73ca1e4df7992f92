"""Intrinsics used by the abstract libraries (sa/stubs) and pandas."""
from fractions import Fraction
import itertools

import numpy as np

from . import arr as A
from . import expr as X
from . import models as M
from .arr import Arr
from .expr import Expr, Undecided
from .interp import raise_py


def entries(v):
  """Flat list of the entries of a constant-shaped array."""
  v = M.to_arr(v)
  if v.shape is None or not all(isinstance(d, int) for d in v.shape):
    raise Undecided('entries of an array of abstract size')
  return [A.at_index(v, ix) for ix in itertools.product(*map(range, v.shape))]


def sign(e):
  e = X.lift(M.pk(e)) if not isinstance(e, Expr) else e
  if not e.t:
    return 0
  s = X.sign_of(e)
  if s is None:
    raise Undecided(f'sign of {X.show(e)[:80]}')
  return s


def equal(ip, a, kw):
  x, y = M.to_arr(a[0]), M.to_arr(a[1])
  if x.shape != y.shape:
    return False
  return all(sign(X.add(p, X.scale(q, -1))) == 0 for p, q in zip(entries(x), entries(y)))


def quantile(ip, a, kw):
  name, data, q = a
  q = M.to_arr(q)
  k = sum(1 for e in ip.events if e[0] == 'quantile')
  out = A.field(f'quantile{k}', q.shape, None)
  ip.events.append(('quantile', name, data, q, out))
  return out


def interp(ip, a, kw):
  data, grid, points, method, shape = a
  data = M.to_arr(data)
  k = sum(1 for e in ip.events if e[0] == 'interp')
  lead = data.shape[:len(data.shape) - len(grid)]
  out = A.field(f'interp{k}', tuple(lead) + tuple(shape), None)
  ip.events.append(('interp', data, grid, points, method, out))
  return out




def cut(ip, a, kw):
  names = ('x', 'bins', 'right', 'labels')
  v = dict(zip(names, a))
  v.update(kw)
  if v.get('labels', True) is not False or set(v) - set(names) or \
      isinstance(v['bins'], int):
    raise Undecided('pandas.cut with labels')
  right = v.get('right', True)
  x, bins = M.to_arr(v['x']), entries(v['bins'])
  if len(x.shape) != 1:
    raise_py('ValueError', 'Input array must be 1 dimensional')
  for p, q in zip(bins, bins[1:]):
    if sign(X.add(q, X.scale(p, -1))) <= 0:
      raise_py('ValueError', 'bins must increase monotonically.')
  out = []
  for e in entries(x):
    where = None
    for j, (p, q) in enumerate(zip(bins, bins[1:])):
      lo, hi = sign(X.add(e, X.scale(p, -1))), sign(X.add(e, X.scale(q, -1)))
      if (lo > 0 and hi <= 0) if right else (lo >= 0 and hi < 0):
        where = j
    out.append(X.sym('nan') if where is None else X.const(where))
  return A.from_entries(out, (len(out),))


TABLE = {'_sa.equal': equal, '_sa.quantile': quantile, '_sa.interp': interp,
         'pandas.cut': cut}
