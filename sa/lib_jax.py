"""Models of jax (trees, control flow, vmap, random, solvers) and haiku."""
from fractions import Fraction
import functools

import numpy as np

from . import arr as A
from . import expr as X
from . import interp as IN
from . import models as M
from . import lib_np as N
from .arr import Arr
from .expr import Expr, Undecided
from .interp import (Bound, ClassV, Ext, Func, Inst, Partial, Phi, PyFn,
                     raise_py)

JAX = {}
UNROLL = 64


def jx(*names):
  def deco(f):
    for n in names:
      JAX[n] = f
    return f
  return deco


arg = N.arg


# ---------------------------------------------------------------- pytrees

class _Leaf:
  def __repr__(self):
    return '*'


LEAF = ('leaf',)


class TreeDef:

  def __init__(self, d):
    self.d = d

  def __eq__(self, o):
    return isinstance(o, TreeDef) and self.d == o.d

  def __hash__(self):
    return hash(str(self.d))

  def __repr__(self):
    return f'PyTreeDef({self.d})'

  def sa_attr(self, ip, name):
    if name == 'num_leaves':
      return count(self.d)
    if name == 'unflatten':
      return PyFn(lambda ip_, a, kw: tree_unflatten(ip, self.d,
                                                    list(ip.iterate(a[0]))))
    raise Undecided(f'treedef.{name}')


def count(d):
  if d == LEAF:
    return 1
  if d == ('none',):
    return 0
  return sum(count(x) for x in d[-1])


def reg_of(ip, v):
  for cls, fl, un in ip.pytree_reg:
    if isinstance(v, Inst) and v.cls is cls:
      return cls, fl, un
  return None


def tree_flatten(ip, v, is_leaf=None):
  """(leaves, structure)."""
  if is_leaf is not None:
    c = ip.truth(ip.call(is_leaf, [v], {}))
    if c is True:
      return [v], LEAF
  if v is None:
    return [], ('none',)
  if isinstance(v, (tuple, list)):
    return _many(ip, v, 'tuple' if isinstance(v, tuple) else 'list', None,
                 is_leaf)
  if isinstance(v, dict):
    ks = sorted(v, key=str)
    return _many(ip, [v[k] for k in ks], 'dict', tuple(ks), is_leaf)
  if isinstance(v, M.TMVec):
    return _many(ip, [v.tree], 'tmvec', None, is_leaf)
  if isinstance(v, np.ndarray):
    for cls, fl, un in ip.pytree_reg:
      if any(isinstance(b, Ext) and b.name == 'numpy.ndarray'
             for b in cls.mro()):
        ch, aux = ip.iterate(ip.call(fl, [v], {}))
        return _many(ip, list(ip.iterate(ch)), 'reg', (cls, aux), is_leaf)
  if isinstance(v, Inst):
    if '__tuple__' in v.attrs:
      return _many(ip, v.attrs['__tuple__'], 'ntuple', v.cls, is_leaf)
    r = reg_of(ip, v)
    if r is not None:
      ch, aux = ip.iterate(ip.call(r[1], [v], {}))
      return _many(ip, list(ip.iterate(ch)), 'reg', (v.cls, aux), is_leaf)
    if v.cls.pytree:
      ch, aux = ip.iterate(ip.call(ip.getattr(v, 'tree_flatten'), [], {}))
      return _many(ip, list(ip.iterate(ch)), 'inst', (v.cls, aux), is_leaf)
  return [v], LEAF


def _many(ip, xs, kind, aux, is_leaf):
  leaves, defs = [], []
  for x in xs:
    l, d = tree_flatten(ip, x, is_leaf)
    leaves += l
    defs.append(d)
  return leaves, (kind, aux, tuple(defs))


def tree_unflatten(ip, d, leaves):
  leaves = list(leaves)
  if count(d) != len(leaves):
    raise_py('ValueError', 'too many or too few leaves')
  it = iter(leaves)

  def rec(d):
    if d == LEAF:
      return next(it)
    if d == ('none',):
      return None
    kind, aux, defs = d
    ch = [rec(x) for x in defs]
    if kind == 'tuple':
      return tuple(ch)
    if kind == 'list':
      return ch
    if kind == 'dict':
      return dict(zip(aux, ch))
    if kind == 'tmvec':
      return M.TMVec(ch[0])
    if kind == 'ntuple':
      return ip.call(aux, ch, {})
    cls, ax = aux
    if kind == 'reg':
      un = [u for c, _, u in ip.pytree_reg if c is cls][0]
      return ip.call(un, [ax, tuple(ch)], {})
    return ip.call(ip.getattr(cls, 'tree_unflatten'), [ax, tuple(ch)], {})
  return rec(d)


def prefix_flatten(ip, d, v):
  """Flattens v up to structure d."""
  if d == LEAF:
    return [v]
  if d == ('none',):
    if v is not None:
      raise_py('ValueError', 'expected None')
    return []
  kind, aux, defs = d
  if kind in ('tuple', 'list'):
    want = tuple if kind == 'tuple' else list
    if not isinstance(v, want) or len(v) != len(defs):
      raise_py('ValueError', 'tree structures do not match')
    ch = list(v)
  elif kind == 'dict':
    if not isinstance(v, dict) or tuple(sorted(v, key=str)) != aux:
      raise_py('ValueError', 'dict keys do not match')
    ch = [v[k] for k in aux]
  elif kind == 'tmvec':
    if not isinstance(v, M.TMVec):
      raise_py('ValueError', 'tree structures do not match')
    ch = [v.tree]
  elif kind == 'ntuple':
    if not isinstance(v, Inst) or v.cls is not aux:
      raise_py('ValueError', 'tree structures do not match')
    ch = list(v.attrs['__tuple__'])
  else:
    cls, ax = aux
    if isinstance(v, np.ndarray):
      l2, d2 = tree_flatten(ip, v)
      if d2[:2] != d[:2]:
        raise_py('ValueError', 'tree structures do not match')
      return l2
    if not isinstance(v, Inst) or v.cls is not cls:
      raise_py('ValueError', f'tree structures do not match: {v!r}')
    r = reg_of(ip, v)
    f = ip.call(r[1], [v], {}) if r else ip.call(
        ip.getattr(v, 'tree_flatten'), [], {})
    ch, ax2 = ip.iterate(f)
    ch = list(ip.iterate(ch))
    if ax2 != ax:
      raise_py('ValueError', 'tree metadata do not match')
  out = []
  for x, dd in zip(ch, defs):
    out += prefix_flatten(ip, dd, x)
  return out


def tree_map(ip, f, *trees, is_leaf=None):
  l0, d = tree_flatten(ip, trees[0], is_leaf)
  rest = [prefix_flatten(ip, d, t) for t in trees[1:]]
  return tree_unflatten(ip, d, [ip.call(f, list(xs), {})
                                for xs in zip(l0, *rest)])


@jx('jax.tree.map', 'jax.tree_util.tree_map', 'jax.tree_map',
    'jax.tree_util.tree_multimap', 'tree_math.map')
def _tm(ip, a, kw):
  return tree_map(ip, a[0], *a[1:], is_leaf=kw.get('is_leaf'))


@jx('jax.tree.flatten', 'jax.tree_util.tree_flatten', 'jax.tree_flatten')
def _tf(ip, a, kw):
  l, d = tree_flatten(ip, a[0], arg(a, kw, 1, 'is_leaf'))
  return (l, TreeDef(d))


@jx('jax.tree.unflatten', 'jax.tree_util.tree_unflatten', 'jax.tree_unflatten')
def _tu(ip, a, kw):
  return tree_unflatten(ip, a[0].d, list(ip.iterate(a[1])))


@jx('jax.tree.leaves', 'jax.tree_util.tree_leaves', 'jax.tree_leaves')
def _tl(ip, a, kw):
  return tree_flatten(ip, a[0], arg(a, kw, 1, 'is_leaf'))[0]


@jx('jax.tree.structure', 'jax.tree_util.tree_structure', 'jax.tree_structure')
def _ts(ip, a, kw):
  return TreeDef(tree_flatten(ip, a[0])[1])


@jx('jax.tree.reduce', 'jax.tree_util.tree_reduce')
def _tr(ip, a, kw):
  ls = tree_flatten(ip, a[1])[0]
  acc = a[2] if len(a) > 2 else ls.pop(0)
  for x in ls:
    acc = ip.call(a[0], [acc, x], {})
  return acc


@jx('jax.tree.all', 'jax.tree_util.tree_all')
def _ta(ip, a, kw):
  return ip.call(M.BUILTINS['all'], [tree_flatten(ip, a[0])[0]], {})


@jx('jax.tree_util.register_pytree_node_class')
def _rpc(ip, a, kw):
  a[0].pytree = True
  return a[0]


@jx('jax.tree_util.register_pytree_node')
def _rp(ip, a, kw):
  ip.pytree_reg.append((a[0], a[1], a[2]))


# tree_math -------------------------------------------------------------------

def _wrapv(v):
  return M.TMVec(v)


@jx('tree_math.Vector')
def _vec(ip, a, kw):
  return M.TMVec(a[0])


def _vnames(ip, f, nums):
  """Parameter names of positions nums of function f."""
  g, off = f, 0
  while isinstance(g, (Partial, Bound)):
    off += 1 if isinstance(g, Bound) else len(g.args)
    g = g.func
  if not isinstance(g, Func):
    return set()
  ps = [x.arg for x in g.node.args.posonlyargs + g.node.args.args][off:]
  return {ps[i] for i in nums if i < len(ps)}


def _argspec(ip, a, kw):
  f = a[0]
  nums = arg(a, kw, 1, 'vector_argnums')
  names = arg(a, kw, 2, 'vector_argnames')
  if nums is None and names is None:
    return f, None, None
  nums = [] if nums is None else (
      [nums] if isinstance(nums, int) else list(nums))
  names = set() if names is None else (
      {names} if isinstance(names, str) else set(names))
  return f, set(nums), names | _vnames(ip, f, nums)


@jx('tree_math.unwrap')
def _unwrap(ip, a, kw):
  """Function on trees -> function on Vectors."""
  f, nums, names = _argspec(ip, a, kw)
  out = kw.get('out_vectors', True)

  def tree(v):
    if not isinstance(v, M.TMVec):
      raise_py('AttributeError', 'unwrap: argument is not a Vector')
    return v.tree

  def g(ip_, b, kw_):
    b = [tree(x) if nums is None or i in nums else x for i, x in enumerate(b)]
    kw_ = {k: tree(x) if names is None or k in names else x
           for k, x in kw_.items()}
    r = ip.call(f, b, kw_)
    return M.TMVec(r) if out is True else r
  return PyFn(g, 'tree_math.unwrap')


@jx('tree_math.wrap')
def _wrap(ip, a, kw):
  f, nums, names = _argspec(ip, a, kw)

  def unv(r):
    if isinstance(r, M.TMVec):
      return r.tree
    if isinstance(r, (tuple, list)):
      return type(r)(unv(x) for x in r)
    return r

  def g(ip_, b, kw_):
    b = [M.TMVec(x) if nums is None or i in nums else x
         for i, x in enumerate(b)]
    kw_ = {k: M.TMVec(x) if names is None or k in names else x
           for k, x in kw_.items()}
    return unv(ip.call(f, b, kw_))
  return PyFn(g, 'tree_math.wrap')


# ---------------------------------------------------------------- control flow

def leading(ip, xs):
  for l in tree_flatten(ip, xs)[0]:
    if isinstance(l, Arr) and l.shape:
      return l.shape[0]
  return None


def scan(ip, a, kw):
  f, init = a[0], arg(a, kw, 1, 'init')
  xs = arg(a, kw, 2, 'xs')
  length = arg(a, kw, 3, 'length')
  h = getattr(ip, 'scan_hook', None)
  if h is not None:
    r = h(ip, f, init, xs, length, kw)
    if r is not NotImplemented:
      return r
  n = leading(ip, xs) if xs is not None else None
  if n is None and length is not None:
    n = A.dim(M.as_int(length))
  elif n is not None and length is not None and \
      not A.same_dim(n, A.dim(M.as_int(length))):
    raise_py('ValueError', 'scan got length different from the leading axis')
  if isinstance(n, int) and n <= UNROLL:
    carry, ys = init, []
    xl, xd = tree_flatten(ip, xs)
    order = range(n)
    if kw.get('reverse'):
      order = reversed(order)
    d0 = tree_flatten(ip, init)[1]
    for i in order:
      x = tree_unflatten(ip, xd, [ip.getitem(l, i) for l in xl])
      r = list(ip.iterate(ip.call(f, [carry, x], {})))
      carry = r[0]
      if tree_flatten(ip, carry)[1] != d0:
        raise_py('TypeError', 'scan carry structure changed')
      ys.append(r[1])
    if kw.get('reverse'):
      ys.reverse()
    if not ys:
      h0 = _abstract_y(ip, f, init, xs)
      return (carry, h0)
    return (carry, stack_trees(ip, ys))
  return scan_summary(ip, f, init, xs, n)


def _abstract_y(ip, f, init, xs):
  return None


def scan_summary(ip, f, init, xs, n):
  """Symbolic-length scan: body analysed once on an abstract carry."""
  l0, d0 = tree_flatten(ip, init)
  tag = X.sym(f'scan#{len(ip.events)}')
  carry = [havoc('carry', x, tag, i) for i, x in enumerate(l0)]
  xl, xd = tree_flatten(ip, xs)
  k = X.sym(f'scanidx#{len(ip.events)}', nonneg=True, integer=True)
  x = tree_unflatten(ip, xd, [ip.getitem(l, k) for l in xl])
  cin = tree_unflatten(ip, d0, carry)
  r = list(ip.iterate(ip.call(f, [cin, x], {})))
  lo, do = tree_flatten(ip, r[0])
  if do != d0:
    raise_py('TypeError', 'scan carry structure changed')
  ip.events.append(('scan', f, init, xs, n, cin, r[0], r[1]))
  final = [havoc('final', x, tag, i) for i, x in enumerate(l0)]
  yl, yd = tree_flatten(ip, r[1])
  ys = []
  for i, y in enumerate(yl):
    y = M.to_arr(y) if not isinstance(y, Arr) else y
    if y.shape is None:
      ys.append(M.opaque('scan.ys', tag, i, y))
    else:
      ys.append(Arr.uniform((n,) + tuple(y.shape), X.of_atom(X.mkatom(
          'call', ('scan.ys', tag, i) + tuple(
              X.idx(j) for j in range(len(y.shape) + 1)), real=True))))
  return (tree_unflatten(ip, d0, final), tree_unflatten(ip, yd, ys))


def havoc(kind, x, tag, i):
  if not isinstance(x, (Arr, Expr, int, Fraction, float)):
    return x
  x = M.to_arr(x)
  if x.shape is None:
    return M.opaque('scan.' + kind, tag, i)
  if x.shape == ():
    return M.opaque('scan.' + kind, tag, i).scalar()
  return Arr.uniform(x.shape, X.of_atom(X.mkatom(
      'call', ('scan.' + kind, tag, i) + tuple(X.idx(j) for j in range(
          len(x.shape))), real=True)), x.dtype)


def stack_trees(ip, ys):
  l0, d = tree_flatten(ip, ys[0])
  cols = [[x] for x in l0]
  for y in ys[1:]:
    for c, x in zip(cols, prefix_flatten(ip, d, y)):
      c.append(x)
  return tree_unflatten(ip, d, [N.call(ip, 'stack', [c], {}) for c in cols])


JAX['jax.lax.scan'] = scan


@jx('haiku.scan')
def _hkscan(ip, a, kw):
  return scan(ip, a, kw)


@jx('jax.lax.fori_loop')
def _fori(ip, a, kw):
  lo, hi, f, v = a[:4]
  lo, hi = M.as_int(lo), M.as_int(hi)
  if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= UNROLL:
    for i in range(lo, hi):
      v = ip.call(f, [i, v], {})
    return v
  n = A.dim(X.add(A.ex(hi), X.scale(A.ex(lo), -1)))
  ks = N.call(ip, 'arange', [lo, hi], {})
  g = PyFn(lambda ip_, b, kw_: (ip.call(f, [b[1], b[0]], {}), None),
           'fori_loop')
  return scan_summary(ip, g, v, ks, n)[0]


@jx('jax.lax.while_loop')
def _while(ip, a, kw):
  v = a[2]
  for _ in range(UNROLL):
    c = ip.truth(ip.call(a[0], [v], {}))
    if c is False:
      return v
    if c is not True:
      raise Undecided('while_loop on an abstract condition')
    v = ip.call(a[1], [v], {})
  raise Undecided('while_loop too long')


@jx('jax.lax.cond')
def _cond(ip, a, kw):
  c = ip.truth(a[0])
  ops = list(a[3:])
  if c is True:
    return ip.call(a[1], ops, {})
  if c is False:
    return ip.call(a[2], ops, {})
  return ip.ite(c, ip.call(a[1], ops, {}), ip.call(a[2], ops, {}))


@jx('jax.lax.select')
def _select(ip, a, kw):
  return N.call(ip, 'where', a, {})


# ---------------------------------------------------------------- vmap

_vb = [0]


def vmap_call(ip, f, in_axes, out_axes, args, kwargs=None):
  if not isinstance(in_axes, (tuple, list)):
    in_axes = [in_axes] * len(args)
  flat, defs, axes = [], [], []
  for x, ax in zip(args, in_axes):
    l, d = tree_flatten(ip, x)
    defs.append((d, len(l)))
    if isinstance(ax, (tuple, list, dict)) or isinstance(ax, Inst):
      ax_l = prefix_axes(ip, d, ax)
    else:
      ax_l = [ax] * len(l)
    flat += l
    axes += ax_l
  n = None
  arrs = []
  for x, ax in zip(flat, axes):
    if ax is None:
      arrs.append(x)
      continue
    x = M.to_arr(x)
    arrs.append(x)
    if x.shape is None:
      continue
    if not x.shape:
      raise_py('ValueError', 'vmap over a scalar')
    m = x.shape[N._na(ax, x.ndim)]
    if n is None:
      n = m
    elif not A.same_dim(n, m):
      raise_py('ValueError', f'vmap got inconsistent sizes: {n} {m}')
  if n is None:
    if any(ax is not None for ax in axes):
      return M.opaque('vmap', f, tuple(args))
    raise_py('ValueError', 'vmap needs a mapped argument')

  def run(i):
    xs = []
    for x, ax in zip(arrs, axes):
      if ax is None:
        xs.append(x)
      elif x.shape is None:
        xs.append(M.opaque('vmap.slice', x, ax, i))
      else:
        k = N._na(ax, x.ndim)
        if not isinstance(i, int) and x.br[k]:
          x = A.box_axis(x, k)
        xs.append(M.pk(A.take_index(x, k, i)))
    out, p = [], 0
    for d, m in defs:
      out.append(tree_unflatten(ip, d, xs[p:p + m]))
      p += m
    return ip.call(f, out, kwargs or {})
  if isinstance(n, int) and (n <= 6 or n <= 64 and constants(arrs, axes)):
    rs = [run(i) for i in range(n)]
    l0, d = tree_flatten(ip, rs[0])
    cols = [[x] for x in l0]
    for y in rs[1:]:
      for c, x in zip(cols, prefix_flatten(ip, d, y)):
        c.append(x)
    oax = out_list(ip, d, out_axes, len(cols))
    return tree_unflatten(ip, d, [
        N.call(ip, 'stack', [c], {'axis': oa}) if oa is not None else c[0]
        for c, oa in zip(cols, oax)])
  _vb[0] += 1
  v = X.vb(_vb[0])
  r = run(v)
  ls, d = tree_flatten(ip, r)
  oax = out_list(ip, d, out_axes, len(ls))
  out = []
  for x, oa in zip(ls, oax):
    if oa is None:
      out.append(x)
      continue
    x = M.to_arr(x)
    if x.shape is None:
      out.append(M.opaque('vmap.out', x, n))
      continue
    ax = oa % (x.ndim + 1)
    y = A.expand_dims(x, ax)
    s = list(y.shape)
    s[ax] = n
    y = A.broadcast_to(y, tuple(s))
    mp = {next(iter(v.atoms())).id: X.idx(ax)}
    out.append(A.unbox(Arr(y.shape, y.br, {k: X.subst(e, mp)
                                           for k, e in y.cells.items()},
                           y.dtype)))
  return tree_unflatten(ip, d, out)


def constants(arrs, axes):
  """Whether every mapped array is made of constants."""
  return all(x.shape is not None and all(e.is_const() for e in x.cells.values())
             for x, ax in zip(arrs, axes) if ax is not None)


def out_list(ip, d, oa, n):
  if isinstance(oa, (tuple, list)):
    return prefix_axes(ip, d, oa)
  return [oa] * n


def prefix_axes(ip, d, ax):
  """Expands a prefix tree of axes to one per leaf of d."""
  if ax is None or isinstance(ax, int):
    return [ax] * count(d)
  kind, aux, defs = d
  if isinstance(ax, (tuple, list)):
    return [y for x, dd in zip(ax, defs) for y in prefix_axes(ip, dd, x)]
  if isinstance(ax, dict):
    return [y for k, dd in zip(aux, defs) for y in prefix_axes(ip, dd, ax[k])]
  l, _ = tree_flatten(ip, ax)
  return [y for x, dd in zip(l, defs) for y in prefix_axes(ip, dd, x)]


def box_axis(x):
  return Arr.uniform(x.shape, A.boxed(x), x.dtype)


@jx('jax.vmap', 'haiku.vmap')
def _vmap(ip, a, kw):
  f = a[0]
  in_axes = arg(a, kw, 1, 'in_axes', 0)
  out_axes = arg(a, kw, 2, 'out_axes', 0)

  def g(ip_, b, kw_):
    b = list(b)
    if kw_:
      # keyword arguments are mapped over their leading axis
      names = list(kw_)
      h = PyFn(lambda ip2, c, kw2: ip.call(
          f, c[:len(b)], dict(zip(names, c[len(b):]))))
      ax = (list(in_axes) if isinstance(in_axes, (tuple, list))
            else [in_axes] * len(b)) + [0] * len(names)
      return vmap_call(ip, h, ax, out_axes, b + [kw_[n] for n in names])
    return vmap_call(ip, f, in_axes, out_axes, b)
  return PyFn(g, 'vmap')


@jx('haiku.to_module')
def _to_module(ip, a, kw):
  f = a[0]
  return PyFn(lambda ip_, b, kw_: f, 'haiku.to_module')


@jx('haiku.Sequential')
def _sequential(ip, a, kw):
  layers = list(ip.iterate(arg(a, kw, 0, 'layers')))

  def call(ip_, b, kw_):
    b = list(b)
    if not layers and not kw_:
      return b[0]
    out = None
    for i, f in enumerate(layers):
      out = ip_.call(f, b if i == 0 else [out], kw_ if i == 0 else {})
    return out
  return PyFn(call, 'haiku.Sequential')


from . import lib_jax2  # pylint: disable=wrong-import-position,unused-import
