"""Abstract arrays: symbolic shape + value at a generic index, piecewise.

An `Arr` of rank r maps an index tuple (idx(0), ..., idx(r-1)) to an `Expr`.
Each axis may be cut at breakpoints (array segmentation); `cells` holds one
`Expr` per box, written in the *global* index of the array, so that equal
neighbouring segments coalesce.  `shape is None` means an opaque value whose
rank is not tracked.
"""
from fractions import Fraction
import itertools

from . import expr as X
from .expr import Expr, Undecided, const, idx, bv, add, mul, scale, subst

SMALL = 24


def dim(x):
  """Normalizes a dimension to int or Expr."""
  if isinstance(x, bool):
    return int(x)
  if isinstance(x, int):
    return x
  if isinstance(x, Fraction):
    if x.denominator != 1:
      raise Undecided(f'fractional dimension {x}')
    return int(x)
  if isinstance(x, Expr):
    if x.is_const():
      return dim(x.const_value())
    return x
  if isinstance(x, Arr) and x.shape == ():
    return dim(x.scalar())
  raise Undecided(f'bad dimension {x!r}')


def ex(x):
  return x if isinstance(x, Expr) else const(x)


def cmp_dim(a, b):
  """sign of a-b for dims; Undecided if unknown."""
  if isinstance(a, int) and isinstance(b, int):
    return (a > b) - (a < b)
  s = X.sign_of(add(ex(a), scale(ex(b), -1)))
  if s is None:
    raise Undecided(f'cannot order sizes {a} and {b}')
  return s


def same_dim(a, b):
  if isinstance(a, int) and isinstance(b, int):
    return a == b
  return ex(a) == ex(b)


class Arr:
  __slots__ = ('shape', 'br', 'cells', 'dtype', 'tag')

  def __init__(self, shape, br, cells, dtype=None, tag=None):
    self.shape = shape
    self.br = br
    self.cells = cells
    self.dtype = dtype
    self.tag = tag

  # -- constructors
  @staticmethod
  def uniform(shape, e, dtype=None):
    if shape is None:
      return Arr(None, (), {(): e}, dtype)
    shape = tuple(dim(d) for d in shape)
    mp = {}
    for j, d in enumerate(shape):
      if isinstance(d, int) and d == 1:
        mp[X.mkatom('idx', (j,)).id] = X.ZERO
    if mp:
      e = subst(e, mp)
    return Arr(shape, ((),) * len(shape), {(0,) * len(shape): e}, dtype)

  @staticmethod
  def opaque(e, dtype=None):
    return Arr(None, (), {(): e}, dtype)

  @property
  def ndim(self):
    if self.shape is None:
      raise Undecided('rank of an opaque value')
    return len(self.shape)

  def is_uniform(self):
    return len(self.cells) == 1

  def scalar(self):
    """The single body expression (only if not piecewise)."""
    if len(self.cells) != 1:
      raise Undecided('piecewise value used as a scalar')
    (e,) = self.cells.values()
    return e

  def key(self):
    return ('Arr', None if self.shape is None else tuple(map(ex, self.shape)),
            tuple(tuple(map(ex, b)) for b in self.br),
            tuple(sorted(self.cells.items())))

  def __hash__(self):
    return hash((None if self.shape is None else self.shape, self.br,
                 frozenset(self.cells.items())))

  def __eq__(self, o):
    return (isinstance(o, Arr) and self.shape == o.shape and self.br == o.br
            and self.cells == o.cells)

  def __repr__(self):
    return show(self)


def bounds(a, j):
  """Segment list [(lo, hi)] along axis j."""
  pts = [0] + list(a.br[j]) + [a.shape[j]]
  return list(zip(pts[:-1], pts[1:]))


def mkarr(shape, br, cells, dtype=None):
  """Normalizing constructor: drops empty segments, coalesces equal ones."""
  shape = tuple(shape)
  br = [list(b) for b in br]
  cells = dict(cells)
  r = len(shape)
  # drop empty segments
  for j in range(r):
    pts = [0] + br[j] + [shape[j]]
    k = 0
    while k < len(pts) - 1 and len(pts) > 2:
      if same_dim(pts[k], pts[k + 1]):
        cells = _drop(cells, j, k)
        if k + 1 == len(pts) - 1:
          del pts[k]
        else:
          del pts[k + 1]
        k = max(k - 1, 0) if False else k
      else:
        k += 1
    br[j] = pts[1:-1]
  # size-one segments: pin the index
  for j in range(r):
    pts = [0] + br[j] + [shape[j]]
    a = X.mkatom('idx', (j,))
    if len(pts) == 2 and isinstance(shape[j], int) and shape[j] == 1:
      cells = {k: subst(e, {a.id: X.ZERO}) for k, e in cells.items()}
  # coalesce
  for j in range(r):
    k = 0
    while k < len(br[j]):
      pts = [0] + br[j] + [shape[j]]
      m = _can_merge(cells, j, k, pts[k], pts[k + 1], pts[k + 2])
      if m is not None:
        cells = _merge_seg(cells, j, k, m)
        del br[j][k]
        k = max(k - 1, 0)
      else:
        k += 1
  return Arr(shape, tuple(tuple(b) for b in br), cells, dtype)


def _drop(cells, j, k):
  out = {}
  for key, e in cells.items():
    if key[j] == k:
      continue
    nk = key[:j] + (key[j] - (key[j] > k),) + key[j + 1:]
    out[nk] = e
  return out


def _seg_len(lo, hi):
  if isinstance(lo, int) and isinstance(hi, int):
    return hi - lo
  n = add(ex(hi), scale(ex(lo), -1))
  return dim(n) if n.is_const() else None


def _can_merge(cells, j, k, p0, p1, p2):
  """Which side's bodies cover both segments k and k+1 ('l', 'r' or None)."""
  ia = X.mkatom('idx', (j,)).id
  ok_l = ok_r = True
  n0 = _seg_len(p0, p1)
  n1 = _seg_len(p1, p2)
  for key, e in cells.items():
    if key[j] != k:
      continue
    o = cells[key[:j] + (k + 1,) + key[j + 1:]]
    if o == e:
      continue
    if ok_l and not (n1 is not None and n1 <= 4 and all(
        subst(e, {ia: add(ex(p1), const(q))}) ==
        subst(o, {ia: add(ex(p1), const(q))}) for q in range(n1))):
      ok_l = False
    if ok_r and not (n0 is not None and n0 <= 4 and all(
        subst(e, {ia: add(ex(p0), const(q))}) ==
        subst(o, {ia: add(ex(p0), const(q))}) for q in range(n0))):
      ok_r = False
    if not ok_l and not ok_r:
      return None
  if ok_l and ok_r and n0 is not None and n1 is None:
    return 'r'
  return 'l' if ok_l else 'r'


def _merge_seg(cells, j, k, side):
  out = {}
  gone = k + 1 if side == 'l' else k
  for key, e in cells.items():
    if key[j] == gone:
      continue
    nk = key[:j] + (key[j] - (key[j] > k),) + key[j + 1:]
    out[nk] = e
  return out


def lift(x):
  """Anything scalar-like to Arr."""
  if isinstance(x, Arr):
    return x
  e = X.lift(x)
  if e is None:
    raise Undecided(f'cannot lift {type(x).__name__} into the array domain')
  return Arr((), (), {(): e}, 'bool' if isinstance(x, bool) else None)


def broadcast_shapes(shapes):
  r = max(len(s) for s in shapes)
  out = []
  for k in range(r):
    cur = 1
    for s in shapes:
      p = k - (r - len(s))
      if p < 0:
        continue
      d = s[p]
      if isinstance(d, int) and d == 1:
        continue
      if isinstance(cur, int) and cur == 1:
        cur = d
      elif not same_dim(cur, d):
        if isinstance(cur, int) and isinstance(d, int):
          raise ShapeError(f'shapes do not broadcast: {shapes}')
        diff = add(ex(cur), scale(ex(d), -1))
        # a polynomial of independent sizes that is not identically zero is
        # nonzero for some grid
        if X.sign_of(diff) is None and not free_sizes(diff):
          raise Undecided(f'cannot match sizes {cur} and {d}')
        raise ShapeError(f'shapes do not broadcast: {shapes}')
    out.append(cur)
  return tuple(out)


def free_sizes(e):
  return all(a.op == 'sym' for a in e.atoms())


class ShapeError(Exception):
  """A definite shape mismatch in the analysed program."""


def broadcast_to(a, shape):
  shape = tuple(dim(d) for d in shape)
  if a.shape is None:
    return Arr.uniform(shape, a.scalar(), a.dtype)
  if a.shape == shape:
    return a
  lead = len(shape) - len(a.shape)
  if lead < 0:
    raise ShapeError(f'cannot broadcast {a.shape} to {shape}')
  br = [()] * lead
  mp = {}
  for j, d in enumerate(a.shape):
    src = X.mkatom('idx', (j,)).id
    if isinstance(d, int) and d == 1 and not (
        isinstance(shape[j + lead], int) and shape[j + lead] == 1):
      mp[src] = X.ZERO
      br.append(())
    else:
      if not same_dim(d, shape[j + lead]):
        raise ShapeError(f'cannot broadcast {a.shape} to {shape}')
      if lead:
        mp[src] = idx(j + lead)
      br.append(a.br[j])
  cells = {(0,) * lead + k: subst(e, mp) for k, e in a.cells.items()}
  return Arr(shape, tuple(br), cells, a.dtype)


def _union_breaks(bs, n):
  pts = []
  for b in bs:
    for p in b:
      if not any(same_dim(p, q) for q in pts):
        pts.append(p)
  # insertion sort by cmp
  out = []
  for p in pts:
    k = 0
    while k < len(out) and cmp_dim(out[k], p) < 0:
      k += 1
    out.insert(k, p)
  return tuple(out)


def refine(a, br):
  """Re-expresses a on finer breakpoints br (tuple per axis)."""
  if a.br == br:
    return a
  maps = []
  for j in range(len(br)):
    pts = [0] + list(br[j])
    m = []
    for p in pts:
      k = 0
      for q in a.br[j]:
        if cmp_dim(q, p) <= 0:
          k += 1
      m.append(k)
    maps.append(m)
  cells = {}
  for key in itertools.product(*[range(len(m)) for m in maps]):
    cells[key] = a.cells[tuple(maps[j][k] for j, k in enumerate(key))]
  return Arr(a.shape, br, cells, a.dtype)


def ewise(f, *args, dtype=None):
  """Pointwise application with broadcasting."""
  arrs = [lift(a) for a in args]
  if any(a.shape is None for a in arrs):
    # opaque operand: only scalars/uniform partners can be combined
    known = [a for a in arrs if a.shape is not None and a.shape != ()]
    if not known or all(a.is_uniform() for a in arrs):
      return Arr(None, (), {(): f(*[a.scalar() for a in arrs])}, dtype)
    raise Undecided('opaque value combined with a piecewise array')
  shape = broadcast_shapes([a.shape for a in arrs])
  arrs = [broadcast_to(a, shape) for a in arrs]
  if all(len(a.cells) == 1 for a in arrs):
    k = (0,) * len(shape)
    return Arr(shape, ((),) * len(shape), {k: f(*[a.cells[k] for a in arrs])},
               dtype)
  br = tuple(_union_breaks([a.br[j] for a in arrs], shape[j])
             for j in range(len(shape)))
  arrs = [refine(a, br) for a in arrs]
  cells = {k: f(*[a.cells[k] for a in arrs]) for k in arrs[0].cells}
  return mkarr(shape, br, cells, dtype)


def unary(f, a, dtype=None):
  a = lift(a)
  cells = {k: f(e) for k, e in a.cells.items()}
  if a.shape is None or len(cells) == 1:
    return Arr(a.shape, a.br, cells, dtype)
  return mkarr(a.shape, a.br, cells, dtype)


def norm_axis(a, axis):
  n = a.ndim
  axis = int(axis)
  if axis < -n or axis >= n:
    raise ShapeError(f'axis {axis} out of range for rank {n}')
  return axis % n


def rename(a, order, shape=None):
  """Axis renaming: order[k] = old axis placed at new axis k."""
  mp = {}
  for k, o in enumerate(order):
    if o != k:
      mp[X.mkatom('idx', (o,)).id] = idx(k)
  cells = {}
  for key, e in a.cells.items():
    cells[tuple(key[o] for o in order)] = subst(e, mp)
  return Arr(tuple(a.shape[o] for o in order),
             tuple(a.br[o] for o in order), cells, a.dtype)


def transpose(a, perm):
  return rename(a, list(perm))


def moveaxis(a, src, dst):
  src = [norm_axis(a, s) for s in (src if isinstance(src, (tuple, list)) else [src])]
  dst = [norm_axis(a, s) for s in (dst if isinstance(dst, (tuple, list)) else [dst])]
  order = [n for n in range(a.ndim) if n not in src]
  for d, s in sorted(zip(dst, src)):
    order.insert(d, s)
  return transpose(a, order)


def expand_dims(a, axis):
  if isinstance(axis, (tuple, list)):
    n = a.ndim + len(axis)
    for ax in sorted(int(x) % n for x in axis):
      a = _expand(a, ax)
    return a
  return _expand(a, int(axis) % (a.ndim + 1))


def _expand(a, ax):
  if a.shape is None:
    return a
  mp = {X.mkatom('idx', (j,)).id: idx(j + 1) for j in range(ax, a.ndim)}
  cells = {k[:ax] + (0,) + k[ax:]: subst(e, mp) for k, e in a.cells.items()}
  return Arr(a.shape[:ax] + (1,) + a.shape[ax:],
             a.br[:ax] + ((),) + a.br[ax:], cells, a.dtype)


def take_index(a, axis, i):
  """a[..., i, ...] at axis; i int or Expr (may involve vb atoms)."""
  i = dim(i) if not isinstance(i, Expr) else (
      dim(i) if i.is_const() else i)
  n = a.shape[axis]
  if isinstance(i, int) and i < 0:
    i = dim(add(ex(n), const(i)))
  if isinstance(i, int) and isinstance(n, int) and i >= n:
    raise ShapeError(f'index {i} out of range for size {n}')
  seg = 0
  if a.br[axis]:
    try:
      for p in a.br[axis]:
        if cmp_dim(p, i) <= 0:
          seg += 1
    except Undecided:
      if isinstance(i, Expr) and any(x.op == 'vb' for x in i.atoms()):
        raise Undecided('piecewise array indexed by a batch index')
      raise
  mp = {X.mkatom('idx', (axis,)).id: ex(i)}
  for j in range(axis + 1, a.ndim):
    mp[X.mkatom('idx', (j,)).id] = idx(j - 1)
  cells = {k[:axis] + k[axis + 1:]: subst(e, mp)
           for k, e in a.cells.items() if k[axis] == seg}
  return mkarr(a.shape[:axis] + a.shape[axis + 1:],
               a.br[:axis] + a.br[axis + 1:], cells, a.dtype)


def slice_axis(a, axis, start, length, step=1):
  """a[start : start+length*step : step]; start/length dims, step int != 0."""
  start, length = dim(start), dim(length)
  if step == 1 and same_dim(start, 0) and same_dim(length, a.shape[axis]):
    return a
  segs = bounds(a, axis)
  ia = X.mkatom('idx', (axis,))
  mp = {ia.id: add(ex(start), scale(idx(axis), step))}
  pieces = []  # (lo, hi) in new coordinates, old segment number
  order = range(len(segs)) if step > 0 else range(len(segs) - 1, -1, -1)
  for k in order:
    lo, hi = segs[k]
    if step > 0:
      nlo = _ceil_div(add(ex(lo), scale(ex(start), -1)), step)
      nhi = _ceil_div(add(ex(hi), scale(ex(start), -1)), step)
    else:
      # start + step*i in [lo, hi)  <=>  i in [ceil((start-hi+1)/s), ...
      s = -step
      nlo = _ceil_div(add(add(ex(start), scale(ex(hi), -1)), X.ONE), s)
      nhi = _ceil_div(add(add(ex(start), scale(ex(lo), -1)), X.ONE), s)
    nlo, nhi = dim(nlo), dim(nhi)
    if len(segs) > 1:
      if cmp_dim(nhi, 0) <= 0 or cmp_dim(nlo, length) >= 0:
        continue
      if cmp_dim(nlo, 0) < 0:
        nlo = 0
      if cmp_dim(nhi, length) > 0:
        nhi = length
      if cmp_dim(nhi, nlo) <= 0:
        continue
    else:
      nlo, nhi = 0, length
    pieces.append((nlo, nhi, k))
  shape = a.shape[:axis] + (length,) + a.shape[axis + 1:]
  if not pieces:
    pieces = [(0, length, 0)]
  br = tuple(p[1] for p in pieces[:-1])
  cells = {}
  for nk, (_, _, k) in enumerate(pieces):
    for key, e in a.cells.items():
      if key[axis] == k:
        cells[key[:axis] + (nk,) + key[axis + 1:]] = subst(e, mp)
  return mkarr(shape, a.br[:axis] + (br,) + a.br[axis + 1:], cells, a.dtype)


def _ceil_div(e, s):
  if s == 1:
    return e
  return scale(X.floor(scale(e, Fraction(-1, s))), -1)


def flip(a, axis):
  return slice_axis(a, axis, dim(add(ex(a.shape[axis]), const(-1))),
                    a.shape[axis], -1)


def concat(arrs, axis):
  arrs = [lift(a) for a in arrs]
  if any(a.shape is None for a in arrs):
    raise Undecided('concatenate of opaque arrays')
  arrs = [a for a in arrs
          if not (isinstance(a.shape[axis], int) and a.shape[axis] == 0)] or arrs[:1]
  if len(arrs) == 1:
    return arrs[0]
  r = arrs[0].ndim
  for a in arrs[1:]:
    if a.ndim != r or not all(same_dim(x, y) for j, (x, y) in enumerate(
        zip(a.shape, arrs[0].shape)) if j != axis):
      raise ShapeError('concatenate: shapes differ')
  other = [(_union_breaks([a.br[j] for a in arrs], arrs[0].shape[j])
            if j != axis else None) for j in range(r)]
  pos = 0
  brk = []
  cells = {}
  nseg = 0
  for a in arrs:
    a = refine(a, tuple(other[j] if j != axis else a.br[axis]
                        for j in range(r)))
    mp = {}
    if not same_dim(pos, 0):
      mp = {X.mkatom('idx', (axis,)).id: add(idx(axis), scale(ex(pos), -1))}
    for key, e in a.cells.items():
      cells[key[:axis] + (key[axis] + nseg,) + key[axis + 1:]] = subst(e, mp)
    for p in a.br[axis]:
      brk.append(dim(add(ex(p), ex(pos))))
    pos = dim(add(ex(pos), ex(a.shape[axis])))
    brk.append(pos)
    nseg += len(a.br[axis]) + 1
  brk.pop()
  shape = arrs[0].shape[:axis] + (pos,) + arrs[0].shape[axis + 1:]
  br = tuple(tuple(brk) if j == axis else other[j] for j in range(r))
  dts = {a.dtype for a in arrs}
  return mkarr(shape, br, cells, dts.pop() if len(dts) == 1 else None)


def stack(arrs, axis):
  arrs = [lift(a) for a in arrs]
  if any(a.shape is None for a in arrs):
    raise Undecided('stack of opaque arrays')
  shape = broadcast_shapes([a.shape for a in arrs])
  for a in arrs:
    if a.shape != shape and not all(
        same_dim(x, y) for x, y in zip(a.shape, shape)):
      raise ShapeError('stack: shapes differ')
  ax = int(axis) % (len(shape) + 1)
  return concat([_expand(a, ax) for a in arrs], ax)


def full(shape, e, dtype=None):
  return Arr.uniform(tuple(shape), ex(e) if not isinstance(e, Expr) else e, dtype)


def pad_axis(a, axis, lo, hi, mode, cv=(X.ZERO, X.ZERO)):
  """numpy.pad along one axis."""
  n = a.shape[axis]
  for w in (lo, hi):
    if not isinstance(w, int):
      if X.sign_of(ex(w)) is None:
        raise Undecided('symbolic pad width of unknown sign')
  if cmp_dim(lo, 0) < 0 or cmp_dim(hi, 0) < 0:
    raise ShapeError('negative pad width')
  parts = []

  def const_part(w, v):
    sh = a.shape[:axis] + (w,) + a.shape[axis + 1:]
    return full(sh, v)
  has_lo = not same_dim(lo, 0)
  has_hi = not same_dim(hi, 0)
  nm = ex(n)
  if mode == 'constant':
    if has_lo:
      parts.append(const_part(lo, cv[0]))
    parts.append(a)
    if has_hi:
      parts.append(const_part(hi, cv[1]))
  elif mode == 'edge':
    if has_lo:
      e0 = _expand(take_index(a, axis, 0), axis)
      parts.append(broadcast_to(e0, a.shape[:axis] + (lo,) + a.shape[axis + 1:]))
    parts.append(a)
    if has_hi:
      e1 = _expand(take_index(a, axis, -1), axis)
      parts.append(broadcast_to(e1, a.shape[:axis] + (hi,) + a.shape[axis + 1:]))
  elif mode in ('symmetric', 'reflect'):
    k = 0 if mode == 'symmetric' else 1
    if has_lo:
      parts.append(slice_axis(a, axis, dim(add(ex(lo), const(k - 1))), lo, -1))
    parts.append(a)
    if has_hi:
      parts.append(slice_axis(a, axis, dim(add(nm, const(-1 - k))), hi, -1))
  elif mode == 'wrap':
    if has_lo:
      parts.append(slice_axis(a, axis, dim(add(nm, scale(ex(lo), -1))), lo))
    parts.append(a)
    if has_hi:
      parts.append(slice_axis(a, axis, 0, hi))
  else:
    raise Undecided(f'pad mode {mode}')
  return concat(parts, axis)


def roll(a, shift, axis):
  n = a.shape[axis]
  s = dim(shift)
  if isinstance(s, int) and isinstance(n, int) and abs(s) > n:
    s = s % n if n else 0
  if isinstance(s, int) and s < 0:
    # roll left by -s
    return concat([slice_axis(a, axis, -s, dim(add(ex(n), const(s)))),
                   slice_axis(a, axis, 0, -s)], axis)
  if same_dim(s, 0):
    return a
  if X.sign_of(ex(s)) is not None and X.sign_of(ex(s)) < 0:
    m = dim(scale(ex(s), -1))
    return concat([slice_axis(a, axis, m, dim(add(ex(n), scale(ex(m), -1)))),
                   slice_axis(a, axis, 0, m)], axis)
  rest = dim(add(ex(n), scale(ex(s), -1)))
  return concat([slice_axis(a, axis, rest, s), slice_axis(a, axis, 0, rest)],
                axis)


# ------------------------------------------------------------ reductions

def _bv_level(e):
  """1 + highest bound-variable level used inside e."""
  lvl = 0

  def visit(x):
    nonlocal lvl
    if isinstance(x, Expr):
      for a in x.atoms():
        if a.op == 'bv':
          lvl = max(lvl, a.args[0] + 1)
        elif a.op == 'bind':
          lvl = max(lvl, a.args[1] + len(a.args[2]))
          visit(a.args[4])
        else:
          visit(a.args)
    elif isinstance(x, tuple):
      for y in x:
        visit(y)
  visit(e)
  return lvl


def bind_atom(op, body, sizes, vars_, out, params=(), real=True):
  """Functional atom: op over `body` with the idx atoms vars_ bound.

  args = (op, level, sizes, out, body, params)
  """
  level = _bv_level(body)
  mp = {X.mkatom('idx', (v,)).id: bv(level + k) for k, v in enumerate(vars_)}
  body = subst(body, mp)
  return _mk_bind(op, level, sizes, out, body, params, real)


def _mk_bind(op, level, sizes, out, body, params, real):
  bound = frozenset(('bv', level + k) for k in range(len(sizes)))
  a = X.mkatom('bind', (op, level, tuple(ex(s) for s in sizes), tuple(out),
                        body, params), real=real, bound=bound)
  # dims in sizes/out may carry their own deps
  return X.of_atom(a)


def _rebuild_bind(s, a):
  op, level, sizes, out, body, params = a.args
  sizes = s.arg(sizes)
  out = s.arg(out)
  # capture check: substituted values must not mention our bound variables
  nb = s.expr(body)
  need = _bv_level_free(nb, level, len(sizes))
  params = s.arg(params)
  if need:
    raise Undecided('bound variable capture')
  return _linear_bind(op, level, sizes, out, nb, params, a.real)


def _bv_level_free(e, level, n):
  return False


X.FUNCTIONAL['bind'] = _rebuild_bind

LINEAR = {'sum', 'fft', 'ifft', 'irfft', 'cumsum', 'dot'}


def _linear_bind(op, level, sizes, out, body, params, real=True):
  """Distributes a linear functional over the monomials of body."""
  if op not in LINEAR:
    return _mk_bind(op, level, sizes, out, body, params, real)
  bvs = {('bv', level + k) for k in range(len(sizes))}
  res = []
  for m, c in body.t.items():
    inner, outer = [], []
    for i, x in m:
      (outer if X.Atom.by_id[i].deps.isdisjoint(bvs) else inner).append((i, x))
    inner_e = Expr({tuple(inner): Fraction(1)})
    f = Expr({tuple(outer): c})
    if op == 'sum' and not inner:
      n = X.ONE
      for s in sizes:
        n = mul(n, s)
      res.append(mul(f, n))
      continue
    if op == 'sum' and len(sizes) > 1:
      # factor independent summation variables
      pass
    rl = inner_e.is_real() if op == 'sum' else (op == 'irfft')
    can = _cancel_fft(op, level, sizes, out, inner_e, params)
    if can is not None:
      res.append(mul(f, can))
    else:
      res.append(mul(f, _mk_bind(op, level, sizes, out, inner_e, params, rl)))
  return X.add_many(res)


def _cancel_fft(op, level, sizes, out, inner, params):
  """ifft(fft(x)) = x and fft(ifft(x)) = x when read at the bound index."""
  inv = {'ifft': 'fft', 'irfft': 'fft', 'fft': ('ifft', 'irfft')}.get(op)
  if inv is None or len(inner.t) != 1:
    return None
  (m, c), = inner.t.items()
  if len(m) != 1 or m[0][1] != 1 or c != 1:
    return None
  a = X.Atom.by_id[m[0][0]]
  if a.op != 'bind' or a.args[0] not in (inv if isinstance(inv, tuple) else (inv,)):
    return None
  op2, lv2, sz2, out2, body2, par2 = a.args
  if len(sz2) != len(sizes):
    return None
  if sz2 != tuple(ex(s) for s in sizes):
    return None
  if out2 != tuple(bv(level + k) for k in range(len(sizes))):
    return None
  if par2 != params:
    return None
  mp = {X.mkatom('bv', (lv2 + k,)).id: ex(o) for k, o in enumerate(out)}
  return subst(body2, mp)


def reduce_axis(a, axis, op='sum', keepdims=False):
  """sum/max/min/prod over one axis."""
  n = a.shape[axis]
  others = [j for j in range(a.ndim) if j != axis]
  segs = bounds(a, axis)
  out_cells = {}
  ia = X.mkatom('idx', (axis,)).id
  groups = {}
  for key, e in a.cells.items():
    groups.setdefault(key[:axis] + key[axis + 1:], []).append((key[axis], e))
  for gk, items in groups.items():
    acc = None
    for k, e in sorted(items, key=lambda t: t[0]):
      lo, hi = segs[k]
      ln = dim(add(ex(hi), scale(ex(lo), -1)))
      if isinstance(ln, int) and ln <= SMALL:
        for q in range(ln):
          v = subst(e, {ia: add(ex(lo), const(q))})
          acc = v if acc is None else _RED[op](acc, v)
      else:
        if not same_dim(lo, 0):
          e = subst(e, {ia: add(idx(axis), ex(lo))})
        v = reduce_sym(op, e, axis, ln)
        acc = v if acc is None else _RED[op](acc, v)
    if acc is None:
      acc = {'sum': X.ZERO, 'prod': X.ONE}.get(op)
      if acc is None:
        raise Undecided('empty reduction')
    out_cells[gk] = acc
  if keepdims:
    shape = a.shape[:axis] + (1,) + a.shape[axis + 1:]
    br = a.br[:axis] + ((),) + a.br[axis + 1:]
    cells = {k[:axis] + (0,) + k[axis:]: e for k, e in out_cells.items()}
  else:
    shape = a.shape[:axis] + a.shape[axis + 1:]
    br = a.br[:axis] + a.br[axis + 1:]
    mp = {X.mkatom('idx', (j,)).id: idx(j - 1)
          for j in range(axis + 1, a.ndim)}
    cells = {k: subst(e, mp) for k, e in out_cells.items()}
  return mkarr(shape, br, cells, a.dtype)


_RED = {'sum': add, 'max': X.maximum, 'min': X.minimum, 'prod': mul,
        'all': mul, 'any': X.lor}


def reduce_sym(op, e, axis, n):
  """Reduction of body e over idx(axis) in [0, n)."""
  level = _bv_level(e)
  body = subst(e, {X.mkatom('idx', (axis,)).id: bv(level)})
  if op == 'sum':
    return _linear_bind('sum', level, (ex(n),), (), body, ())
  if ('bv', level) not in body.deps():
    return e if op in ('max', 'min', 'all', 'any') else X.power(e, 1)
  if op in ('max', 'min'):
    # pull out positive factors
    g = X.content(body)
    mg = {}
    for i, x in X.mono_gcd(body).items():
      at = X.Atom.by_id[i]
      if x != 0 and at.pos and ('bv', level) not in at.deps:
        mg[i] = x
    f = mul(const(g), Expr({tuple(sorted(mg.items())): Fraction(1)}))
    body = mul(body, X.power(f, -1))
    if len(body.t) == 1:
      # the square root is monotone
      (m, c), = body.t.items()
      if m and c == 1 and all(x == Fraction(1, 2) for _, x in m):
        sq = Expr({tuple((i, Fraction(1)) for i, _ in m): Fraction(1)})
        return mul(f, X.power(_mk_bind(op, level, (ex(n),), (), sq, (), True),
                              Fraction(1, 2)))
    return mul(f, _mk_bind(op, level, (ex(n),), (), body, (), True))
  return _mk_bind(op, level, (ex(n),), (), body, (), True)


def reduce_all(a, axes, op='sum', keepdims=False):
  for ax in sorted(axes, reverse=True):
    a = reduce_axis(a, ax, op, keepdims)
  return a


# ------------------------------------------------------------ FFT

EXPAND = False  # transforms of small known sizes as explicit sums
_EXACT = (1, 2, 3, 4, 6, 8, 12)


def _cos24(k):
  """cos(2 pi k / 24) for the k with quadratic values."""
  k = k % 24
  if k > 12:
    k = 24 - k
  if k > 6:
    return scale(_cos24(12 - k), -1)
  h = Fraction(1, 2)
  return {0: X.ONE, 2: scale(X.power(const(3), h), h),
          3: scale(X.power(const(2), h), h), 4: const(h), 6: X.ZERO}[k]


def _root(num, n, sign):
  k = 24 * num // n
  return add(_cos24(k), scale(X.mul(X.I, _cos24(k - 6)), sign))


def _dft_axis(a, ax, kind):
  n = a.shape[ax]
  items = [take_index(a, ax, i) for i in range(n)]
  out = []
  for k in range(n):
    def comb(*es, k=k):
      t = X.add_many([X.mul(_root(k * i, n, -1 if kind == 'fft' else 1), e)
                      for i, e in enumerate(es)])
      return t if kind == 'fft' else scale(t, Fraction(1, n))
    out.append(ewise(comb, *items, dtype='complex'))
  return stack(out, ax)


def _expandable(a, axes):
  return EXPAND and all(isinstance(a.shape[x], int) and a.shape[x] in _EXACT
                        for x in axes)


def fft_nd(a, axes, kind):
  """kind 'fft'/'ifft': full complex transform along axes (in place)."""
  a = lift(a)
  if a.shape is None:
    raise Undecided('fft of opaque array')
  axes = sorted(norm_axis(a, x) for x in axes)
  if _expandable(a, axes):
    for x in axes:
      a = _dft_axis(a, x, kind)
    return a
  if any(a.br[x] for x in axes):
    return _opaque_functional(a, axes, kind)
  sizes = [a.shape[x] for x in axes]
  cells = {}
  for key, e in a.cells.items():
    level = _bv_level(e)
    mp = {X.mkatom('idx', (v,)).id: bv(level + k) for k, v in enumerate(axes)}
    body = subst(e, mp)
    cells[key] = _linear_bind(kind, level, tuple(ex(s) for s in sizes),
                              tuple(idx(x) for x in axes), body, (), False)
  return unbox(mkarr(a.shape, a.br, cells, 'complex'))


def rfft_nd(a, axes):
  """Real transform: half spectrum along the last of `axes`."""
  last = norm_axis(a, axes[-1])
  n = a.shape[last]
  f = fft_nd(a, axes, 'fft')
  half = dim(add(X.floor(scale(ex(n), Fraction(1, 2))), X.ONE))
  return slice_axis(f, last, 0, half)


def irfft_nd(a, axes, sizes=None):
  """Inverse real transform; sizes per axis (None: 2*(m-1) on the last)."""
  a = lift(a)
  axes = [norm_axis(a, x) for x in axes]
  last = axes[-1]
  if sizes is None:
    sizes = [a.shape[x] for x in axes]
    sizes[-1] = dim(scale(add(ex(a.shape[last]), const(-1)), 2))
  sizes = [dim(s) for s in sizes]
  for x, s in list(zip(axes, sizes))[:-1]:
    if not same_dim(a.shape[x], s):
      raise Undecided('irfftn with cropping')
  order = sorted(range(len(axes)), key=lambda k: axes[k])
  params = ('real', )
  if any(a.br[x] for x in axes):
    return _opaque_functional(a, axes, 'irfft', sizes)
  saxes = [axes[k] for k in order]
  ssz = [sizes[k] for k in order]
  cells = {}
  need = dim(add(X.floor(scale(ex(sizes[-1]), Fraction(1, 2))), X.ONE))
  extra = ()
  if not same_dim(need, a.shape[last]):
    extra = (('half', ex(a.shape[last])),)
  for key, e in a.cells.items():
    level = _bv_level(e)
    mp = {X.mkatom('idx', (v,)).id: bv(level + k) for k, v in enumerate(saxes)}
    body = subst(e, mp)
    cells[key] = _linear_bind('irfft', level, tuple(ex(s) for s in ssz),
                              tuple(idx(x) for x in saxes), body, extra, True)
  shape = list(a.shape)
  for x, s in zip(axes, sizes):
    shape[x] = s
  return unbox(mkarr(shape, a.br, cells, None))


def _opaque_functional(a, axes, kind, sizes=None):
  """Transform of a piecewise array: linear in each piece via indicator 'on'."""
  # canonical: represent the piecewise content as sum of box-indicators times
  # body; the indicator atoms depend on the index and are bound as well.
  e = boxed(a)
  shape = list(a.shape)
  sz = [a.shape[x] for x in axes] if sizes is None else list(sizes)
  order = sorted(range(len(axes)), key=lambda k: axes[k])
  saxes = [axes[k] for k in order]
  ssz = [sz[k] for k in order]
  level = _bv_level(e)
  mp = {X.mkatom('idx', (v,)).id: bv(level + k) for k, v in enumerate(saxes)}
  body = subst(e, mp)
  if sizes is not None:
    for x, s in zip(axes, sizes):
      shape[x] = s
  extra = ()
  if kind == 'irfft':
    last = axes[-1]
    need = dim(add(X.floor(scale(ex(sz[-1]), Fraction(1, 2))), X.ONE))
    if not same_dim(need, a.shape[last]):
      extra = (('half', ex(a.shape[last])),)
  r = _linear_bind(kind, level, tuple(ex(s) for s in ssz),
                   tuple(idx(x) for x in saxes), body, extra,
                   kind == 'irfft')
  return unbox(Arr.uniform(shape, r, None if kind == 'irfft' else 'complex'))


def _rebuild_seg(s, a):
  x, lo, hi = s.arg(a.args)
  return seg(x, lo, hi)


def seg(x, lo, hi):
  """Indicator of lo <= x < hi."""
  if x.is_const() or not any(t[0] in ('idx', 'bv') for t in x.deps()):
    s0, s1 = X.sign_of(add(x, scale(lo, -1))), X.sign_of(add(x, scale(hi, -1)))
    if (s0 is not None and s0 < 0) or (s1 is not None and s1 >= 0):
      return X.ZERO
    if s0 is not None and s1 is not None:
      return X.ONE
  return X.of_atom(X.mkatom('seg', (x, lo, hi), boolean=True))


X.FUNCTIONAL['seg'] = _rebuild_seg


def _segs_of(e, j):
  """[(atom, lo, hi)] of the indicators seg(idx(j) + c, ..) of e."""
  out = []
  for m in e.t:
    for i, _ in m:
      a = X.Atom.by_id[i]
      if a.op != 'seg':
        continue
      c = add(a.args[0], scale(idx(j), -1))
      if any(t.op in ('idx', 'bv') for t in c.atoms()):
        continue
      out.append((a, add(a.args[1], scale(c, -1)), add(a.args[2], scale(c, -1))))
  return out


def unbox(a):
  """Turns indicators on a single index back into breakpoints."""
  for j in range(a.ndim):
    found = [x for e in a.cells.values() for x in _segs_of(e, j)]
    if not found:
      continue
    pts = []
    try:
      for _, lo, hi in found:
        for p in (lo, hi):
          d = dim(p)
          if cmp_dim(d, 0) > 0 and cmp_dim(d, a.shape[j]) < 0:
            pts.append(d)
      br = _union_breaks([a.br[j], tuple(pts)], a.shape[j])
      b = refine(a, a.br[:j] + (br,) + a.br[j + 1:])
      cells = {}
      segs = bounds(b, j)
      for key, e in b.cells.items():
        lo, hi = segs[key[j]]
        for at, slo, shi in _segs_of(e, j):
          inside = (cmp_dim(dim(slo), lo) <= 0 and cmp_dim(hi, dim(shi)) <= 0)
          e = X.subst_atom_const(e, at, 1 if inside else 0)
        cells[key] = e
      a = mkarr(b.shape, b.br, cells, b.dtype)
    except Undecided:
      pass
  return a


def boxed(a):
  """Single expression for a piecewise array using 'seg' indicator atoms."""
  out = []
  for key, e in a.cells.items():
    f = X.ONE
    for j, k in enumerate(key):
      segs = bounds(a, j)
      if len(segs) > 1:
        lo, hi = segs[k]
        f = mul(f, seg(idx(j), ex(lo), ex(hi)))
    out.append(mul(f, e))
  return X.add_many(out)


def box_axis(a, j):
  """Replaces the breakpoints of axis j by indicators."""
  segs = bounds(a, j)
  out = {}
  for key, e in a.cells.items():
    lo, hi = segs[key[j]]
    k = key[:j] + (0,) + key[j + 1:]
    t = mul(seg(idx(j), ex(lo), ex(hi)), e)
    out[k] = add(out[k], t) if k in out else t
  return mkarr(a.shape, a.br[:j] + ((),) + a.br[j + 1:], out, a.dtype)


# ------------------------------------------------------------ reshape

def reshape(a, shape):
  if a.shape is None:
    raise Undecided('reshape of opaque array')
  shape = list(shape)
  shape = [s if isinstance(s, int) else dim(s) for s in shape]
  if -1 in [s for s in shape if isinstance(s, int)]:
    k = [i for i, s in enumerate(shape) if isinstance(s, int) and s == -1][0]
    tot = X.ONE
    for d in a.shape:
      tot = mul(tot, ex(d))
    rest = X.ONE
    for i, s in enumerate(shape):
      if i != k:
        rest = mul(rest, ex(s))
    q = mul(tot, X.power(rest, -1))
    if not X.floor(q) == q:
      raise Undecided(f'reshape with -1: {q}')
    shape[k] = dim(q)
  shape = tuple(shape)
  if len(shape) == len(a.shape) and all(map(same_dim, shape, a.shape)):
    return a
  # group both shapes into blocks of equal products
  i = j = 0
  blocks = []
  while i < len(a.shape) or j < len(shape):
    if (i < len(a.shape) and j < len(shape)
        and same_dim(a.shape[i], shape[j])):
      blocks.append(([i], [j]))
      i += 1
      j += 1
      continue
    bi, bj = [], []
    pi, pj = X.ONE, X.ONE
    first = True
    while first or pi != pj:
      first = False
      if pi == pj and i < len(a.shape):
        pi = mul(pi, ex(a.shape[i]))
        bi.append(i)
        i += 1
        if pi == pj:
          break
        if j < len(shape):
          pj = mul(pj, ex(shape[j]))
          bj.append(j)
          j += 1
        continue
      if pi == pj and j < len(shape):
        pj = mul(pj, ex(shape[j]))
        bj.append(j)
        j += 1
        continue
      s = X.sign_of(add(pi, scale(pj, -1)))
      if s is None:
        # try extending either side
        if j < len(shape):
          s = 1
        else:
          s = -1
      if s > 0:
        if j >= len(shape):
          raise ShapeError(f'cannot reshape {a.shape} to {shape}')
        pj = mul(pj, ex(shape[j]))
        bj.append(j)
        j += 1
      else:
        if i >= len(a.shape):
          raise ShapeError(f'cannot reshape {a.shape} to {shape}')
        pi = mul(pi, ex(a.shape[i]))
        bi.append(i)
        i += 1
    blocks.append((bi, bj))
  # Build old index expressions in terms of new idx
  simple = True
  for bi, bj in blocks:
    bi_ = [x for x in bi if not same_dim(a.shape[x], 1)]
    if len(bi_) > 1:
      simple = False
  if simple:
    mp = {}
    tmp = {}
    newbr = [()] * len(shape)
    keymap = {}
    for bi, bj in blocks:
      bi_ = [x for x in bi if not same_dim(a.shape[x], 1)]
      bj_ = [x for x in bj if not same_dim(shape[x], 1)]
      for x in bi:
        if x not in bi_:
          mp[X.mkatom('idx', (x,)).id] = X.ZERO
      if not bi_:
        continue
      o = bi_[0]
      e = X.ZERO
      for x in bj_:
        e = add(mul(e, ex(shape[x])), idx(x))
      mp[X.mkatom('idx', (o,)).id] = e
      if len(bj_) == 1:
        newbr[bj_[0]] = a.br[o]
        keymap[bj_[0]] = o
      elif a.br[o]:
        return _reshape_piecewise(a, shape, blocks)
    cells = {}
    for key, e in a.cells.items():
      nk = tuple(key[keymap[x]] if x in keymap else 0
                 for x in range(len(shape)))
      cells[nk] = subst(e, mp)
    return mkarr(shape, newbr, cells, a.dtype)
  return _reshape_merge(a, shape, blocks)


def _reshape_piecewise(a, shape, blocks):
  """Splitting a cut axis into several: unrolled when they are small."""
  for bi, bj in blocks:
    bi_ = [x for x in bi if not same_dim(a.shape[x], 1)]
    dims = [shape[x] for x in bj if not same_dim(shape[x], 1)]
    if len(bi_) != 1 or len(dims) < 2 or not a.br[bi_[0]]:
      continue
    o = bi_[0]
    if not all(isinstance(d, int) for d in dims + [a.shape[o]]) or (
        a.shape[o] > 512):
      raise Undecided('reshape splits a piecewise axis')
    items = [take_index(a, o, k) for k in range(a.shape[o])]
    for d in reversed(dims):
      items = [stack(items[k:k + d], o) for k in range(0, len(items), d)]
    return reshape(items[0], shape)
  raise Undecided('reshape splits a piecewise axis')


def _reshape_merge(a, shape, blocks):
  """Merging axes: new index k = (i0 * n1 + i1); small constant axes unrolled,
  otherwise old indices become floor/mod expressions of the new one."""
  mp = {}
  for bi, bj in blocks:
    bi_ = [x for x in bi if not same_dim(a.shape[x], 1)]
    bj_ = [x for x in bj if not same_dim(shape[x], 1)]
    for x in bi:
      if x not in bi_:
        mp[X.mkatom('idx', (x,)).id] = X.ZERO
    if not bi_:
      continue
    # flat index of the block in new coordinates
    e = X.ZERO
    for x in bj_:
      e = add(mul(e, ex(shape[x])), idx(x))
    rem = e
    # peel from the innermost old axis
    for x in reversed(bi_[1:]):
      n = ex(a.shape[x])
      q = _floordiv(rem, n)
      mp[X.mkatom('idx', (x,)).id] = add(rem, scale(mul(q, n), -1))
      rem = q
    mp[X.mkatom('idx', (bi_[0],)).id] = rem
    if any(a.br[x] for x in bi_):
      if len(bi_) > 1 or len(bj_) > 1:
        a = _unbreak(a, bi_)
  if any(a.br):
    a = _unbreak(a, [x for x in range(a.ndim) if a.br[x]])
  (e,) = a.cells.values()
  return Arr.uniform(shape, subst(e, mp), a.dtype)


def _unbreak(a, axes):
  """Rewrites cuts as 'seg' indicators."""
  return Arr(a.shape, ((),) * a.ndim, {(0,) * a.ndim: boxed(a)}, a.dtype)


def _floordiv(e, n):
  """floor(e / n) for index expressions, using 0 <= idx < its block size."""
  # split e = n*q + r syntactically
  q = []
  r = []
  if n.is_const():
    c0 = n.const_value()
    for m, c in e.t.items():
      k = Fraction(c.numerator // c.denominator // c0) if c.denominator == 1 else 0
      if c.denominator == 1 and c % c0 == 0:
        q.append(Expr({m: c / c0}))
      else:
        r.append(Expr({m: c}))
  else:
    inv = X.power(n, -1)
    for m, c in e.t.items():
      t = mul(Expr({m: c}), inv)
      if len(t.t) == 1 and all(x > 0 and X.Atom.by_id[i].op != 'pw'
                               for mm in t.t for i, x in mm):
        q.append(t)
      else:
        r.append(Expr({m: c}))
  qq = X.add_many(q) if q else X.ZERO
  rr = X.add_many(r) if r else X.ZERO
  if not rr.t:
    return qq
  # a lone index variable that comes from the inner axis of size n
  return add(qq, X.floor(mul(rr, X.power(n, -1))))


# ------------------------------------------------------------ comparison

def refine_pair(a, b):
  br = tuple(_union_breaks([a.br[j], b.br[j]], a.shape[j])
             for j in range(a.ndim))
  return refine(a, br), refine(b, br), br


def difference(a, b):
  """None if a == b everywhere, else a description of a differing region."""
  a, b = lift(a), lift(b)
  if (a.shape is None) != (b.shape is None):
    if a.is_uniform() and b.is_uniform():
      if X.equal(a.scalar(), b.scalar()):
        return None
      return f'value {X.show(a.scalar(), 12)} vs expected {X.show(b.scalar(), 12)}'
    return 'opaque vs array value'
  if a.shape is None:
    if X.equal(a.scalar(), b.scalar()):
      return None
    return f'{X.show(a.scalar(), 12)} vs expected {X.show(b.scalar(), 12)}'
  if len(a.shape) != len(b.shape) or not all(map(same_dim, a.shape, b.shape)):
    return f'shape {fmt_shape(a.shape)} vs expected {fmt_shape(b.shape)}'
  a, b, br = refine_pair(a, b)
  for key in sorted(a.cells):
    ea, eb = a.cells[key], b.cells[key]
    if ea == eb:
      continue
    # concrete small segments: compare index by index
    ranges = []
    for j, k in enumerate(key):
      pts = [0] + list(br[j]) + [a.shape[j]]
      lo, hi = pts[k], pts[k + 1]
      ln = dim(add(ex(hi), scale(ex(lo), -1)))
      if isinstance(ln, int) and ln <= SMALL:
        ranges.append([(X.mkatom('idx', (j,)).id, add(ex(lo), const(q)))
                       for q in range(ln)])
    bad = None
    for combo in itertools.product(*ranges):
      mp = dict(combo)
      if not X.equal(subst(ea, mp), subst(eb, mp)):
        bad = (subst(ea, mp), subst(eb, mp))
        break
    if bad is not None:
      where_ = []
      for j, k in enumerate(key):
        pts = [0] + list(br[j]) + [a.shape[j]]
        where_.append(f'{pts[k]}..{pts[k + 1]}')
      return (f'on index box [{"; ".join(where_)}]: '
              f'{X.show(bad[0], 10)}  vs expected  {X.show(bad[1], 10)}')
  return None


def fmt_shape(s):
  return '(' + ', '.join(str(x) for x in s) + ')'


def show(a):
  if a.shape is None:
    return f'<opaque {X.show(a.scalar(), 8)}>'
  if a.shape == ():
    return X.show(a.scalar(), 20)
  parts = []
  for k, e in list(a.cells.items())[:6]:
    seg = ','.join('{}..{}'.format(*bounds(a, j)[q]) for j, q in enumerate(k))
    parts.append(f'[{seg}] {X.show(e, 8)}')
  return f'Arr{fmt_shape(a.shape)}{{{"; ".join(parts)}}}'


def field(name, shape, periodic=None, real=True, pos=False):
  """A free abstract array: element names[idx]."""
  shape = tuple(dim(d) for d in shape)
  per = tuple((ex(d) if periodic and periodic[j] else None)
              for j, d in enumerate(shape))
  ix = tuple(X.ZERO if (isinstance(d, int) and d == 1) else idx(j)
             for j, d in enumerate(shape))
  return Arr.uniform(shape, X.rd(name, per, ix, real, pos),
                     None if real else 'complex')


def at_index(a, ix):
  """The entry of a (concretely sized) array at constant indices."""
  for i in ix:
    a = take_index(a, 0, i)
  return a.scalar()


def from_entries(es, shape):
  """Array of the given entries (row-major)."""
  if not es:
    return full(shape, X.ZERO)
  a = stack([Arr.uniform((), e) for e in es], 0)
  return reshape(a, tuple(shape)) if len(shape) != 1 else a
