"""Traceability: no Python control flow or host conversion on array values.

Kinds of values: 'arr' (one array), 'vec' (a container of arrays), 'tree' (any
nest of arrays) and None (anything else: sizes, grids, settings).  Parameters
get their kind from their annotation, calls of package functions are analysed
with the kinds of their arguments.
"""
import ast

from .effects import root_name
from .source import Cls, Fn

META = {'shape', 'ndim', 'dtype', 'size', 'offset', 'grid', 'bc', 'itemsize',
        'nbytes', 'sharding', 'weak_type', 'name', 'interior', 'step', 'domain',
        'dims', 'coords', 'attrs'}
ARR = {'Array', 'GridArray', 'GridVariable', 'jnp.ndarray', 'jax.Array',
       'grids.Array', 'grids.GridArray', 'grids.GridVariable', 'GridField',
       'jax.numpy.ndarray', 'chex.Array', 'GridArrayTensor',
       'grids.GridArrayTensor'}
VEC = {'GridArrayVector', 'GridVariableVector', 'grids.GridArrayVector',
       'grids.GridVariableVector'}
META_CALLS = {'len', 'isinstance', 'type', 'hasattr', 'callable', 'id', 'repr',
              'str', 'print', 'jax.numpy.shape', 'jax.numpy.ndim', 'getattr',
              'jax.numpy.issubdtype', 'jax.numpy.result_type',
              'jax.numpy.iscomplexobj', 'jax.numpy.isrealobj', 'numpy.shape',
              'numpy.ndim', 'jax.tree.structure', 'jax.numpy.size',
              'jax.tree_util.tree_structure', 'numpy.size', 'format', 'hash',
              'numpy.iscomplexobj', 'numpy.result_type', 'jax.eval_shape',
              'dataclasses.is_dataclass', 'jax.numpy.dtype', 'numpy.isrealobj'}
HOST = {'float', 'int', 'bool', 'complex', 'range', 'round'}
SAME = {'list', 'tuple', 'sorted', 'reversed', 'iter', 'copy.copy', 'set',
        'copy.deepcopy'}
NP_OK = {'numpy.shape', 'numpy.ndim', 'numpy.size', 'numpy.iscomplexobj',
         'numpy.result_type', 'numpy.isrealobj', 'numpy.can_cast',
         'numpy.issubdtype', 'numpy.dtype'} | {
             # these call the method of the same name of their argument
             'numpy.' + x for x in
             'min max amin amax sum prod mean std var any all cumsum cumprod '
             'argmin argmax squeeze reshape transpose ravel repeat take clip '
             'round swapaxes argsort searchsorted trace diagonal choose '
             'compress nonzero sort around ptp'.split()}
PLAIN = {'bool', 'int', 'float', 'str', 'None', 'Grid', 'grids.Grid'}


def note_kind(a):
  if a is None:
    return None
  if isinstance(a, ast.Constant) and isinstance(a.value, str):
    try:
      a = ast.parse(a.value, mode='eval').body
    except SyntaxError:
      return None
  if isinstance(a, (ast.Name, ast.Attribute)):
    t = ast.unparse(a)
    if t in ARR:
      return 'arr'
    if t in VEC:
      return 'vec'
    if t in ('PyTree', 'pytree.PyTree'):
      return 'tree'
    return None
  if isinstance(a, ast.Subscript):
    h = ast.unparse(a.value).split('.')[-1]
    parts = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
    ks = [note_kind(p) for p in parts]
    if h in ('Optional', 'Union'):
      real = [k for k, p in zip(ks, parts) if not (
          isinstance(p, ast.Constant) and p.value is None)]
      if not real or any(k is None for k in real):
        return None
      return real[0] if len(set(real)) == 1 else 'tree'
    if h in ('Sequence', 'Tuple', 'List', 'tuple', 'list', 'Iterable', 'Dict',
             'Mapping', 'dict'):
      if any(k in ('arr', 'vec', 'tree') for k in ks):
        return 'vec' if 'arr' in ks else 'tree'
  return None


def host_fn(fn):
  """Functions that run on the host by contract."""
  notes = [ast.unparse(a) for a in fn.notes.values() if a is not None]
  ret = fn.node.returns if hasattr(fn.node, 'returns') else None
  if ret is not None and ast.unparse(ret) in ('float', 'int', 'str', 'bool',
                                              'Optional[float]'):
    return True
  return any('np.ndarray' in t and 'jnp' not in t or 'xarray' in t
             for t in notes)


class Traced:

  def __init__(self, project, an):
    self.pr, self.an = project, an
    self.found, self.memo = {}, {}
    self.functions, self.tests = set(), set()

  def run(self, fn):
    ks = {p: note_kind(fn.notes.get(p)) for p in fn.params}
    if fn.is_method() and fn.cls.name in ('GridArray', 'GridVariable') and (
        fn.pos):
      ks[fn.pos[0]] = 'arr'
    self.call(fn, ks)

  def call(self, fn, kinds, env=None):
    if host_fn(fn):
      return None
    sig = (fn, tuple(sorted((k, v) for k, v in kinds.items() if v)))
    if env is None and sig in self.memo:
      return self.memo[sig]
    if env is None:
      self.memo[sig] = None
    self.functions.add(fn.qual)
    w = Walk(self, fn, dict(env or {}, **{p: kinds.get(p) for p in fn.params}))
    w.block(fn.body())
    out = w.ret
    n = getattr(fn.node, 'returns', None)
    if n is not None:
      k = note_kind(n)
      if k is not None:
        out = k
      elif ast.unparse(n) in PLAIN:
        out = None
    if env is None:
      self.memo[sig] = out
    return out

  def report(self, fn, node, what):
    self.found.setdefault((fn.qual, node.lineno, what), (fn, node, what))


class Walk:

  def __init__(self, t, fn, env):
    self.t, self.fn, self.env, self.ret = t, fn, env, None

  def block(self, body):
    for s in body:
      self.stmt(s)

  def stmt(self, s):
    k = type(s)
    if k in (ast.FunctionDef, ast.AsyncFunctionDef):
      self.nested(s)
      self.env[s.name] = None
    elif k is ast.Return:
      if s.value is not None:
        self.ret = up(self.ret, self.ev(s.value))
    elif k is ast.Assign:
      v = self.ev(s.value)
      for x in s.targets:
        self.bind(x, v, s.value)
    elif k is ast.AnnAssign:
      if s.value is not None:
        self.bind(s.target, self.ev(s.value), s.value)
    elif k is ast.AugAssign:
      v = self.ev(s.value)
      if isinstance(s.target, ast.Name):
        self.env[s.target.id] = up(self.env.get(s.target.id), v)
    elif k in (ast.If, ast.While):
      self.test(s.test, 'if' if k is ast.If else 'while')
      e0 = dict(self.env)
      self.block(s.body)
      e1, self.env = self.env, dict(e0)
      self.block(s.orelse)
      self.env = {n: up(e1.get(n), self.env.get(n))
                  for n in set(e1) | set(self.env)}
    elif k in (ast.For, ast.AsyncFor):
      it = self.ev(s.iter)
      for _ in range(2):
        self.bind_elements(s.target, s.iter, it)
        self.block(s.body)
      self.block(s.orelse)
    elif k is ast.Assert:
      self.test(s.test, 'assert')
    elif k in (ast.With, ast.AsyncWith):
      for i in s.items:
        self.ev(i.context_expr)
      self.block(s.body)
    elif k is ast.Try:
      self.block(s.body)
      for h in s.handlers:
        self.block(h.body)
      self.block(s.orelse)
      self.block(s.finalbody)
    elif k is ast.Raise:
      pass
    elif k is not ast.ClassDef:
      for c in ast.iter_child_nodes(s):
        if isinstance(c, ast.expr):
          self.ev(c)

  def nested(self, node):
    g = self.t.an.fns.get(id(node)) or Fn(
        node, self.fn.mod, f'{self.fn.qual}.{getattr(node, "name", "<lambda>")}',
        parent=self.fn)
    ks = {p: note_kind(g.notes.get(p)) for p in g.params}
    return self.t.call(g, ks, dict(self.env))

  def test(self, e, how):
    self.t.tests.add((self.fn.qual, e.lineno, e.col_offset))
    if self.ev(e) == 'arr':
      self.t.report(self.fn, e, f'"{how}" branches on the value of an array: '
                    f'{ast.unparse(e)[:60]}')

  # ------------------------------------------------------------------ binding

  def bind(self, t, v, value=None):
    if isinstance(t, ast.Name):
      self.env[t.id] = v
    elif isinstance(t, (ast.Tuple, ast.List)):
      vs = None
      if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(
          t.elts):
        vs = [self.ev(x) for x in value.elts]
      for i, x in enumerate(t.elts):
        if isinstance(x, ast.Starred):
          self.bind(x.value, v if v != 'arr' else 'vec')
        else:
          self.bind(x, vs[i] if vs else element(v))

  def bind_elements(self, target, e, it):
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and isinstance(
        target, (ast.Tuple, ast.List)):
      n = e.func.id
      if n == 'enumerate' and len(target.elts) == 2 and e.args:
        self.bind(target.elts[0], None)
        self.bind_elements(target.elts[1], e.args[0], self.ev(e.args[0]))
        return
      if n == 'zip' and len(target.elts) == len(e.args):
        for x, a in zip(target.elts, e.args):
          self.bind_elements(x, a, self.ev(a))
        return
      if n == 'sorted' or n == 'reversed':
        self.bind_elements(target, e.args[0], it)
        return
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and (
        e.func.attr == 'items') and isinstance(target, (ast.Tuple, ast.List)):
      self.bind(target.elts[0], None)
      self.bind(target.elts[-1], element(self.ev(e.func.value)))
      return
    if isinstance(target, ast.Name):
      self.env[target.id] = element(it)
    else:
      self.bind(target, element(it) if element(it) != 'arr' else None)

  # -------------------------------------------------------------- expressions

  def ev(self, e):
    k = type(e)
    if k is ast.Name:
      return self.env.get(e.id)
    if k is ast.Attribute:
      v = self.ev(e.value)
      if e.attr in META:
        return None
      if v in ('arr',) and e.attr in ('data', 'array', 'T', 'real', 'imag',
                                      'at'):
        return 'arr'
      return None
    if k is ast.Subscript:
      v = self.ev(e.value)
      self.ev(e.slice)
      if v == 'vec':
        return 'vec' if isinstance(e.slice, ast.Slice) else 'arr'
      return v
    if k is ast.Compare:
      vs = [self.ev(x) for x in [e.left] + e.comparators]
      if any(isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn))
             for o in e.ops):
        return None
      return 'arr' if 'arr' in vs else None
    if k is ast.BinOp:
      a, b = self.ev(e.left), self.ev(e.right)
      if isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant):
        return None
      return up(a, b)
    if k is ast.UnaryOp:
      v = self.ev(e.operand)
      if isinstance(e.op, ast.Not):
        if v == 'arr':
          self.t.report(self.fn, e, '"not" of the value of an array: '
                        f'{ast.unparse(e)[:60]}')
        return None
      return v
    if k is ast.BoolOp:
      vs = [self.ev(x) for x in e.values]
      for x, v in zip(e.values[:-1], vs):
        if v == 'arr':
          self.t.report(self.fn, x, '"and"/"or" on the value of an array: '
                        f'{ast.unparse(x)[:60]}')
      out = None
      for v in vs:
        out = up(out, v)
      return out
    if k is ast.IfExp:
      self.test(e.test, 'if')
      return up(self.ev(e.body), self.ev(e.orelse))
    if k in (ast.Tuple, ast.List, ast.Set):
      vs = [self.ev(x.value if isinstance(x, ast.Starred) else x)
            for x in e.elts]
      return 'vec' if vs and all(v in ('arr', 'vec') for v in vs) else (
          'tree' if any(vs) else None)
    if k is ast.Dict:
      vs = [self.ev(x) for x in e.values]
      return 'tree' if any(vs) else None
    if k in (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp):
      saved = dict(self.env)
      for g in e.generators:
        self.bind_elements(g.target, g.iter, self.ev(g.iter))
        for c in g.ifs:
          self.test(c, 'if')
      v = self.ev(e.value if k is ast.DictComp else e.elt)
      self.env = saved
      return 'vec' if v == 'arr' else ('tree' if v else None)
    if k is ast.Lambda:
      self.nested(e)
      return None
    if k is ast.Call:
      return self.call(e)
    if k is ast.NamedExpr:
      v = self.ev(e.value)
      self.bind(e.target, v)
      return v
    if k is ast.Starred:
      return self.ev(e.value)
    if k in (ast.JoinedStr, ast.FormattedValue, ast.Constant):
      return None
    for c in ast.iter_child_nodes(e):
      if isinstance(c, ast.expr):
        self.ev(c)
    return None

  def call(self, e):
    f = e.func
    n = None
    if root_name(f) not in self.env and root_name(f) is not None:
      r = self.t.pr.resolve(f, self.fn.mod)
      n = r if isinstance(r, str) else None
    else:
      r = None
    vals = [self.ev(a) for a in e.args]
    kws = {k.arg: self.ev(k.value) for k in e.keywords}
    allv = vals + list(kws.values())
    hot = any(v == 'arr' for v in allv)
    if n in META_CALLS:
      return None
    if n in HOST:
      self.t.tests.add((self.fn.qual, e.lineno, e.col_offset))
      if hot:
        self.t.report(self.fn, e, f'{n}() of the value of an array')
      return None
    if n in ('any', 'all', 'min', 'max', 'sum'):
      el = element(vals[0]) if len(vals) == 1 else up(*(vals + [None])[:2])
      if n == 'sum':
        return el
      self.t.tests.add((self.fn.qual, e.lineno, e.col_offset))
      if el == 'arr' and n in ('any', 'all', 'min', 'max') and not isinstance(
          e.args[0] if e.args else e, ast.Starred):
        self.t.report(self.fn, e, f'{n}() decides on the values of arrays')
      return None
    if n is not None and n.startswith(('numpy.', 'math.', 'scipy.')):
      self.t.tests.add((self.fn.qual, e.lineno, e.col_offset))
      if (hot or 'vec' in allv) and n not in NP_OK:
        self.t.report(self.fn, e, f'{n} needs the value of an array on the '
                      'host')
      return (hot and 'arr') or None
    if n in SAME:
      return vals[0] if vals else None
    if n in ('zip', 'enumerate', 'map', 'filter'):
      return 'tree' if any(allv) else None
    if n is not None and n.startswith(('jax.', 'haiku.')):
      if n.endswith(('tree.map', 'tree_map', 'tree.leaves', 'tree_leaves')):
        return 'vec' if 'leaves' in n and any(allv) else (
            vals[1] if len(vals) > 1 else None)
      if not any(allv):
        return None
      if n.startswith('jax.numpy.'):
        last = n.split('.')[-1]
        if last in ('split', 'array_split', 'meshgrid', 'gradient',
                    'nonzero', 'unravel_index'):
          return 'vec'
        return 'arr'
      return 'tree'
    if isinstance(r, Fn) and r.parent is None:
      kinds = {}
      pos = r.pos[1:] if r.is_method() and not isinstance(f, ast.Name) and any(
          isinstance(d, ast.Name) and d.id == 'classmethod'
          for d in r.decorators) else r.pos
      for i, v in enumerate(vals):
        if i < len(e.args) and isinstance(e.args[i], ast.Starred):
          break
        if i < len(pos):
          kinds[pos[i]] = v
      for k, v in kws.items():
        if k in r.params:
          kinds[k] = v
      for p in r.params:
        if kinds.get(p) is None:
          kinds[p] = None if p in kinds else note_kind(r.notes.get(p))
      return self.t.call(r, kinds)
    if isinstance(r, Cls):
      return 'arr' if r.name in ('GridArray', 'GridVariable') else None
    if isinstance(f, ast.Attribute):
      b = self.ev(f.value)
      if b == 'arr':
        if f.attr in ('item', 'tolist', '__bool__', '__float__', '__int__'):
          self.t.report(self.fn, e, f'.{f.attr}() needs the value of an array '
                        'on the host')
          return None
        return 'arr'
      return None
    self.ev(f)
    return None


def up(a, b):
  if a is None:
    return b
  if b is None or a == b:
    return a
  if 'arr' in (a, b) and 'tree' not in (a, b):
    return 'arr'
  return 'tree'


def element(v):
  return {'vec': 'arr', 'arr': 'arr', 'tree': 'tree'}.get(v)
