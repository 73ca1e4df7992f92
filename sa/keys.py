"""Linearity of random keys.

Every key (a caller's key, PRNGKey(seed), an element of split(...), the next
key of a stream) may be consumed once: by a sampler of jax.random, by split, or
by being handed to a function that consumes it.  The walk is flow-sensitive:
branches are joined, loop bodies are walked twice so that a key from outside
the loop that is consumed inside it shows up as a reuse.
"""
import ast
import itertools

from .effects import ends, root_name
from .source import Fn

PASS = {'list', 'tuple', 'zip', 'enumerate', 'iter', 'reversed', 'jax.numpy.stack',
        'jax.numpy.asarray', 'jax.numpy.array', 'jax.tree.unflatten',
        'jax.tree_util.tree_unflatten', 'jax.tree.leaves', 'jax.numpy.concatenate',
        'jax.random.clone', 'jax.random.key_data', 'jax.random.wrap_key_data',
        'jax.tree_util.tree_leaves', 'numpy.asarray', 'jax.device_put'}
IGNORE = {'len', 'isinstance', 'print', 'repr', 'str', 'type', 'id', 'hash',
          'jax.numpy.shape', 'jax.tree.structure', 'jax.random.key_impl',
          'jax.tree_util.tree_structure', 'jax.numpy.ndim', 'format', 'range',
          'ValueError', 'TypeError'}
MAKERS = {'jax.random.PRNGKey', 'jax.random.key'}
NAMES = ('rng', 'rngs', 'rng_key', 'prng_key', 'prng', 'subkey', 'rng_keys')


class Found(Exception):
  pass


class Keys:

  def __init__(self, project, an):
    self.pr, self.an = project, an
    self.found = {}
    self.sites = set()
    self._params = {}
    self._uses = {}
    self.functions = set()

  def ext(self, e, mod):
    r = self.pr.resolve(e, mod)
    return r if isinstance(r, str) else None

  def key_params(self, fn):
    """Parameters that the function uses as random keys."""
    if fn in self._params:
      return self._params[fn]
    self._params[fn] = set()
    out = set()
    for p in fn.params:
      a = fn.notes.get(p)
      if a is not None and 'PRNG' in ast.unparse(a):
        out.add(p)
    for n in ast.walk(fn.node):
      if not isinstance(n, ast.Call):
        continue
      r = self.pr.resolve(n.func, fn.mod)
      names = {a.id: i for i, a in enumerate(n.args) if isinstance(a, ast.Name)}
      kws = {k.value.id: k.arg for k in n.keywords if isinstance(
          k.value, ast.Name)}
      if isinstance(r, str) and r.startswith('jax.random.') and r not in MAKERS:
        if n.args and isinstance(n.args[0], ast.Name):
          out.add(n.args[0].id)
        out |= {v for v, k in kws.items() if k == 'key'}
      elif isinstance(r, Fn):
        kp = self.key_params(r)
        for v, i in names.items():
          if i < len(r.pos) and r.pos[i] in kp:
            out.add(v)
        out |= {v for v, k in kws.items() if k in kp}
    out |= {p for p in fn.params if p in NAMES}
    out &= set(fn.params)
    self._params[fn] = out
    return out

  def consumes(self, fn, p):
    """The function does something with its key parameter p."""
    for n in ast.walk(fn.node):
      if isinstance(n, ast.Name) and n.id == p and isinstance(n.ctx, ast.Load):
        return True
    return False

  def run(self, fn):
    self.functions.add(fn.qual)
    Walk(self, fn, {}).top()

  def report(self, fn, node, what):
    self.found.setdefault((fn.qual, node.lineno, what), (fn, node, what))


class Walk:

  def __init__(self, k, fn, outer):
    self.k, self.fn, self.outer = k, fn, outer
    self.env, self.used, self.folds = {}, {}, {}
    self.n = itertools.count()
    self.turn = {}   # names bound by the running loop -> turn

  def top(self):
    for p in self.k.key_params(self.fn):
      self.env[p] = ('key', (('param', p),))
    self.block(self.fn.body())

  def new(self, kind='key'):
    return (kind, ((self.fn.qual, next(self.n)),))

  # ------------------------------------------------------------- statements

  def block(self, body):
    for s in body:
      self.stmt(s)

  def stmt(self, s):
    t = type(s)
    if t in (ast.FunctionDef, ast.AsyncFunctionDef):
      self.nested(s)
    elif t is ast.ClassDef:
      pass
    elif t is ast.Assign:
      v = self.ev(s.value)
      for x in s.targets:
        self.bind(x, v)
    elif t is ast.AnnAssign:
      if s.value is not None:
        self.bind(s.target, self.ev(s.value))
    elif t is ast.AugAssign:
      self.ev(s.value)
    elif t is ast.If:
      self.ev(s.test)
      e0, u0 = dict(self.env), dict(self.used)
      self.block(s.body)
      e1, u1, x1 = self.env, self.used, ends(s.body)
      self.env, self.used = dict(e0), dict(u0)
      self.block(s.orelse)
      x2 = ends(s.orelse)
      if x2 and not x1:
        self.env, self.used = e1, u1
      elif not x1:
        self.env = {**e1, **self.env}
        self.used = {**u1, **self.used}
      elif x1 and x2:
        self.used = {**u1, **self.used}
    elif t in (ast.For, ast.AsyncFor):
      it = self.ev(s.iter)
      self.loop(s, it)
    elif t is ast.While:
      for _ in range(2):
        self.ev(s.test)
        self.block(s.body)
      self.block(s.orelse)
    elif t in (ast.With, ast.AsyncWith):
      for i in s.items:
        self.ev(i.context_expr)
      self.block(s.body)
    elif t is ast.Try:
      self.block(s.body)
      for h in s.handlers:
        self.block(h.body)
      self.block(s.orelse)
      self.block(s.finalbody)
    elif t is ast.Delete:
      pass
    elif t is ast.Return:
      if s.value is not None:
        self.ev(s.value)
    else:
      for c in ast.iter_child_nodes(s):
        if isinstance(c, ast.expr):
          self.ev(c)

  def loop(self, s, it):
    for i in range(2):
      self.bind_loop(s.target, it, s, i)
      self.block(s.body)
      if any(isinstance(x, (ast.Return, ast.Break)) for x in s.body):
        break
    self.block(s.orelse)

  def bind_loop(self, target, it, node, i):
    turn = (id(node), next(self.n))
    for x in ast.walk(target):
      if isinstance(x, ast.Name):
        self.turn[x.id] = turn
        self.env.pop(x.id, None)
    self.bind_elements(target, it, node, turn)

  def bind_elements(self, target, it, node, turn):
    if it is None:
      return
    kind, ident = it
    if kind == 'keys':
      el = ('key', ident + (('it', id(node), turn[1]),))
      self.bind(target, el)
    elif kind == 'zip':
      if isinstance(target, (ast.Tuple, ast.List)) and len(target.elts) == len(
          ident):
        for x, v in zip(target.elts, ident):
          if v is not None:
            self.bind_elements(x, v, node, turn)
    elif kind == 'stream':
      self.bind(target, self.new())

  def bind(self, t, v):
    if isinstance(t, ast.Name):
      self.turn.pop(t.id, None) if v is not None else None
      if v is None:
        self.env.pop(t.id, None)
      else:
        self.env[t.id] = v
    elif isinstance(t, (ast.Tuple, ast.List)):
      for i, x in enumerate(t.elts):
        if v is None:
          self.bind(x.value if isinstance(x, ast.Starred) else x, None)
        elif v[0] == 'keys':
          if isinstance(x, ast.Starred):
            self.bind(x.value, ('keys', v[1] + (('rest', i),)))
          else:
            self.bind(x, ('key', v[1] + (('at', i),)))
        elif v[0] == 'zip' and len(v[1]) == len(t.elts):
          self.bind(x, v[1][i])
        elif v[0] == 'stream':
          self.bind(x, self.new())
        elif v[0] == 'key' and len(t.elts) > 1:
          # an element that is itself a pair of keys
          self.bind(x, ('key', v[1] + (('at', i),)))

  # ------------------------------------------------------------- consumption

  def consume(self, v, node):
    if v is None:
      return
    if v[0] == 'zip':
      for x in v[1]:
        self.consume(x, node)
      return
    if v[0] == 'stream':
      return
    ident = v[1]
    self.k.sites.add((self.fn.qual, node.lineno, node.col_offset))
    if any(isinstance(x, tuple) and x and x[0] == 'captured' for x in ident):
      what = ('a key of the enclosing function is consumed by a function that '
              'may be called more than once')
      self.k.report(self.fn, node, what)
      return
    for c, at in list(self.used.items()):
      if conflict(c, ident):
        self.k.report(
            self.fn, node, 'a random key is consumed again (first at '
            f'{self.fn.where(at)})' if at is not node else
            'a random key is consumed again on every turn of a loop')
        return
    self.used[ident] = node

  def nested(self, node):
    g = self.k.an.fns.get(id(node))
    if g is None:
      g = Fn(node, self.fn.mod, f'{self.fn.qual}.'
             f'{getattr(node, "name", "<lambda>")}', parent=self.fn)
      self.k.an.fns[id(node)] = g
    once = self.called_once(node)
    w = Walk(self.k, g, {})
    vals = {**self.outer, **self.env}
    if once:
      w.env = dict(vals)
      w.used, w.n = self.used, self.n
    else:
      for n, v in vals.items():
        if v[0] in ('key', 'keys') and n not in g.params:
          w.env[n] = (v[0], v[1] + (('captured',),))
    for p in g.params:
      w.env.pop(p, None)
    w.outer = vals
    self.k.functions.add(g.qual)
    w.top()
    if once:
      self.used.update(w.used)

  def called_once(self, node):
    """A local function that is called once, outside loops, and never passed."""
    name = getattr(node, 'name', None)
    if name is None:
      return False
    calls = loads = 0
    for n in ast.walk(self.fn.node):
      if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and (
          n.func.id == name):
        calls += 1
      if isinstance(n, ast.Name) and n.id == name:
        loads += 1
      if isinstance(n, (ast.For, ast.While, ast.ListComp, ast.GeneratorExp,
                        ast.DictComp, ast.SetComp, ast.Lambda)):
        if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n)):
          return False
    return calls == 1 and loads == 1

  # ------------------------------------------------------------- expressions

  def ev(self, e):
    t = type(e)
    if t is ast.Name:
      return self.env.get(e.id)
    if t is ast.Lambda:
      self.nested(e)
      return None
    if t is ast.Call:
      return self.call(e)
    if t in (ast.Tuple, ast.List):
      vs = [self.ev(x.value if isinstance(x, ast.Starred) else x)
            for x in e.elts]
      return ('zip', tuple(vs)) if any(v is not None for v in vs) else None
    if t in (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp):
      return self.comp(e)
    if t is ast.Subscript:
      return self.subscript(e)
    if t is ast.IfExp:
      self.ev(e.test)
      u0 = dict(self.used)
      a = self.ev(e.body)
      u1, self.used = self.used, dict(u0)
      b = self.ev(e.orelse)
      self.used = {**u1, **self.used}
      return a or b
    if t is ast.NamedExpr:
      v = self.ev(e.value)
      self.bind(e.target, v)
      return v
    if t is ast.Starred:
      return self.ev(e.value)
    if t is ast.Attribute:
      self.ev(e.value)
      return None
    for c in ast.iter_child_nodes(e):
      if isinstance(c, ast.expr):
        self.ev(c)
    return None

  def comp(self, e):
    saved, turns = dict(self.env), dict(self.turn)
    out = None
    for i in range(2):
      for g in e.generators:
        it = self.ev(g.iter) if not i or g is not e.generators[0] else it0
        if g is e.generators[0]:
          it0 = it
        self.bind_loop(g.target, it, g, i)
        for c in g.ifs:
          self.ev(c)
      for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
        v = self.ev(x)
        if v is not None and v[0] == 'key':
          out = v
    self.env, self.turn = saved, turns
    if out is not None:
      # the collected elements
      it = it0
      if it is not None and it[0] == 'keys' and out[1][:len(it[1])] == it[1]:
        return it
      return ('keys', out[1][:1])
    return None

  def subscript(self, e):
    v = self.ev(e.value)
    self.ev(e.slice)
    if v is None:
      return None
    if v[0] == 'zip':
      if isinstance(e.slice, ast.Constant) and isinstance(
          e.slice.value, int) and -len(v[1]) <= e.slice.value < len(v[1]):
        return v[1][e.slice.value]
      return None
    if v[0] == 'stream':
      return None
    if isinstance(e.slice, ast.Slice):
      return ('keys', v[1] + (('slice', ast.unparse(e.slice)),))
    if v[0] == 'key' and not isinstance(e.slice, ast.Constant):
      v = ('keys', v[1])
    i = e.slice
    if isinstance(i, ast.UnaryOp) and isinstance(i.op, ast.USub):
      i = None
    if isinstance(i, ast.Constant) and isinstance(i.value, int):
      return ('key', v[1] + (('at', i.value),))
    turns = tuple(sorted((n.id, self.turn.get(n.id)) for n in ast.walk(e.slice)
                         if isinstance(n, ast.Name)
                         and self.turn.get(n.id) is not None))
    return ('key', v[1] + (('by', ast.unparse(e.slice), turns),))

  def call(self, e):
    f = e.func
    n = None
    if root_name(f) not in self.env:
      n = self.k.ext(f, self.fn.mod)
    vals = [self.ev(a) for a in e.args]
    kws = {k.arg: self.ev(k.value) for k in e.keywords}
    if isinstance(f, (ast.Call, ast.Attribute, ast.Subscript)):
      self.ev(f if not isinstance(f, ast.Attribute) else f.value)
    keyed = [v for v in vals + list(kws.values()) if v is not None]
    if n in MAKERS:
      arg = (e.args or [k.value for k in e.keywords] or [None])[0]
      if arg is None or constant(arg):
        self.k.report(self.fn, e, 'a random key is made from a constant seed '
                      'the caller does not control')
      self.k.sites.add((self.fn.qual, e.lineno, e.col_offset))
      return self.new()
    if n in ('haiku.next_rng_key', 'haiku.maybe_next_rng_key'):
      return self.new()
    if n in ('haiku.next_rng_keys',):
      return self.new('keys')
    if n == 'haiku.PRNGSequence':
      for v in keyed:
        self.consume(v, e)
      return self.new('stream')
    if n == 'next' and e.args:
      r = root_name(e.args[0]) or ''
      if vals[0] is not None and vals[0][0] == 'stream' or 'rng' in r or (
          'prng' in r):
        return self.new()
      return None
    if n == 'jax.random.split':
      for v in keyed:
        self.consume(v, e)
      return self.new('keys') if keyed else None
    if n == 'jax.random.fold_in':
      v = vals[0] if vals else kws.get('key')
      data = e.args[1] if len(e.args) > 1 else next(
          (k.value for k in e.keywords if k.arg == 'data'), None)
      if v is not None and v[0] == 'key':
        turns = tuple(self.turn.get(x.id) for x in ast.walk(data or e)
                      if isinstance(x, ast.Name))
        tag = (v[1], ast.unparse(data) if data is not None else '', turns)
        if tag in self.folds:
          self.k.report(self.fn, e, 'the same number is folded into a random '
                        'key again')
        self.folds[tag] = e
        self.k.sites.add((self.fn.qual, e.lineno, e.col_offset))
        return self.new()
      return None
    if n in ('zip', 'itertools.product'):
      return ('zip', tuple(vals)) if keyed else None
    if n == 'enumerate':
      return ('zip', (None, vals[0])) if keyed else None
    if n in PASS:
      return keyed[0] if keyed else None
    if n in IGNORE:
      return None
    r = None
    if root_name(f) not in self.env:
      r = self.k.pr.resolve(f, self.fn.mod)
    if isinstance(r, Fn):
      kp = self.k.key_params(r)
      for i, v in enumerate(vals):
        p = r.pos[i] if i < len(r.pos) else None
        if p is None or p in kp or self.k.consumes(r, p):
          self.consume(v, e)
      for k, v in kws.items():
        if k is None or k not in r.params or self.k.consumes(r, k):
          self.consume(v, e)
      return None
    if n in ('jax.tree.map', 'jax.tree_util.tree_map', 'map'):
      for v in vals[1:]:
        self.consume(v, e)
      return None
    for v in keyed:
      self.consume(v, e)
    return None


def conflict(a, b):
  """The two consumed keys may be the same key."""
  n = min(len(a), len(b))
  for x, y in zip(a[:n], b[:n]):
    if x == y:
      continue
    if x[0] == 'it' and y[0] == 'it':
      return x[1] != y[1] and len(x) == len(y)
    if x[0] == 'at' and y[0] == 'at' or 'rest' in (x[0], y[0]):
      if x[0] == 'rest' and y[0] == 'at':
        return y[1] >= x[1]
      if y[0] == 'rest' and x[0] == 'at':
        return x[1] >= y[1]
      return False
    if 'it' in (x[0], y[0]):
      return x[0] in ('at', 'by', 'it') and y[0] in ('at', 'by', 'it')
    return False
  return True


def constant(e):
  return not any(isinstance(n, (ast.Name, ast.Attribute, ast.Call))
                 for n in ast.walk(e))
