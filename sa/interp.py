"""Abstract interpreter for the Python subset jax-cfd is written in.

The analysed program is read from the source tree on every run (ast.parse);
nothing of it is imported or executed.  Static configuration (dimensions,
offsets, boundary types, flags) is propagated as constants, everything numeric
is an abstract value of sa.arr / sa.expr.  Branches on abstract conditions are
both analysed and joined (gated join), loops run over statically known
sequences or are summarized by the models of scan/fori_loop.
"""
import ast
import builtins
from fractions import Fraction
import os

from . import arr as A
from . import expr as X
from .arr import Arr
from .expr import Expr, Undecided

REPO = os.environ.get('SA_REPO', '/repo')
VISITED = set()  # (file, line) of every statement interpreted


class PyRaise(Exception):
  """An exception raised by the analysed program."""

  def __init__(self, value, where=None):
    super().__init__(str(value))
    self.value = value
    self.where = where

  def clsname(self):
    v = self.value
    if isinstance(v, Inst):
      return v.cls.name
    return getattr(v, 'name', str(v))


class AnalysisError(Undecided):
  """Anchor vanished / source cannot be analysed."""


class ExcV:
  """Instance of a builtin exception."""

  def __init__(self, cls, args=()):
    self.cls = cls
    self.args = args

  @property
  def name(self):
    return self.cls.name

  def __repr__(self):
    return f'{self.cls.name}({", ".join(map(str, self.args))})'


class TypeV:
  """Builtin or external type object."""

  def __init__(self, name, bases=()):
    self.name = name
    self.bases = bases

  def __repr__(self):
    return f'<type {self.name}>'

  def mro(self):
    out = [self]
    for b in self.bases:
      out += b.mro()
    return out


def _mk_excs():
  base = TypeV('BaseException')
  exc = TypeV('Exception', (base,))
  t = {'BaseException': base, 'Exception': exc}

  def d(n, b='Exception'):
    t[n] = TypeV(n, (t[b],))
  for n in ('ValueError', 'TypeError', 'NotImplementedError0', 'RuntimeError',
            'AttributeError', 'LookupError', 'AssertionError', 'StopIteration',
            'ArithmeticError', 'NameError', 'Warning', 'ImportError', 'OSError'):
    d(n)
  del t['NotImplementedError0']
  d('NotImplementedError', 'RuntimeError')
  d('KeyError', 'LookupError')
  d('IndexError', 'LookupError')
  d('ZeroDivisionError', 'ArithmeticError')
  d('UnboundLocalError', 'NameError')
  d('ModuleNotFoundError', 'ImportError')
  d('UserWarning', 'Warning')
  d('DeprecationWarning', 'Warning')
  d('LinAlgError', 'ValueError')
  return t


EXCS = _mk_excs()


def raise_py(name, msg=''):
  raise PyRaise(ExcV(EXCS[name], (msg,)))


class Ext:
  """A name of an external library, resolved through imports."""
  __slots__ = ('name',)

  def __init__(self, name):
    self.name = name

  def __eq__(self, o):
    return isinstance(o, Ext) and o.name == self.name

  def __hash__(self):
    return hash(('Ext', self.name))

  def __repr__(self):
    return f'<ext {self.name}>'


class Env:
  __slots__ = ('vars', 'parent', 'mod', 'glob', 'nonloc', 'pending', 'ycb',
               'func', 'cls')

  def __init__(self, parent, mod, func=None):
    self.vars = {}
    self.parent = parent
    self.mod = mod
    self.glob = ()
    self.nonloc = ()
    self.pending = []
    self.ycb = None
    self.func = func
    self.cls = None


class Module:

  def __init__(self, name, path):
    self.name = name
    self.path = path
    self.vars = {'__name__': name}
    self.tree = None
    self.done = False
    self.stub = False

  def __repr__(self):
    return f'<module {self.name}>'


class Func:
  """User function (closure)."""
  _n = 0

  def __init__(self, node, env, mod, name, cls=None):
    self.node = node
    self.env = env
    self.mod = mod
    self.name = name
    self.cls = cls
    self.defaults = []
    self.kwdefaults = {}
    self.attrs = {}
    self.is_gen = None

  @property
  def qual(self):
    q = self.name
    if self.cls is not None:
      q = f'{self.cls.name}.{q}'
    return f'{self.mod.name}.{q}'

  def loc(self):
    return f'{relpath(self.mod.path)}:{self.node.lineno}'

  def __repr__(self):
    return f'<function {self.qual}>'


def relpath(p):
  return os.path.relpath(p, REPO)


class Bound:

  def __init__(self, func, self_):
    self.func = func
    self.self_ = self_

  def __eq__(self, o):
    return isinstance(o, Bound) and o.func == self.func and o.self_ is self.self_

  def __hash__(self):
    return hash((id(self.func), id(self.self_)))

  def __repr__(self):
    return f'<bound {self.func}>'


class Partial:

  def __init__(self, func, args, kwargs):
    self.func = func
    self.args = args
    self.kwargs = kwargs

  def __repr__(self):
    return f'<partial {self.func}>'


class PyFn:
  """A callable implemented by the checker (library model or rule probe)."""

  def __init__(self, fn, name='model'):
    self.fn = fn
    self.name = name
    self.attrs = {}

  def __repr__(self):
    return f'<model {self.name}>'


class PropertyV:

  def __init__(self, fget):
    self.fget = fget
    self.fset = None


class ClassMethodV:

  def __init__(self, func):
    self.func = func


class StaticMethodV:

  def __init__(self, func):
    self.func = func


class ClassV:

  def __init__(self, name, bases, ns, mod, node):
    self.name = name
    self.bases = bases
    self.ns = ns
    self.mod = mod
    self.node = node
    self.dc = None  # dataclass options
    self.pytree = False
    self.fields_ = None

  @property
  def qual(self):
    return f'{self.mod.name}.{self.name}'

  def mro(self):
    out = [self]
    for b in self.bases:
      ms = b.mro() if isinstance(b, (ClassV, TypeV)) else [b]
      for c in ms:
        if c in out:
          out.remove(c)
        out.append(c)
    return out

  def lookup(self, name):
    for c in self.mro():
      if isinstance(c, ClassV) and name in c.ns:
        return c.ns[name], c
    return None, None

  def is_exc(self):
    return any(isinstance(c, TypeV) and c.name == 'BaseException'
               for c in self.mro())

  def __repr__(self):
    return f'<class {self.qual}>'


def _dc_eq(cls):
  """The class of the hierarchy whose dataclass decorator made __eq__."""
  for c in cls.mro():
    if isinstance(c, ClassV) and c.dc is not None and c.dc.get('eq', True):
      return c
  return None


class Inst:
  """Instance of an analysed class."""
  interp = None

  def __init__(self, cls):
    self.cls = cls
    self.attrs = {}

  def _key(self, cls=None):
    f = (cls or self.cls).dc_fields()
    return tuple(self.attrs.get(n) for n in f)

  def __eq__(self, o):
    if self is o:
      return True
    if not isinstance(o, Inst):
      return NotImplemented
    m, owner = self.cls.lookup('__eq__')
    dc = _dc_eq(self.cls)
    mro = self.cls.mro()
    if m is not None and not (dc is not None and isinstance(owner, ClassV) and
                              mro.index(dc) < mro.index(owner)):
      return bool(self.interp.call(Bound(m, self), [o], {}))
    if dc is not None:
      if o.cls is not self.cls:
        return False
      return self._key(dc) == o._key(dc)
    return False

  def __hash__(self):
    m, _ = self.cls.lookup('__hash__')
    if m is not None and not isinstance(m, type(None)):
      return hash(self.interp.call(Bound(m, self), [], {}))
    dc = _dc_eq(self.cls)
    if dc is not None:
      if not dc.dc.get('frozen') and not dc.dc.get('unsafe_hash'):
        raise_py('TypeError', f'unhashable type: {self.cls.name}')
      return hash((self.cls.qual,) + tuple(
          hash_value(x) for x in self._key(dc)))
    return id(self)

  def __repr__(self):
    return f'<{self.cls.name} instance>'

  # python level arithmetic (used by object ndarrays)
  def _bin(self, op, o, swap=False):
    return self.interp.binop(op, o, self) if swap else self.interp.binop(op, self, o)

  def __add__(self, o):
    return self._bin('add', o)

  def __radd__(self, o):
    return self._bin('add', o, True)

  def __sub__(self, o):
    return self._bin('sub', o)

  def __rsub__(self, o):
    return self._bin('sub', o, True)

  def __mul__(self, o):
    return self._bin('mul', o)

  def __rmul__(self, o):
    return self._bin('mul', o, True)

  def __truediv__(self, o):
    return self._bin('truediv', o)

  def __rtruediv__(self, o):
    return self._bin('truediv', o, True)

  def __pow__(self, o):
    return self._bin('pow', o)

  def __neg__(self):
    return self.interp.unaryop('neg', self)


def hash_value(v):
  if isinstance(v, (list, dict, set)):
    raise_py('TypeError', f'unhashable type: {type(v).__name__!r}')
  if isinstance(v, tuple):
    return hash(tuple(hash_value(x) for x in v))
  return hash(v)


def dc_fields(cls):
  out = []
  for c in reversed(cls.mro()):
    if isinstance(c, ClassV) and c.dc is not None:
      for n in c.fields_:
        if n not in out:
          out.append(n)
  return out


ClassV.dc_fields = dc_fields


class SuperV:

  def __init__(self, cls, obj):
    self.cls = cls
    self.obj = obj


class Phi:
  """Join of two non-numeric values under an abstract condition."""

  def __init__(self, c, a, b):
    self.c, self.a, self.b = c, a, b

  def __repr__(self):
    return f'<phi {self.a!r} | {self.b!r}>'


class Unset:
  """Value of a variable that is unusable after a join."""

  def __init__(self, why):
    self.why = why


class _Break(Exception):
  pass


class _Continue(Exception):
  pass


RET, BRK, CNT = 'return', 'break', 'continue'

_BINOPS = {
    ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv',
    ast.FloorDiv: 'floordiv', ast.Mod: 'mod', ast.Pow: 'pow',
    ast.MatMult: 'matmul', ast.BitAnd: 'and', ast.BitOr: 'or',
    ast.BitXor: 'xor', ast.LShift: 'lshift', ast.RShift: 'rshift',
}
_CMPOPS = {
    ast.Eq: 'eq', ast.NotEq: 'ne', ast.Lt: 'lt', ast.LtE: 'le',
    ast.Gt: 'gt', ast.GtE: 'ge', ast.Is: 'is', ast.IsNot: 'isnot',
    ast.In: 'in', ast.NotIn: 'notin',
}
_SWAP = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le', 'eq': 'eq', 'ne': 'ne'}
_UFUNC = {
    'add': 'add', 'sub': 'subtract', 'mul': 'multiply',
    'truediv': 'true_divide', 'floordiv': 'floor_divide', 'mod': 'remainder',
    'pow': 'power', 'matmul': 'matmul', 'and': 'bitwise_and',
    'or': 'bitwise_or', 'xor': 'bitwise_xor',
    'lt': 'less', 'gt': 'greater', 'le': 'less_equal', 'ge': 'greater_equal',
    'eq': 'equal', 'ne': 'not_equal', 'neg': 'negative', 'pos': 'positive',
    'abs': 'absolute', 'invert': 'invert',
}


_DIR = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs')
STUBS = {f[:-3]: os.path.join(_DIR, f) for f in sorted(os.listdir(_DIR))
         if f.endswith('.py')}


def _typelike(v):
  if isinstance(v, tuple):
    return bool(v) and all(_typelike(x) for x in v)
  return v is None or isinstance(v, (TypeV, ClassV, Ext))


def _undecided(ip, args, kwargs):
  raise Undecided('a library call outside its model')


class Interp:

  def __init__(self, repo=None, overrides=None):
    self.repo = repo or REPO
    self.modules = {}
    self.overrides = dict(overrides or {})
    self.events = []
    self.funcs_analysed = {}
    self.callsites = set()
    self.nstmts = 0
    self.joins = 0
    self.unmodelled = {}
    self.stack = []
    self.depth = 0
    self.last_ret = None
    self.assumed = []
    self.writes = []
    self.pytree_reg = []
    Inst.interp = self
    from . import models
    self.models = models
    models.install(self)

  # ---------------------------------------------------------------- modules

  def modpath(self, name):
    p = os.path.join(self.repo, *name.split('.'))
    if os.path.isfile(p + '.py'):
      return p + '.py'
    if os.path.isfile(os.path.join(p, '__init__.py')):
      return os.path.join(p, '__init__.py')
    if os.path.isdir(p) and name.split('.')[0] == 'jax_cfd':
      return p
    return None

  def load(self, name):
    m = self.modules.get(name)
    if m is not None:
      return m
    path = self.modpath(name)
    if path is None:
      raise AnalysisError(f'module {name} not found in the source tree')
    m = Module(name, path)
    self.modules[name] = m
    if os.path.isdir(path):
      m.tree = None
      return m
    with open(path, encoding='utf-8') as f:
      src = f.read()
    try:
      m.tree = ast.parse(src, path)
    except SyntaxError as e:
      raise AnalysisError(f'{path} does not parse: {e}')
    if not path.endswith('__init__.py'):
      env = Env(None, m)
      env.vars = m.vars
      self.exec_block(m.tree.body, env)
    m.done = True
    return m

  def module_attr(self, m, name):
    if name in m.vars:
      return m.vars[name]
    if m.path.endswith('__init__.py') or os.path.isdir(m.path):
      if self.modpath(m.name + '.' + name):
        return self.load(m.name + '.' + name)
      if m.path.endswith('__init__.py') and not m.vars.get('__inited__'):
        m.vars['__inited__'] = True
        env = Env(None, m)
        env.vars = m.vars
        self.exec_block(m.tree.body, env)
        if name in m.vars:
          return m.vars[name]
    raise_py('AttributeError', f'module {m.name} has no attribute {name}')

  def get(self, modname, attr):
    """Anchor lookup: modname.attr must exist in the current source."""
    m = self.load(modname)
    v = m
    for part in attr.split('.'):
      try:
        v = self.getattr(v, part)
      except PyRaise:
        raise AnalysisError(f'anchor {modname}.{attr} vanished')
    return v

  def import_module(self, name):
    if name.split('.')[0] == 'jax_cfd':
      return self.load(name)
    if name in STUBS:
      return self.load_stub(name)
    return Ext(name)

  def load_stub(self, name):
    """A library described by abstract source of its own (sa/stubs)."""
    m = self.modules.get(name)
    if m is None:
      m = Module(name, STUBS[name])
      m.stub = True
      self.modules[name] = m
      with open(m.path, encoding='utf-8') as f:
        m.tree = ast.parse(f.read(), m.path)
      env = Env(None, m)
      env.vars = m.vars
      m.vars['undecided'] = PyFn(_undecided, 'undecided')
      n = self.nstmts
      self.exec_block(m.tree.body, env)
      self.nstmts = n
      m.done = True
    return m

  def extra(self, lib, name):
    """A library function defined by other modelled ones, or None."""
    ns = self.load_stub(lib).vars
    name = name.replace('.', '__')
    return ns.get(name, ns.get(name + '_'))

  # ---------------------------------------------------------------- lookup

  def lookup(self, name, env):
    e = env
    while e is not None:
      v = e.vars
      if name in v:
        r = v[name]
        if isinstance(r, Unset):
          raise Undecided(f'variable {name}: {r.why}')
        return r
      e = e.parent
    v = env.mod.vars
    if name in v:
      return v[name]
    b = self.models.BUILTINS.get(name)
    if b is not None:
      return b
    if name in self.models.BUILTIN_CONSTS:
      return self.models.BUILTIN_CONSTS[name]
    if hasattr(builtins, name):
      raise Undecided(f'builtin {name}')
    raise_py('NameError', f"name '{name}' is not defined")

  def assign_name(self, name, val, env):
    if name in env.glob:
      env.mod.vars[name] = val
      self.writes.append(('global', env.mod.name, name))
      return
    if name in env.nonloc:
      e = env.parent
      while e is not None:
        if name in e.vars:
          e.vars[name] = val
          return
        e = e.parent
    env.vars[name] = val

  # ---------------------------------------------------------------- statements

  def exec_block(self, body, env):
    for st in body:
      r = self.exec_stmt(st, env)
      if r is not None:
        return r
    return None

  def exec_stmt(self, st, env):
    self.nstmts += 1
    VISITED.add((env.mod.path, st.lineno))
    m = getattr(self, 's_' + type(st).__name__, None)
    if m is None:
      raise Undecided(f'statement {type(st).__name__} at {env.mod.path}:{st.lineno}')
    return m(st, env)

  def s_Expr(self, st, env):
    if isinstance(st.value, ast.Constant):
      return None
    self.eval(st.value, env)

  def s_Pass(self, st, env):
    return None

  def s_Assign(self, st, env):
    v = self.eval(st.value, env)
    for t in st.targets:
      self.assign(t, v, env)

  def s_AnnAssign(self, st, env):
    if st.value is not None:
      self.assign(st.target, self.eval(st.value, env), env)

  def s_AugAssign(self, st, env):
    op = _BINOPS[type(st.op)]
    t = st.target
    if isinstance(t, ast.Name):
      cur = self.lookup(t.id, env)
    elif isinstance(t, ast.Attribute):
      obj = self.eval(t.value, env)
      cur = self.getattr(obj, t.attr)
    else:
      obj = self.eval(t.value, env)
      k = self.eval_index(t.slice, env)
      cur = self.getitem(obj, k)
    rhs = self.eval(st.value, env)
    if isinstance(cur, list) and op == 'add':
      cur.extend(self.iterate(rhs))
      v = cur
    elif isinstance(cur, Inst) and cur.cls.lookup('__i' + op + '__')[0]:
      v = self.call(Bound(cur.cls.lookup('__i' + op + '__')[0], cur), [rhs], {})
    else:
      v = self.binop(op, cur, rhs)
    if isinstance(t, ast.Name):
      self.assign_name(t.id, v, env)
    elif isinstance(t, ast.Attribute):
      self.setattr(obj, t.attr, v)
    else:
      self.setitem(obj, k, v, t, env)

  def assign(self, t, v, env):
    if isinstance(t, ast.Name):
      self.assign_name(t.id, v, env)
    elif isinstance(t, (ast.Tuple, ast.List)):
      vals = list(self.iterate(v))
      star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
      if star:
        i = star[0]
        after = len(t.elts) - i - 1
        if len(vals) < len(t.elts) - 1:
          raise_py('ValueError', 'not enough values to unpack')
        for e, x in zip(t.elts[:i], vals[:i]):
          self.assign(e, x, env)
        self.assign(t.elts[i].value, vals[i:len(vals) - after], env)
        if after:
          for e, x in zip(t.elts[i + 1:], vals[-after:]):
            self.assign(e, x, env)
      else:
        if len(vals) != len(t.elts):
          raise_py('ValueError', f'cannot unpack {len(vals)} values into {len(t.elts)}')
        for e, x in zip(t.elts, vals):
          self.assign(e, x, env)
    elif isinstance(t, ast.Attribute):
      self.setattr(self.eval(t.value, env), t.attr, v)
    elif isinstance(t, ast.Subscript):
      obj = self.eval(t.value, env)
      self.setitem(obj, self.eval_index(t.slice, env), v, t, env)
    elif isinstance(t, ast.Starred):
      self.assign(t.value, list(self.iterate(v)), env)
    else:
      raise Undecided('assignment target')

  def s_Return(self, st, env):
    v = None if st.value is None else self.eval(st.value, env)
    self.last_ret = (env.mod.path, st.lineno)
    return (RET, v, st.lineno)

  def s_If(self, st, env):
    c = self.truth(self.eval(st.test, env))
    if c is True:
      return self.exec_block(st.body, env)
    if c is False:
      return self.exec_block(st.orelse, env)
    return self.branch(c, lambda: self.exec_block(st.body, env),
                       lambda: self.exec_block(st.orelse, env), env)

  def branch(self, c, f1, f2, env):
    """Analyses both arms and joins."""
    self.joins += 1
    save = dict(env.vars)
    pend = list(env.pending)
    r1 = r2 = x1 = x2 = None
    try:
      r1 = f1()
    except PyRaise as e:
      x1 = e
    v1 = dict(env.vars)
    p1 = env.pending[len(pend):]
    env.vars.clear()
    env.vars.update(save)
    env.pending = list(pend)
    try:
      r2 = f2()
    except PyRaise as e:
      x2 = e
    v2 = dict(env.vars)
    p2 = env.pending[len(pend):]
    env.pending = list(pend)
    nc = X.lnot(c)
    if x1 is not None and x2 is not None:
      raise x1
    if x1 is not None:
      self.assumed.append(('not', c, x1))
      env.pending += p2
      return r2
    if x2 is not None:
      self.assumed.append(('is', c, x2))
      env.vars.clear()
      env.vars.update(v1)
      env.pending += p1
      return r1
    env.pending += [(X.mul(c, q), v) for q, v in p1]
    env.pending += [(X.mul(nc, q), v) for q, v in p2]

    def kind(r):
      return None if r is None else r[0]
    k1, k2 = kind(r1), kind(r2)
    if k1 == RET and k2 == RET:
      return (RET, self.ite(c, r1[1], r2[1]), r1[2])
    if k1 == RET and k2 is None:
      env.pending.append((c, r1[1]))
      return None  # env holds v2
    if k2 == RET and k1 is None:
      env.pending.append((nc, r2[1]))
      env.vars.clear()
      env.vars.update(v1)
      return None
    if k1 is None and k2 is None:
      self.join_vars(c, v1, v2, env)
      return None
    raise Undecided('break/continue under an abstract condition')

  def join_vars(self, c, v1, v2, env):
    out = {}
    for n in list(v1) + [k for k in v2 if k not in v1]:
      if n in v1 and n in v2:
        a, b = v1[n], v2[n]
        if a is b:
          out[n] = a
          continue
        try:
          out[n] = self.ite(c, a, b)
        except Undecided as e:
          out[n] = Unset(str(e))
      else:
        out[n] = Unset('bound on one branch only')
    env.vars.clear()
    env.vars.update(out)

  def ite(self, c, a, b):
    if a is b:
      return a
    if type(a) is type(b) and not isinstance(a, (Arr, list, dict, set, Inst)):
      try:
        if a == b:
          return a
      except Exception:  # pylint: disable=broad-except
        pass
    num = (int, Fraction, float, Expr, Arr, bool)
    if isinstance(a, num) and isinstance(b, num):
      return self.models.where3(c, a, b)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and \
        type(a) is type(b) and len(a) == len(b):
      return type(a)(self.ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Inst) and isinstance(b, Inst) and a.cls is b.cls and \
        set(a.attrs) == set(b.attrs):
      r = Inst(a.cls)
      for k in a.attrs:
        r.attrs[k] = self.ite(c, a.attrs[k], b.attrs[k])
      return r
    return Phi(c, a, b)

  def s_For(self, st, env):
    it = self.eval(st.iter, env)
    for x in self.iterate(it):
      self.assign(st.target, x, env)
      r = self.exec_block(st.body, env)
      if r is not None:
        if r[0] == BRK:
          return None
        if r[0] == RET:
          return r
    return self.exec_block(st.orelse, env) if st.orelse else None

  def s_While(self, st, env):
    n = 0
    while True:
      c = self.truth(self.eval(st.test, env))
      if c is False:
        break
      if c is not True:
        raise Undecided('while loop on an abstract condition')
      n += 1
      if n > 10000:
        raise Undecided('unbounded loop')
      r = self.exec_block(st.body, env)
      if r is not None:
        if r[0] == BRK:
          return None
        if r[0] == RET:
          return r
    return self.exec_block(st.orelse, env) if st.orelse else None

  def s_Break(self, st, env):
    return (BRK,)

  def s_Continue(self, st, env):
    return (CNT,)

  def s_FunctionDef(self, st, env):
    f = self.make_func(st, env, st.name)
    v = f
    for d in reversed(st.decorator_list):
      v = self.call(self.eval(d, env), [v], {}, d, env)
    self.assign_name(st.name, v, env)

  s_AsyncFunctionDef = s_FunctionDef

  def make_func(self, node, env, name):
    f = Func(node, env, env.mod, name, env.cls)
    a = node.args
    f.defaults = [self.eval(d, env) for d in a.defaults]
    f.kwdefaults = {k.arg: self.eval(d, env)
                    for k, d in zip(a.kwonlyargs, a.kw_defaults)
                    if d is not None}
    # functions in a class body close over the enclosing scope
    if env.cls is not None:
      f.env = env.parent
    return f

  def s_ClassDef(self, st, env):
    bases = [self.eval(b, env) for b in st.bases]
    cenv = Env(env if env.parent is not None or env.vars is not env.mod.vars
               else None, env.mod)
    cls = ClassV(st.name, bases, cenv.vars, env.mod, st)
    cenv.cls = cls
    self.exec_block(st.body, cenv)
    cls.annots = [s.target.id for s in st.body if isinstance(s, ast.AnnAssign)
                  and isinstance(s.target, ast.Name)]
    self.models.finish_class(self, cls)
    for x in list(cls.ns.items()):
      if isinstance(x[1], Inst):
        g, _ = x[1].cls.lookup('__set_name__')
        if g is not None:
          self.call(g, [x[1], cls, x[0]], {})
    for b in cls.mro()[1:]:
      if isinstance(b, ClassV) and '__init_subclass__' in b.ns:
        g = b.ns['__init_subclass__']
        self.call(getattr(g, 'func', g), [cls], {
            k.arg: self.eval(k.value, env) for k in st.keywords
            if k.arg is not None})
        break
    v = cls
    for d in reversed(st.decorator_list):
      v = self.call(self.eval(d, env), [v], {}, d, env)
    self.assign_name(st.name, v, env)

  def s_Import(self, st, env):
    for a in st.names:
      if a.asname:
        self.assign_name(a.asname, self.import_module(a.name), env)
      else:
        top = a.name.split('.')[0]
        if top == 'jax_cfd':
          self.load(a.name)
        self.assign_name(top, self.import_module(top), env)

  def s_ImportFrom(self, st, env):
    if st.module == '__future__':
      return
    mod = self.import_module(st.module)
    for a in st.names:
      if a.name == '*':
        if isinstance(mod, Module):
          for k, v in mod.vars.items():
            if not k.startswith('_'):
              self.assign_name(k, v, env)
        continue
      try:
        v = self.getattr(mod, a.name)
      except PyRaise:
        raise_py('ImportError', f'cannot import {a.name} from {st.module}')
      self.assign_name(a.asname or a.name, v, env)

  def s_Raise(self, st, env):
    if st.exc is None:
      raise PyRaise(ExcV(EXCS['Exception']), (env.mod.path, st.lineno))
    v = self.eval(st.exc, env)
    if isinstance(v, (TypeV, ClassV)):
      v = self.call(v, [], {})
    raise PyRaise(v, (env.mod.path, st.lineno))

  def s_Assert(self, st, env):
    c = self.truth(self.eval(st.test, env))
    if c is False:
      raise PyRaise(ExcV(EXCS['AssertionError']), (env.mod.path, st.lineno))

  def s_Delete(self, st, env):
    for t in st.targets:
      if isinstance(t, ast.Name):
        env.vars.pop(t.id, None)
      elif isinstance(t, ast.Subscript):
        obj = self.eval(t.value, env)
        k = self.eval_index(t.slice, env)
        if isinstance(obj, (list, dict)):
          del obj[k]
        else:
          raise Undecided('del on abstract object')

  def s_Global(self, st, env):
    env.glob = tuple(env.glob) + tuple(st.names)

  def s_Nonlocal(self, st, env):
    env.nonloc = tuple(env.nonloc) + tuple(st.names)

  def exc_matches(self, exc, handler, env):
    if handler.type is None:
      return True
    t = self.eval(handler.type, env)
    ts = t if isinstance(t, tuple) else (t,)
    v = exc.value
    cls = v.cls
    for x in ts:
      if cls is x:
        return True
      if x in cls.mro():
        return True
      if isinstance(x, Ext):
        return False
    return False

  def s_Try(self, st, env):
    try:
      try:
        r = self.exec_block(st.body, env)
      except PyRaise as e:
        for h in st.handlers:
          if self.exc_matches(e, h, env):
            if h.name:
              env.vars[h.name] = e.value
            r = self.exec_block(h.body, env)
            break
        else:
          raise
      else:
        if r is None and st.orelse:
          r = self.exec_block(st.orelse, env)
    finally:
      fr = self.exec_block(st.finalbody, env) if st.finalbody else None
      if fr is not None:
        return fr
    return r

  def s_Match(self, st, env):
    v = self.eval(st.subject, env)

    def rest(k):
      for n in range(k, len(st.cases)):
        case = st.cases[n]
        got = {}
        c = self.pattern(case.pattern, v, got, env)
        if c is False:
          continue

        def arm(case=case, got=got, n=n):
          for name, x in got.items():
            self.assign_name(name, x, env)
          if case.guard is not None:
            g = self.truth(self.eval(case.guard, env))
            if g is False:
              return rest(n + 1)
            if g is not True:
              return self.branch(g, lambda: self.exec_block(case.body, env),
                                 lambda: rest(n + 1), env)
          return self.exec_block(case.body, env)
        if c is True:
          return arm()
        return self.branch(c, arm, lambda n=n: rest(n + 1), env)
      return None
    return rest(0)

  def pattern(self, p, v, got, env):
    """True / False / condition under which the pattern matches."""
    if isinstance(p, ast.MatchValue):
      return self.truth(self.compare('eq', v, self.eval(p.value, env)))
    if isinstance(p, ast.MatchSingleton):
      return v is p.value
    if isinstance(p, ast.MatchAs):
      c = True if p.pattern is None else self.pattern(p.pattern, v, got, env)
      if c is not False and p.name is not None:
        got[p.name] = v
      return c
    if isinstance(p, ast.MatchOr):
      acc = False
      for q in p.patterns:
        c = self.pattern(q, v, got, env)
        if c is True:
          return True
        if c is not False:
          acc = c if acc is False else X.lor(acc, c)
      return acc
    acc = True

    def meet(c):
      nonlocal acc
      if c is not True:
        acc = c if acc is True or c is False else X.land(acc, c)
      return acc is not False
    if isinstance(p, ast.MatchSequence):
      if isinstance(v, Inst) and '__tuple__' in v.attrs:
        v = v.attrs['__tuple__']
      if not isinstance(v, (tuple, list, range)):
        if isinstance(v, (Inst, Arr, str, dict, set)) or v is None or \
            self.models.is_num(v):
          return False
        raise Undecided('sequence pattern on an abstract value')
      v = list(v)
      star = [n for n, q in enumerate(p.patterns)
              if isinstance(q, ast.MatchStar)]
      if not star and len(v) != len(p.patterns) or \
          star and len(v) < len(p.patterns) - 1:
        return False
      if star:
        k, tail = star[0], len(p.patterns) - star[0] - 1
        if p.patterns[k].name is not None:
          got[p.patterns[k].name] = v[k:len(v) - tail]
        pairs = list(zip(p.patterns[:k], v[:k])) + list(
            zip(p.patterns[k + 1:], v[len(v) - tail:]))
      else:
        pairs = list(zip(p.patterns, v))
      for q, x in pairs:
        if not meet(self.pattern(q, x, got, env)):
          return False
      return acc
    if isinstance(p, ast.MatchMapping):
      if not isinstance(v, dict):
        return False
      keys = [self.eval(k, env) for k in p.keys]
      for k, q in zip(keys, p.patterns):
        if k not in v or not meet(self.pattern(q, v[k], got, env)):
          return False
      if p.rest is not None:
        got[p.rest] = {k: x for k, x in v.items() if k not in keys}
      return acc
    if isinstance(p, ast.MatchClass):
      cls = self.eval(p.cls, env)
      from . import lib_py
      if not meet(self.truth(lib_py.isinst(self, v, cls))):
        return False
      names = []
      if p.patterns:
        if isinstance(cls, TypeV):
          if len(p.patterns) != 1:
            raise_py('TypeError', f'{cls.name}() accepts 1 positional sub-pattern')
          return acc if meet(self.pattern(p.patterns[0], v, got, env)) else False
        m, _ = cls.lookup('__match_args__')
        names = list(m) if m is not None else list(
            cls.dc_fields() if cls.dc is not None else cls.fields_)
        if len(p.patterns) > len(names):
          raise_py('TypeError', f'{cls.name}() accepts {len(names)} '
                   'positional sub-patterns')
      for n, q in list(zip(names, p.patterns)) + list(
          zip(p.kwd_attrs, p.kwd_patterns)):
        try:
          x = self.getattr(v, n)
        except PyRaise:
          return False
        if not meet(self.pattern(q, x, got, env)):
          return False
      return acc
    raise Undecided(f'pattern {type(p).__name__}')

  def s_With(self, st, env):
    return self._with(st, list(st.items), env)

  def _with(self, st, items, env):
    if not items:
      return self.exec_block(st.body, env)
    it = items[0]
    cm = self.eval(it.context_expr, env)
    if isinstance(cm, ContextGen):
      res = []

      def body(v):
        if it.optional_vars is not None:
          self.assign(it.optional_vars, v, env)
        res.append(self._with(st, items[1:], env))
        return None
      self.run_gen(cm.func, cm.args, cm.kwargs, body)
      if not res:
        raise Undecided('context manager did not yield')
      return res[0]
    if isinstance(cm, Inst):
      v = self.call(self.getattr(cm, '__enter__'), [], {})
      if it.optional_vars is not None:
        self.assign(it.optional_vars, v, env)
      leave = self.getattr(cm, '__exit__')
      try:
        r = self._with(st, items[1:], env)
      except PyRaise as e:
        if self.truth(self.call(leave, [e.value.cls, e.value, None], {})) is True:
          return None
        raise
      self.call(leave, [None, None, None], {})
      return r
    if it.optional_vars is not None:
      self.assign(it.optional_vars, cm, env)
    return self._with(st, items[1:], env)

  # ---------------------------------------------------------------- expressions

  def eval(self, e, env):
    m = getattr(self, 'e_' + type(e).__name__, None)
    if m is None:
      raise Undecided(f'expression {type(e).__name__} at '
                      f'{env.mod.path}:{e.lineno}')
    return m(e, env)

  def e_Constant(self, e, env):
    v = e.value
    if isinstance(v, float):
      return Fraction(repr(v))
    if isinstance(v, complex):
      return X.lift(v)
    return v

  def e_Name(self, e, env):
    return self.lookup(e.id, env)

  def e_Attribute(self, e, env):
    return self.getattr(self.eval(e.value, env), e.attr)

  def e_Tuple(self, e, env):
    return tuple(self.elts(e.elts, env))

  def e_List(self, e, env):
    return self.elts(e.elts, env)

  def e_Set(self, e, env):
    vals = self.elts(e.elts, env)
    for v in vals:
      hash_value(v)
    return set(vals)

  def elts(self, xs, env):
    out = []
    for x in xs:
      if isinstance(x, ast.Starred):
        out.extend(self.iterate(self.eval(x.value, env)))
      else:
        out.append(self.eval(x, env))
    return out

  def e_Dict(self, e, env):
    d = {}
    for k, v in zip(e.keys, e.values):
      if k is None:
        d.update(self.eval(v, env))
      else:
        kk = self.eval(k, env)
        hash_value(kk)
        d[kk] = self.eval(v, env)
    return d

  def e_BinOp(self, e, env):
    a = self.eval(e.left, env)
    b = self.eval(e.right, env)
    if isinstance(e.op, ast.BitOr) and _typelike(a) and _typelike(b):
      return tuple(y for x in (a, b)
                   for y in (x if isinstance(x, tuple) else (x,)))
    try:
      return self.binop(_BINOPS[type(e.op)], a, b)
    except PyRaise as x:
      if x.where is None:
        x.where = (env.mod.path, e.lineno)
      raise

  def e_UnaryOp(self, e, env):
    v = self.eval(e.operand, env)
    if isinstance(e.op, ast.Not):
      c = self.truth(v)
      return (not c) if isinstance(c, bool) else X.lnot(c)
    op = {ast.USub: 'neg', ast.UAdd: 'pos', ast.Invert: 'invert'}[type(e.op)]
    return self.unaryop(op, v)

  def e_BoolOp(self, e, env):
    is_and = isinstance(e.op, ast.And)
    acc = None  # abstract condition accumulated so far
    v = None
    for n, x in enumerate(e.values):
      v = self.eval(x, env)
      c = self.truth(v)
      if isinstance(c, bool):
        if acc is None:
          if c != is_and:
            return v
          continue
        if c != is_and:
          return c
        continue
      acc = c if acc is None else (X.land(acc, c) if is_and else X.lor(acc, c))
    return v if acc is None else acc

  def e_Compare(self, e, env):
    left = self.eval(e.left, env)
    acc = None
    for op, r in zip(e.ops, e.comparators):
      right = self.eval(r, env)
      v = self.compare(_CMPOPS[type(op)], left, right)
      if len(e.ops) == 1:
        return v
      c = self.truth(v)
      if c is False:
        return False
      if c is not True:
        acc = c if acc is None else X.land(acc, c)
      left = right
    return True if acc is None else acc

  def e_IfExp(self, e, env):
    c = self.truth(self.eval(e.test, env))
    if c is True:
      return self.eval(e.body, env)
    if c is False:
      return self.eval(e.orelse, env)
    self.joins += 1
    try:
      a = self.eval(e.body, env)
    except PyRaise as x:
      self.assumed.append(('not', c, x))
      return self.eval(e.orelse, env)
    try:
      b = self.eval(e.orelse, env)
    except PyRaise as x:
      self.assumed.append(('is', c, x))
      return a
    return self.ite(c, a, b)

  def e_Call(self, e, env):
    f = self.eval(e.func, env)
    args = []
    for a in e.args:
      if isinstance(a, ast.Starred):
        args.extend(self.iterate(self.eval(a.value, env)))
      else:
        args.append(self.eval(a, env))
    kwargs = {}
    for k in e.keywords:
      if k.arg is None:
        d = self.eval(k.value, env)
        if not isinstance(d, dict):
          raise Undecided('** of abstract mapping')
        kwargs.update(d)
      else:
        kwargs[k.arg] = self.eval(k.value, env)
    if not env.mod.stub:
      self.callsites.add((env.mod.name, e.lineno, e.col_offset))
    if isinstance(f, PyFn) and f.name == 'super' and not args:
      return SuperV(env_cls(env), env_self(env))
    try:
      return self.call(f, args, kwargs, e, env)
    except PyRaise as x:
      if x.where is None:
        x.where = (env.mod.path, e.lineno)
      raise
    except A.ShapeError as x:
      raise PyRaise(ExcV(EXCS['ValueError'], (str(x),)),
                    (env.mod.path, e.lineno))

  def e_Lambda(self, e, env):
    return self.make_func(e, env, '<lambda>')

  def e_Subscript(self, e, env):
    v = self.eval(e.value, env)
    return self.getitem(v, self.eval_index(e.slice, env))

  def eval_index(self, s, env):
    return self.eval(s, env)

  def e_Slice(self, e, env):
    f = lambda x: None if x is None else self.eval(x, env)
    return slice(f(e.lower), f(e.upper), f(e.step))

  def e_Starred(self, e, env):
    raise Undecided('starred expression')

  def e_JoinedStr(self, e, env):
    out = []
    for v in e.values:
      if isinstance(v, ast.Constant):
        out.append(v.value)
      else:
        try:
          x = self.eval(v.value, env)
        except PyRaise:
          raise
        if isinstance(x, Fraction) and x.denominator == 1 and not v.format_spec:
          x = float(x)
        if v.conversion == 114:
          out.append(repr(x))
        elif v.format_spec is not None and isinstance(x, (int, Fraction)):
          spec = ''.join(str(c.value) for c in v.format_spec.values
                         if isinstance(c, ast.Constant))
          try:
            out.append(format(x if isinstance(x, int) else float(x), spec))
          except (ValueError, TypeError):
            out.append(str(x))
        else:
          out.append(str(x))
    return ''.join(out)

  def e_ListComp(self, e, env):
    out = []
    self.comp(e.generators, env, lambda en: out.append(self.eval(e.elt, en)))
    return out

  def e_SetComp(self, e, env):
    out = []
    self.comp(e.generators, env, lambda en: out.append(self.eval(e.elt, en)))
    for v in out:
      hash_value(v)
    return set(out)

  def e_GeneratorExp(self, e, env):
    return GenV(self.e_ListComp(e, env))

  def e_DictComp(self, e, env):
    out = {}

    def add(en):
      k = self.eval(e.key, en)
      hash_value(k)
      out[k] = self.eval(e.value, en)
    self.comp(e.generators, env, add)
    return out

  def comp(self, gens, env, leaf):
    first = self.eval(gens[0].iter, env)

    def rec(n, en):
      if n == len(gens):
        leaf(en)
        return
      g = gens[n]
      it = first if n == 0 else self.eval(g.iter, en)
      for x in self.iterate(it):
        self.assign(g.target, x, en)
        ok = True
        for c in g.ifs:
          t = self.truth(self.eval(c, en))
          if t is False:
            ok = False
            break
          if t is not True:
            raise Undecided('comprehension filter on an abstract condition')
        if ok:
          # closures created in the element capture this iteration's scope
          rec(n + 1, en)
    en = Env(env if not (env.cls is not None) else env, env.mod, env.func)
    rec(0, en)

  def e_Yield(self, e, env):
    v = None if e.value is None else self.eval(e.value, env)
    en = env
    while en is not None and en.ycb is None:
      en = en.parent
    if en is None:
      raise Undecided('yield outside a generator')
    return en.ycb(v)

  def e_YieldFrom(self, e, env):
    for v in self.iterate(self.eval(e.value, env)):
      env.ycb(v)
    return None

  def e_NamedExpr(self, e, env):
    v = self.eval(e.value, env)
    self.assign(e.target, v, env)
    return v

  # ---------------------------------------------------------------- calls

  def call(self, f, args, kwargs, node=None, env=None):
    if isinstance(f, Func):
      return self.call_func(f, args, kwargs)
    if isinstance(f, Bound):
      return self.call(f.func, [f.self_] + list(args), kwargs, node, env)
    if isinstance(f, PyFn):
      return f.fn(self, args, kwargs)
    if isinstance(f, Ext):
      return self.models.call_ext(self, f.name, args, kwargs)
    if isinstance(f, Partial):
      kw = dict(f.kwargs)
      kw.update(kwargs)
      return self.call(f.func, list(f.args) + list(args), kw, node, env)
    if isinstance(f, ClassV):
      return self.instantiate(f, args, kwargs)
    if isinstance(f, TypeV):
      if any(t.name == 'BaseException' for t in f.mro()):
        return ExcV(f, tuple(args))
      h = self.models.TYPE_CALLS.get(f.name)
      if h is None:
        raise Undecided(f'call of type {f.name}')
      return h(self, args, kwargs)
    if isinstance(f, Inst):
      m, _ = f.cls.lookup('__call__')
      if m is None:
        if f.cls.is_exc():
          raise_py('TypeError', 'exception not callable')
        raise_py('TypeError', f'{f.cls.name} object is not callable')
      return self.call(m, [f] + list(args), kwargs, node, env)
    if isinstance(f, StaticMethodV):
      return self.call(f.func, args, kwargs, node, env)
    if isinstance(f, Phi):
      return self.ite(f.c, self.call(f.a, args, kwargs),
                      self.call(f.b, args, kwargs))
    if isinstance(f, Arr) and f.shape is None:
      return self.models.opaque_call(self, 'call', [f] + list(args), kwargs)
    if f is None or isinstance(f, (int, str, tuple, list, Fraction)):
      raise_py('TypeError', f'{type(f).__name__} object is not callable')
    raise Undecided(f'call of {f!r}')

  def bind(self, f, args, kwargs):
    """Parameter binding with Python's rules; TypeError on mismatch."""
    a = f.node.args
    names = [p.arg for p in a.posonlyargs + a.args]
    vars_ = {}
    args = list(args)
    kwargs = dict(kwargs)
    if len(args) > len(names):
      if a.vararg is None:
        raise_py('TypeError', f'{f.name}() takes {len(names)} positional '
                 f'arguments but {len(args)} were given')
      vars_[a.vararg.arg] = tuple(args[len(names):])
      args = args[:len(names)]
    elif a.vararg is not None:
      vars_[a.vararg.arg] = ()
    for n, v in zip(names, args):
      vars_[n] = v
    for n in names[len(args):]:
      if n in kwargs:
        vars_[n] = kwargs.pop(n)
    for n in names[:len(args)]:
      if n in kwargs and a.kwarg is None:
        raise_py('TypeError', f'{f.name}() got multiple values for {n}')
    nd = len(f.defaults)
    for k, n in enumerate(names):
      if n not in vars_:
        j = k - (len(names) - nd)
        if j < 0:
          raise_py('TypeError', f"{f.name}() missing required argument '{n}'")
        vars_[n] = f.defaults[j]
    for p in a.kwonlyargs:
      n = p.arg
      if n in kwargs:
        vars_[n] = kwargs.pop(n)
      elif n in f.kwdefaults:
        vars_[n] = f.kwdefaults[n]
      else:
        raise_py('TypeError', f"{f.name}() missing keyword argument '{n}'")
    if a.kwarg is not None:
      vars_[a.kwarg.arg] = kwargs
    elif kwargs:
      raise_py('TypeError', f'{f.name}() got an unexpected keyword argument '
               f'{sorted(kwargs)[0]!r}')
    return vars_

  def call_func(self, f, args, kwargs):
    ov = self.overrides.get(f.qual)
    if ov is not None:
      vars_ = self.bind(f, args, kwargs)
      r = ov(self, f, vars_)
      if r is not NotImplemented:
        return r
    if f.is_gen is None:
      f.is_gen = _is_generator(f.node)
    if f.is_gen:
      if f.attrs.get('__ctx__'):
        return ContextGen(f, args, kwargs)
      out = []

      def put(v):
        if len(out) >= 5000:
          raise Undecided(f'generator {f.name} does not end')
        out.append(v)
      try:
        self.run_gen(f, args, kwargs, put)
      except PyRaise as e:  # raised when the consumer gets that far
        return GenV(out, e)
      return GenV(out)
    return self.run(f, args, kwargs, None)

  def run_gen(self, f, args, kwargs, cb):
    return self.run(f, args, kwargs, cb)

  def run(self, f, args, kwargs, ycb):
    if self.depth > 150:
      raise Undecided(f'recursion too deep in {f.qual}')
    env = Env(f.env, f.mod, f)
    env.vars.update(self.bind(f, args, kwargs))
    env.ycb = ycb
    if not f.mod.stub:
      self.funcs_analysed.setdefault(f.qual, f.loc())
    self.depth += 1
    self.stack.append(f)
    try:
      if isinstance(f.node, ast.Lambda):
        r = self.eval(f.node.body, env)
        self.last_ret = (f.mod.path, f.node.lineno)
        return r
      sig = self.exec_block(f.node.body, env)
      ret = None
      if sig is not None and sig[0] == RET:
        ret = sig[1]
      for c, v in reversed(env.pending):
        ret = self.ite(c, v, ret)
      return ret
    except PyRaise as x:
      if x.where is None:
        x.where = (f.mod.path, f.node.lineno)
      raise
    finally:
      self.depth -= 1
      self.stack.pop()

  def instantiate(self, cls, args, kwargs):
    ov = self.overrides.get(cls.qual)
    if ov is not None:
      r = ov(self, cls, args, kwargs)
      if r is not NotImplemented:
        return r
    if cls.ns.get('__enum__') or any(
        isinstance(b, Ext) and b.name in ('enum.Enum', 'enum.IntEnum')
        for b in cls.mro()):
      for v in cls.ns.get('__members__', ()):
        if v is args[0] or v.attrs['value'] == args[0]:
          return v
      raise_py('ValueError', 'not a valid enum value')
    new, ncls = cls.lookup('__new__')
    if new is not None:
      obj = self.call(new, [cls] + list(args), kwargs)
      if not isinstance(obj, Inst):
        return obj
    else:
      obj = Inst(cls)
    if any(isinstance(c, TypeV) and c.name == 'BaseException'
           for c in cls.mro()):
      obj.attrs['args'] = tuple(args)
      init, _ = cls.lookup('__init__')
      if init is not None:
        self.call(init, [obj] + list(args), kwargs)
      return obj
    h = self.models.ext_base_init(self, cls, obj, args, kwargs)
    if h is not NotImplemented:
      return h
    init, icls = cls.lookup('__init__')
    dcls = None
    for c in cls.mro():
      if isinstance(c, ClassV):
        if '__init__' in c.ns:
          break
        if c.dc is not None and c.dc.get('init', True):
          dcls = c
          break
    if dcls is not None:
      self.dc_init(obj, dcls, args, kwargs)
    elif init is not None:
      self.call(init, [obj] + list(args), kwargs)
    elif (args or kwargs) and new is None:
      if not any(isinstance(c, Ext) for c in cls.mro()):
        raise_py('TypeError', f'{cls.name}() takes no arguments')
    return obj

  def dc_init(self, obj, cls, args, kwargs):
    fields = dc_fields(cls)
    kwargs = dict(kwargs)
    if len(args) > len(fields):
      raise_py('TypeError', f'{cls.name}() takes {len(fields)} arguments')
    for n, v in zip(fields, args):
      obj.attrs[n] = v
      if n in kwargs:
        raise_py('TypeError', f'multiple values for {n}')
    for n in fields[len(args):]:
      if n in kwargs:
        obj.attrs[n] = kwargs.pop(n)
      else:
        d, _ = cls.lookup(n)
        if isinstance(d, FieldV):
          if d.factory is not None:
            obj.attrs[n] = self.call(d.factory, [], {})
          elif d.has_default:
            obj.attrs[n] = d.default
          else:
            raise_py('TypeError', f'{cls.name}() missing {n}')
        elif d is not None or n in cls.ns:
          obj.attrs[n] = d
        else:
          raise_py('TypeError', f"{cls.name}() missing argument '{n}'")
    if kwargs:
      raise_py('TypeError', f'{cls.name}() unexpected argument {list(kwargs)[0]!r}')
    post, _ = obj.cls.lookup('__post_init__')
    if post is not None:
      self.call(post, [obj], {})

  # ---------------------------------------------------------------- attributes

  def getattr(self, v, name):
    if isinstance(v, Module):
      return self.module_attr(v, name)
    if isinstance(v, Ext):
      return self.models.ext_attr(self, v, name)
    if isinstance(v, Inst):
      return self.inst_attr(v, name)
    if isinstance(v, ClassV):
      if name == '__name__':
        return v.name
      if name == '__mro__':
        return tuple(v.mro())
      x, c = v.lookup(name)
      if c is not None:
        if isinstance(x, ClassMethodV):
          return Bound(x.func, v)
        if isinstance(x, StaticMethodV):
          return x.func
        return x
      if name == '__doc__':
        return ast.get_docstring(v.node)
      r = self.models.class_attr(self, v, name)
      if r is not NotImplemented:
        return r
      raise_py('AttributeError', f'class {v.name} has no attribute {name}')
    if isinstance(v, SuperV):
      mro = (v.obj.cls if isinstance(v.obj, Inst) else v.obj).mro()
      k = mro.index(v.cls)
      for c in mro[k + 1:]:
        if isinstance(c, ClassV) and name in c.ns:
          x = c.ns[name]
          if isinstance(x, PropertyV):
            return self.call(x.fget, [v.obj], {})
          if isinstance(x, StaticMethodV):
            return x.func
          if isinstance(x, ClassMethodV):
            return Bound(x.func, v.obj.cls)
          return Bound(x, v.obj)
      if name == '__init__':
        obj, cls_after = v.obj, mro[k + 1:]

        def init(interp, args, kwargs):
          for c in cls_after:
            if isinstance(c, ClassV) and c.dc is not None and \
                c.dc.get('init', True):
              interp.dc_init(obj, c, args, kwargs)
              return None
          return None
        return PyFn(init, 'super().__init__')
      return self.models.super_attr(self, v, name)
    if isinstance(v, Func):
      if name == '__name__':
        return v.attrs.get('__name__', v.name)
      if name in v.attrs:
        return v.attrs[name]
      if name in ('__doc__', '__qualname__', '__module__', '__wrapped__'):
        return v.attrs.get(name, v.name)
      if name == '__annotations__':
        a = v.node.args
        out = {x.arg: self.eval(x.annotation, v.env)
               for x in a.posonlyargs + a.args + a.kwonlyargs
               if x.annotation is not None}
        if getattr(v.node, 'returns', None) is not None:
          out['return'] = self.eval(v.node.returns, v.env)
        return out
      if name == '__defaults__':
        return tuple(v.defaults) or None
      if name == '__kwdefaults__':
        return dict(v.kwdefaults) or None
      if name == '__dict__':
        return v.attrs
      if name.startswith('__'):
        raise Undecided(f'attribute {name} of a function')
      raise_py('AttributeError', f'function has no attribute {name}')
    if isinstance(v, Partial):
      if name in ('func', 'args', 'keywords'):
        return {'func': v.func, 'args': tuple(v.args),
                'keywords': v.kwargs}[name]
      raise_py('AttributeError', f'partial has no attribute {name}')
    if isinstance(v, Phi):
      return self.ite(v.c, self.getattr(v.a, name), self.getattr(v.b, name))
    return self.models.value_attr(self, v, name)

  def inst_attr(self, v, name):
    x, c = v.cls.lookup(name)
    if c is not None and isinstance(x, PropertyV):
      return self.call(x.fget, [v], {})
    if name in v.attrs:
      return v.attrs[name]
    if c is not None:
      if isinstance(x, Func):
        return Bound(x, v)
      if isinstance(x, ClassMethodV):
        return Bound(x.func, v.cls)
      if isinstance(x, StaticMethodV):
        return x.func
      if isinstance(x, PyFn) and x.name != 'ufunc':
        return Bound(x, v) if getattr(x, 'method', False) else x
      if isinstance(x, FieldV):
        return x.default
      if isinstance(x, Inst):
        g, _ = x.cls.lookup('__get__')
        if g is not None:
          return self.call(g, [x, v, v.cls], {})
      return x
    if name == '__class__':
      return v.cls
    if name == '__dict__':
      return v.attrs
    r = self.models.inst_attr(self, v, name)
    if r is not NotImplemented:
      return r
    g, _ = v.cls.lookup('__getattr__')
    if g is not None:
      return self.call(g, [v, name], {})
    raise_py('AttributeError', f'{v.cls.name} has no attribute {name}')

  def setattr(self, obj, name, v):
    if isinstance(obj, Inst):
      if obj.cls.dc is not None and any(
          isinstance(c, ClassV) and c.dc and c.dc.get('frozen')
          for c in obj.cls.mro()):
        raise_py('AttributeError', f'cannot assign to field {name}')
      x, _ = obj.cls.lookup(name)
      if isinstance(x, PropertyV):
        if x.fset is None:
          raise_py('AttributeError', f'cannot set {name}')
        self.call(x.fset, [obj, v], {})
        return
      own, _ = obj.cls.lookup('__setattr__')
      if isinstance(own, Func):
        self.call(own, [obj, name, v], {})
        return
      obj.attrs[name] = v
      return
    if isinstance(obj, (Func, PyFn)):
      obj.attrs[name] = v
      return
    if isinstance(obj, ClassV):
      obj.ns[name] = v
      return
    if isinstance(obj, Module):
      obj.vars[name] = v
      return
    raise Undecided(f'attribute assignment on {type(obj).__name__}')

  # ---------------------------------------------------------------- operators

  def truth(self, v):
    """True / False / abstract condition (0-1 valued Expr)."""
    if v is None:
      return False
    if isinstance(v, bool):
      return v
    if isinstance(v, (int, Fraction, float, str, tuple, list, dict, set,
                      frozenset)):
      return bool(v)
    if isinstance(v, range):
      return bool(v)
    if isinstance(v, Expr):
      if v.is_const():
        return v.const_value() != 0
      if all(a.boolean for a in v.atoms()):
        return v
      s = X.sign_of(v)
      if s is not None:
        return s != 0
      return X.lnot(X.eq0(v))
    if isinstance(v, Arr):
      if v.shape == ():
        return self.truth(v.scalar())
      if v.shape is None:
        return X.of_atom(X.mkatom('truth', (v.scalar(),), boolean=True))
      if all(isinstance(d, int) and d == 1 for d in v.shape):
        return self.truth(v.scalar())
      raise_py('ValueError', 'truth value of an array')
    if isinstance(v, Inst):
      m, _ = v.cls.lookup('__bool__')
      if m is not None:
        return self.truth(self.call(m, [v], {}))
      m, _ = v.cls.lookup('__len__')
      if m is not None:
        return self.truth(self.call(m, [v], {}))
      return True
    if isinstance(v, Phi):
      a, b = self.truth(v.a), self.truth(v.b)
      if isinstance(a, bool) and a is b:
        return a
      return X.where(v.c, X.lift(a), X.lift(b))
    if isinstance(v, GenV):
      return True
    if isinstance(v, (Func, Bound, Partial, PyFn, ClassV, Ext, TypeV, Module)):
      return True
    return self.models.truth(self, v)

  def binop(self, op, a, b):
    r = self.models.binop(self, op, a, b)
    return r

  def unaryop(self, op, a):
    return self.models.unaryop(self, op, a)

  def compare(self, op, a, b):
    return self.models.compare(self, op, a, b)

  def getitem(self, v, k):
    return self.models.getitem(self, v, k)

  def setitem(self, obj, k, v, target, env):
    return self.models.setitem(self, obj, k, v, target, env)

  def iterate(self, v):
    return self.models.iterate(self, v)


class GenV:
  """An (eagerly evaluated) iterator."""

  def __init__(self, items, error=None):
    self.items = list(items)
    self.pos = 0
    self.error = error

  def __iter__(self):
    while self.pos < len(self.items):
      self.pos += 1
      yield self.items[self.pos - 1]
    if self.error is not None:
      e, self.error = self.error, None
      if e.clsname() == 'StopIteration':
        raise_py('RuntimeError', 'generator raised StopIteration')
      raise e


class ContextGen:

  def __init__(self, func, args, kwargs):
    self.func, self.args, self.kwargs = func, args, kwargs


class FieldV:

  def __init__(self, default=None, factory=None, has_default=False):
    self.default = default
    self.factory = factory
    self.has_default = has_default


def _is_generator(node):
  if isinstance(node, ast.Lambda):
    return False
  todo = list(node.body)
  while todo:
    n = todo.pop()
    if isinstance(n, (ast.Yield, ast.YieldFrom)):
      return True
    if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
      continue
    todo.extend(ast.iter_child_nodes(n))
  return False


def env_cls(env):
  e = env
  while e is not None:
    if e.func is not None and e.func.cls is not None:
      return e.func.cls
    e = e.parent
  raise Undecided('super() outside a method')


def env_self(env):
  e = env
  while e is not None:
    if e.func is not None and e.func.cls is not None:
      a = e.func.node.args
      n = (a.posonlyargs + a.args)[0].arg
      return e.vars[n]
    e = e.parent
  raise Undecided('super() outside a method')
