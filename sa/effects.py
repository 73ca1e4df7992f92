"""Alias and effect analysis over the syntax tree.

Every expression is given the set of objects it may denote (`own`) and the
objects reachable from it (`inner`).  Objects are parameters ('p', function,
name, depth), module globals ('g', module, name), class attributes ('c', class,
name), results of cached functions ('k', function) and allocation sites ('a',
function, line, column).  In-place operations on an object are effects of the
function; calls of package functions are replaced by their effects with the
arguments substituted, so helpers that fill a list of their caller are fine.
"""
import ast

from .source import Cls, Fn

MUT_ANY = {'append', 'extend', 'insert', 'pop', 'popitem', 'popleft',
           'appendleft', 'setdefault', 'sort', 'reverse', 'discard',
           'move_to_end', 'itemset', 'setflags', '__setitem__', '__delitem__'}
MUT_STMT = {'add', 'update', 'remove', 'clear', 'fill', 'resize', 'put',
            'partition', 'intersection_update', 'difference_update',
            'symmetric_difference_update', 'byteswap', 'rotate', 'subtract'}
VIEWS = {'reshape', 'ravel', 'transpose', 'squeeze', 'swapaxes', 'view',
         'diagonal', 'flatten_view'}
ELEMENT = {'get', 'values', 'items', 'keys', 'pop', 'setdefault', 'popleft',
           'popitem', '__getitem__', '__next__'}
NP_VIEWS = {'asarray', 'ravel', 'reshape', 'transpose', 'squeeze',
            'expand_dims', 'broadcast_to', 'moveaxis', 'swapaxes', 'rollaxis',
            'atleast_1d', 'atleast_2d', 'atleast_3d', 'split', 'array_split',
            'ascontiguousarray', 'asanyarray', 'flip', 'fliplr', 'flipud',
            'rot90', 'real', 'imag', 'require'}
NP_MUT = {'copyto', 'put', 'place', 'putmask', 'fill_diagonal',
          'put_along_axis'}
ARRAYISH = ('Array', 'ndarray', 'GridVariable', 'Vector', 'PyTree', 'List',
            'list', 'Dict', 'dict', 'Mapping', 'Field', 'Velocity', 'Tensor')
SCALARISH = {'int', 'float', 'bool', 'str', 'complex'}
TRANSFORMS = {'jit', 'pmap', 'vmap', 'scan', 'while_loop', 'fori_loop', 'cond',
              'switch', 'grad', 'value_and_grad', 'checkpoint', 'remat',
              'custom_jvp', 'custom_vjp', 'named_call', 'transform', 'linearize',
              'map', 'associative_scan', 'custom_root', 'custom_linear_solve',
              'jvp', 'vjp', 'eval_shape', 'xla_computation', 'make_jaxpr'}
CACHES = {'functools.lru_cache', 'functools.cache', 'functools.cached_property'}
RNG_OBJECTS = {'numpy.random.RandomState', 'numpy.random.default_rng',
               'numpy.random.Generator', 'random.Random'}
CLOCKS = ('time.', 'datetime.', 'uuid.', 'secrets.')
CLOCK_OK = {'time.sleep', 'datetime.timedelta', 'datetime.datetime.timedelta',
            'datetime.datetime.strptime', 'time.strftime'}
SEEDED = {'RandomState', 'default_rng', 'Generator', 'SeedSequence', 'PCG64',
          'Philox', 'MT19937', 'SFC64', 'PCG64DXSM', 'BitGenerator'}
EMPTY = frozenset()


class Val:
  __slots__ = ('own', 'inner', 'funcs', 'tags', 'parts')

  def __init__(self, own=EMPTY, inner=EMPTY, funcs=EMPTY, tags=EMPTY,
               parts=None):
    self.own, self.inner = frozenset(own), frozenset(inner)
    self.funcs, self.tags = frozenset(funcs), frozenset(tags)
    self.parts = parts  # the elements of a tuple, if known

  def empty(self):
    return not (self.own or self.inner or self.funcs)

  def __or__(self, o):
    parts = None
    if self.parts is not None and o.parts is not None and len(
        self.parts) == len(o.parts):
      parts = tuple(a | b for a, b in zip(self.parts, o.parts))
    elif self.empty() or o.empty():
      parts = self.parts or o.parts
    return Val(self.own | o.own, self.inner | o.inner, self.funcs | o.funcs,
               self.tags | o.tags, parts)

  def __eq__(self, o):
    return (self.own, self.inner, self.funcs, self.tags) == (
        o.own, o.inner, o.funcs, o.tags)

  @property
  def all(self):
    return self.own | self.inner

  def element(self):
    keep = {t for t in self.tags if t == 'array'}
    return Val(self.inner, self.inner, self.funcs, keep)


NIL = Val()


class Effect:
  """One in-place operation."""

  def __init__(self, fn, node, what):
    self.fn, self.node, self.what = fn, node, what

  def key(self):
    return (self.fn.qual, getattr(self.node, 'lineno', 0), self.what)

  def __str__(self):
    return f'{self.what} ({self.fn.where(self.node)})'


class Summary:

  def __init__(self):
    self.effects = {}   # root -> {key: Effect}
    self.ret = NIL
    self.escaping = {}  # closures handed out: Fn -> environment

  def add(self, roots, eff):
    for r in roots:
      self.effects.setdefault(r, {}).setdefault(eff.key(), eff)

  def shape(self):
    return ({r: set(d) for r, d in self.effects.items()}, self.ret.own,
            self.ret.inner, self.ret.funcs)


class Analysis:

  def __init__(self, project):
    self.pr = project
    self.memo, self.active = {}, set()
    self.closures = {}     # Fn(nested) -> environment of definition
    self.fns = {}          # id(node) -> Fn
    self.calls, self.sites, self.visited = set(), {}, {}
    self.nondet = {}       # key -> (Fn, node, what)
    for f in project.functions:
      self.fns[id(f.node)] = f

  # ---------------------------------------------------------------- functions

  def summary(self, fn, env=None):
    if env is None and fn in self.memo:
      return self.memo[fn]
    if fn in self.active:
      return self.memo.get(fn, Summary())
    self.active.add(fn)
    try:
      prev = None
      for _ in range(4):
        w = Walker(self, fn, env or {})
        s = w.run()
        self.memo[fn] = s
        if prev is not None and prev.shape() == s.shape():
          break
        prev = s
        if not w.recursive:
          break
    finally:
      self.active.discard(fn)
    return s


class Walker:
  """Abstract execution of one function body."""

  def __init__(self, an, fn, env):
    self.an, self.fn, self.pr = an, fn, an.pr
    self.outer = env
    self.s = Summary()
    self.globals, self.recursive = set(), False
    self.arrays = evidence(fn)
    self.env = {}
    for p in fn.params:
      v = Val({('p', fn.qual, p, 0)}, {('p', fn.qual, p, 1)},
              tags={'array'} if self.is_array(p) else ())
      if p in (fn.var, fn.kwvar):
        v = Val({('a', fn.qual, 0, p)}, {('p', fn.qual, p, 1)}, tags=v.tags)
      self.env[p] = v

  def is_array(self, p):
    a = self.fn.notes.get(p)
    if a is None:
      return p in self.arrays
    t = ast.unparse(a)
    return any(k in t for k in ARRAYISH)

  def run(self):
    self.an.visited[self.fn.qual] = self.fn.where()
    self.block(self.fn.body())
    # closures that leave the function keep its variables alive
    for f in self.s.ret.funcs:
      if f.parent is not None:
        self.s.escaping[f] = dict(self.outer, **self.env)
    return self.s

  def fresh(self, node, inner=EMPTY, funcs=EMPTY, tags=EMPTY):
    return Val({('a', self.fn.qual, node.lineno, node.col_offset)}, inner,
               funcs, tags)

  # --------------------------------------------------------------- statements

  def block(self, body):
    for st in body:
      self.stmt(st)

  def stmt(self, st):
    m = getattr(self, 's_' + type(st).__name__, None)
    if m:
      m(st)
    else:
      for ch in ast.iter_child_nodes(st):
        if isinstance(ch, ast.expr):
          self.ev(ch)
        elif isinstance(ch, ast.stmt):
          self.stmt(ch)

  def s_FunctionDef(self, st):
    f = self.an.fns.get(id(st))
    if f is None:
      f = self.an.fns[id(st)] = Fn(st, self.fn.mod, f'{self.fn.qual}.{st.name}',
                                   parent=self.fn)
      f.cls = self.fn.cls
    for d in list(f.decorators) + list(f.defaults.values()):
      self.ev(d)
    self.env[st.name] = Val(funcs={f})
    self.an.closures[f] = self

  s_AsyncFunctionDef = s_FunctionDef

  def s_ClassDef(self, st):
    self.env[st.name] = NIL

  def s_Return(self, st):
    if st.value is not None:
      v = self.ev(st.value)
      self.s.ret = self.s.ret | v

  def s_Expr(self, st):
    v = st.value
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and \
        v.func.attr in MUT_STMT and not self.functional(v.func.value):
      base = self.ev(v.func.value)
      if self.package_method(v.func) is None and not self.module_like(
          v.func.value):
        self.mutate(base, v, f'.{v.func.attr}() in place', v.func.value)
    if isinstance(v, (ast.Yield, ast.YieldFrom)) and v.value is not None:
      self.s.ret = self.s.ret | Val(
          {('a', self.fn.qual, st.lineno, 0)}, self.ev(v.value).all)
    else:
      self.ev(v)

  def s_Global(self, st):
    self.globals |= set(st.names)

  def s_Nonlocal(self, st):
    self.globals |= {('nl', n) for n in st.names}

  def s_Assign(self, st):
    v = self.ev(st.value)
    for t in st.targets:
      self.assign(t, v, st.value)

  def s_AnnAssign(self, st):
    if st.value is not None:
      self.assign(st.target, self.ev(st.value), st.value)

  def s_AugAssign(self, st):
    v = self.ev(st.value)
    t = st.target
    if isinstance(t, ast.Name):
      if t.id in self.globals:
        self.global_store(t.id, st, 'updated')
        return
      if ('nl', t.id) in self.globals:
        self.nonlocal_store(t.id, st)
        return
      old = self.env.get(t.id, NIL)
      lists = isinstance(st.value, (ast.List, ast.ListComp)) or (
          t.id in self.fn.defaults and mutable_display(self.fn.defaults[t.id]))
      if ('array' in old.tags or lists) and not self.scalar(t.id):
        self.mutate(Val(old.own), st, f'{t.id} is updated in place', None)
      self.env[t.id] = Val(old.own or self.fresh(st).own, old.inner | v.all,
                           old.funcs | v.funcs, old.tags)
      return
    base = self.ev(t.value)
    self.store_into(t, base, v, st)
    if isinstance(t, ast.Subscript) and 'array' in base.tags:
      pass  # covered: the element is replaced in its container
    elif isinstance(t, ast.Subscript) and not isinstance(
        st.value, (ast.Tuple, ast.Constant)):
      el = base.element()
      if 'arrays' in base.tags:
        self.mutate(Val(el.own), st, 'an element is updated in place', None)

  def s_Delete(self, st):
    for t in st.targets:
      if isinstance(t, (ast.Subscript, ast.Attribute)):
        self.mutate(self.ev(t.value), st, 'deletes a part in place', t.value)
      elif isinstance(t, ast.Name):
        if t.id in self.globals:
          self.global_store(t.id, st, 'deleted')
        self.env.pop(t.id, None)

  def s_If(self, st):
    self.ev(st.test)
    e0 = dict(self.env)
    self.block(st.body)
    e1, end1 = self.env, ends(st.body)
    self.env = dict(e0)
    self.block(st.orelse)
    end2 = ends(st.orelse)
    if end1 and not end2:
      return
    self.env = e1 if end2 and not end1 else join(e1, self.env)

  def loop(self, st, bind):
    for i in range(2):
      e0 = dict(self.env)
      bind()
      self.block(st.body)
      if i:
        self.env = join(e0, self.env)
    self.block(st.orelse)

  def s_For(self, st):
    it = self.ev(st.iter)

    def bind():
      # the running variables are new on every turn
      self.assign(st.target, self.elements(st.iter, it), st.iter)
    self.loop(st, bind)

  s_AsyncFor = s_For

  def s_While(self, st):
    self.loop(st, lambda: self.ev(st.test))

  def s_With(self, st):
    for i in st.items:
      v = self.ev(i.context_expr)
      if i.optional_vars is not None:
        self.assign(i.optional_vars, v, i.context_expr)
    self.block(st.body)

  s_AsyncWith = s_With

  def s_Try(self, st):
    e0 = dict(self.env)
    self.block(st.body)
    e1 = self.env
    for h in st.handlers:
      self.env = join(e0, e1)
      self.block(h.body)
      if not ends(h.body):
        e1 = join(e1, self.env)
    self.env = e1
    self.block(st.orelse)
    self.block(st.finalbody)

  def s_Import(self, st):
    for a in st.names:
      self.env.pop(a.asname or a.name.split('.')[0], None)

  def s_ImportFrom(self, st):
    pass

  # -------------------------------------------------------------- assignments

  def elements(self, e, it):
    """Value of one element of an iterated expression."""
    if isinstance(e, ast.Call):
      n = self.ext(e.func)
      if n in ('enumerate', 'zip', 'reversed', 'sorted'):
        return Val(it.inner, it.inner, it.funcs, it.tags & {'array'})
    return it.element()

  def assign(self, t, v, value=None):
    if isinstance(t, ast.Name):
      if t.id in self.globals:
        self.global_store(t.id, t, 'assigned')
      elif ('nl', t.id) in self.globals:
        self.nonlocal_store(t.id, t)
      else:
        self.forget(t.id)
        self.env[t.id] = v
    elif isinstance(t, (ast.Tuple, ast.List)):
      vs = None
      if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(
          t.elts) and not any(isinstance(x, ast.Starred)
                              for x in list(t.elts) + list(value.elts)):
        vs = [self.ev(x) for x in value.elts]
      if vs is None and v.parts is not None and len(v.parts) == len(
          t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts):
        vs = v.parts
        value = ast.Tuple([None] * len(vs), ast.Load())
      for i, x in enumerate(t.elts):
        if isinstance(x, ast.Starred):
          self.assign(x.value, Val({('a', self.fn.qual, t.lineno, i)}, v.inner,
                                   v.funcs))
        elif vs is not None:
          self.assign(x, vs[i], value.elts[i])
        else:
          self.assign(x, v.element())
    elif isinstance(t, ast.Starred):
      self.assign(t.value, v)
    else:
      self.store_into(t, self.ev(t.value), v, t)

  def store_into(self, t, base, v, node):
    """t is a subscript or attribute of base; v is put inside."""
    if isinstance(t, ast.Subscript):
      self.ev(t.slice)
      what = 'assigns an element in place'
    else:
      what = f'assigns attribute {t.attr}'
    self.mutate(base, node, what, t.value, t)
    self.put_inside(t.value, v.all, v.funcs)
    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
      self.env[f'{t.value.id}.{t.attr}'] = v

  def put_inside(self, e, roots, funcs=EMPTY):
    n = root_name(e)
    names = [n]
    x = e
    while isinstance(x, (ast.Attribute, ast.Subscript)):
      if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name):
        names.append(f'{x.value.id}.{x.attr}')
      x = x.value
    for k in names:
      if k and k in self.env:
        o = self.env[k]
        self.env[k] = Val(o.own, o.inner | roots, o.funcs | funcs, o.tags)

  def forget(self, name):
    for k in [k for k in self.env if k.startswith(name + '.')]:
      del self.env[k]

  def global_store(self, name, node, how):
    self.effect({('g', self.fn.mod.name, name)}, node,
                f'module variable {name} is {how}')

  def nonlocal_store(self, name, node):
    owner = self.fn.parent
    while owner is not None and name not in bound_names(owner):
      owner = owner.parent
    self.effect({('v', (owner or self.fn).qual, name)}, node,
                f'variable {name} of the enclosing function is changed')

  def effect(self, roots, node, what):
    self.an.sites[(self.fn.qual, getattr(node, 'lineno', 0), what)] = 1
    self.s.add(roots, Effect(self.fn, node, what))

  def mutate(self, v, node, what, base=None, target=None):
    if 'immutable' in v.tags:
      return
    roots = set(v.own)
    if not roots:
      self.an.sites[(self.fn.qual, getattr(node, 'lineno', 0), what)] = 1
      return
    if target is not None and not self.given(roots) and self.memo_store(
        node, target):
      return
    self.effect(roots, node, what)

  def given(self, roots):
    """Some root is an argument other than self."""
    me = self.self_name()
    return any(r[0] == 'p' and r[2] != me for r in roots)

  def memo_store(self, node, target):
    """T[key] = E where E is a function of the key alone."""
    if not isinstance(target, ast.Subscript):
      return False
    st = node if isinstance(node, ast.Assign) else stmt_of(self.fn, target)
    if not isinstance(st, ast.Assign):
      return False
    return memo_entry(self, target, st.value)

  # -------------------------------------------------------------- expressions

  def functional(self, e):
    """x.at[...] of the functional update syntax."""
    return isinstance(e, ast.Subscript) and isinstance(
        e.value, ast.Attribute) and e.value.attr == 'at'

  def name(self, n, node=None):
    if n in self.env:
      return self.env[n]
    if n in self.outer and not self.is_local(n):
      return self.outer[n]
    r = self.pr.member(self.fn.mod.name, n) if n not in BUILTINS or (
        n in self.fn.mod.defs) else None
    if isinstance(r, Fn):
      return Val(funcs={r})
    if isinstance(r, tuple) and r[0] == 'glob':
      return self.glob(r[1], r[2])
    return NIL

  def is_local(self, n):
    return n in bound_names(self.fn) and n not in self.globals and (
        'nl', n) not in self.globals

  def glob(self, mod, name):
    vals = self.pr.mods[mod].globals.get(name, [])
    if vals and all(immutable(v) for v in vals):
      return NIL
    tags = {'array'} if any(isinstance(v, ast.Call) for v in vals) else set()
    m = self.pr.mods[mod]
    for v in vals:
      if isinstance(v, ast.Call) and self.pr.resolve(v.func, m) in RNG_OBJECTS:
        tags.add('rng')
    return Val({('g', mod, name)}, {('g', mod, name)}, tags=tags)

  def ext(self, e):
    """Dotted name of an external or builtin callable, or None."""
    if isinstance(e, ast.Name):
      if e.id in self.env or e.id in self.outer:
        return None
      r = self.pr.member(self.fn.mod.name, e.id)
      if isinstance(r, str):
        return e.id if r == f'{self.fn.mod.name}.{e.id}' else r
      return None
    if isinstance(e, ast.Attribute):
      n = root_name(e)
      if n is None or n in self.env or n in self.outer:
        return None
      r = self.pr.resolve(e, self.fn.mod)
      return r if isinstance(r, str) else None
    return None

  def module_like(self, e):
    n = root_name(e)
    if n is None or n in self.env or n in self.outer:
      return False
    r = self.pr.resolve(e, self.fn.mod)
    return isinstance(r, str) and n in self.fn.mod.imports or (
        isinstance(r, tuple) and r[0] == 'mod')

  def package_method(self, e):
    """The package function an attribute call denotes, if known."""
    if isinstance(e.value, ast.Name) and self.fn.cls is not None:
      top = self.fn
      while top.parent is not None:
        top = top.parent
      if top.pos and e.value.id == top.pos[0] and top.is_method():
        return self.pr.method(self.fn.cls, e.attr)
    n = root_name(e)
    if n and n not in self.env and n not in self.outer:
      r = self.pr.resolve(e, self.fn.mod)
      if isinstance(r, (Fn, Cls)):
        return r
    return None

  def ev(self, e):
    m = getattr(self, 'e_' + type(e).__name__, None)
    if m:
      return m(e)
    for ch in ast.iter_child_nodes(e):
      if isinstance(ch, ast.expr):
        self.ev(ch)
      elif isinstance(ch, ast.comprehension):
        self.ev(ch.iter)
    return Val(self.fresh(e).own) if hasattr(e, 'lineno') else NIL

  def e_Constant(self, e):
    return Val(tags={'immutable'})

  e_JoinedStr = e_Constant

  def e_Name(self, e):
    return self.name(e.id, e)

  def e_Starred(self, e):
    return self.ev(e.value).element()

  def e_NamedExpr(self, e):
    v = self.ev(e.value)
    self.assign(e.target, v)
    return v

  def e_Attribute(self, e):
    n = root_name(e)
    if n is not None and n not in self.env and n not in self.outer:
      r = self.pr.resolve(e, self.fn.mod)
      if isinstance(r, Fn):
        return Val(funcs={r})
      if isinstance(r, tuple):
        if r[0] == 'glob':
          return self.glob(r[1], r[2])
        if r[0] == 'cattr' and mutable_display(r[1].attrs[r[2]]):
          return Val({('c', r[1].qual, r[2])}, {('c', r[1].qual, r[2])})
        return NIL
      if isinstance(r, (Cls, str)):
        return NIL
    if isinstance(e.value, ast.Name) and self.fn.cls is not None and \
        self.self_name() == e.value.id:
      for c in self.pr.bases(self.fn.cls):
        if e.attr in c.own:
          break
        if e.attr in c.attrs and mutable_display(c.attrs[e.attr]):
          return Val({('c', c.qual, e.attr)}, {('c', c.qual, e.attr)})
      m = self.pr.method(self.fn.cls, e.attr)
      if m is not None and not any(
          'property' in ast.unparse(d) for d in m.decorators):
        return Val(funcs={m})
    if isinstance(e.value, ast.Name) and f'{e.value.id}.{e.attr}' in self.env:
      return self.env[f'{e.value.id}.{e.attr}']
    b = self.ev(e.value)
    tags = set()
    if e.attr in ('data', 'values') or 'array' in b.tags and e.attr in ('array', 'T', 'real',
                                                           'imag'):
      tags.add('array')
    return Val(b.inner, b.inner, tags=tags)

  def self_name(self):
    top = self.fn
    while top.parent is not None:
      top = top.parent
    return top.pos[0] if top.is_method() and top.pos else None

  def e_Subscript(self, e):
    b = self.ev(e.value)
    self.ev(e.slice)
    if isinstance(e.slice, ast.Slice) or isinstance(
        e.slice, ast.Tuple) and any(isinstance(x, ast.Slice)
                                    for x in e.slice.elts):
      if 'array' in b.tags:
        return Val(b.own, b.inner, b.funcs, b.tags)  # a view
      return Val(self.fresh(e).own, b.inner, b.funcs, b.tags)
    if b.parts is not None and isinstance(e.slice, ast.Constant) and isinstance(
        e.slice.value, int) and -len(b.parts) <= e.slice.value < len(b.parts):
      return b.parts[e.slice.value]
    return b.element()

  def display(self, e, parts):
    vs = [self.ev(x) for x in parts]
    inner, funcs = set(), set()
    for v in vs:
      inner |= v.all
      funcs |= v.funcs
    parts = tuple(vs)
    if any(isinstance(x, ast.Starred) for x in parts_of(e)):
      parts = None
    v = self.fresh(e, inner, funcs, {'array'} & set().union(
        *[v.tags for v in vs]) if vs else ())
    return Val(v.own, v.inner, v.funcs, v.tags, parts)

  def e_List(self, e):
    v = self.display(e, e.elts)
    return Val(v.own, v.inner, v.funcs)

  e_Set = e_List

  def e_Tuple(self, e):
    v = self.display(e, e.elts)
    return Val(v.own, v.inner, v.funcs, v.tags & {'array'}, v.parts)

  def e_Dict(self, e):
    v = self.display(e, [x for x in e.keys if x is not None] + e.values)
    return Val(v.own, v.inner, v.funcs)

  def comp(self, e, parts):
    saved = dict(self.env)
    for g in e.generators:
      it = self.ev(g.iter)
      self.assign(g.target, self.elements(g.iter, it), g.iter)
      for c in g.ifs:
        self.ev(c)
    v = self.display(e, parts)
    self.env = saved
    return Val(v.own, v.inner, v.funcs)

  def e_ListComp(self, e):
    return self.comp(e, [e.elt])

  e_SetComp = e_GeneratorExp = e_ListComp

  def e_DictComp(self, e):
    return self.comp(e, [e.key, e.value])

  def e_IfExp(self, e):
    self.ev(e.test)
    return self.ev(e.body) | self.ev(e.orelse)

  def e_BoolOp(self, e):
    out = NIL
    for x in e.values:
      out = out | self.ev(x)
    return out

  def e_Lambda(self, e):
    f = self.an.fns.get(id(e))
    if f is None:
      f = self.an.fns[id(e)] = Fn(e, self.fn.mod, f'{self.fn.qual}.<lambda>'
                                  f'@{e.lineno}', parent=self.fn)
      f.cls = self.fn.cls
    for d in f.defaults.values():
      self.ev(d)
    self.an.closures[f] = self
    return Val(funcs={f})

  # ------------------------------------------------------------------- calls

  def e_Call(self, e):
    f = e.func
    args = [self.ev(a) for a in e.args]
    kws = [(k.arg, self.ev(k.value)) for k in e.keywords]
    vals = args + [v for _, v in kws]
    n = self.ext(f)
    self.an.calls.add((self.fn.qual, e.lineno, e.col_offset))
    if n is not None:
      return self.external(e, n, args, kws, vals)
    target, self_val = None, None
    if isinstance(f, ast.Attribute):
      target = self.package_method(f)
      if isinstance(target, Fn) and target.is_method() and isinstance(
          f.value, ast.Name) and f.value.id == self.self_name():
        self_val = self.ev(f.value)
      if target is None:
        return self.method(e, f, args, vals)
    funcs = [target] if isinstance(target, Fn) else []
    if target is None and isinstance(f, ast.Name):
      r = None if f.id in self.env or f.id in self.outer else self.pr.member(
          self.fn.mod.name, f.id)
      if isinstance(r, Cls):
        target = r
    if isinstance(target, Cls):
      return self.construct(e, target, args, kws, vals)
    if not funcs:
      funcs = list(self.ev(f).funcs)
    if not funcs:
      return self.unknown(e, vals)
    out = NIL
    for g in funcs:
      out = out | self.apply(e, g, args, kws, self_val)
    return out

  def construct(self, e, c, args, kws, vals):
    inner, funcs = set(), set()
    for v in vals:
      inner |= v.all
      funcs |= v.funcs
    new = self.fresh(e, inner, funcs)
    for name in ('__init__', '__post_init__'):
      m = self.pr.method(c, name)
      if m is not None:
        a = args if name == '__init__' else []
        k = kws if name == '__init__' else []
        self.apply(e, m, a, k, new)
    return new

  def apply(self, e, g, args, kws, self_val=None):
    """Effects and result of calling package function g."""
    if g.parent is not None:
      w = self.an.closures.get(g)
      env = dict(w.outer, **w.env) if w is not None else {}
      s = Summary()
      if g not in self.an.active:
        self.an.active.add(g)
        try:
          s = Walker(self.an, g, env).run()
        finally:
          self.an.active.discard(g)
    else:
      if g in self.an.active:
        self.recursive = True
      s = self.an.summary(g)
    pos = list(args)
    if self_val is not None and g.is_method():
      pos = [self_val] + pos
    elif g.is_method() and any(isinstance(d, ast.Name) and d.id == 'classmethod'
                               for d in g.decorators):
      pos = [NIL] + pos
    bind, extra = {}, NIL
    stars = [i for i, a in enumerate(e.args) if isinstance(a, ast.Starred)]
    star = bool(stars)
    first = stars[0] + len(pos) - len(args) if stars else len(pos)
    for i, v in enumerate(pos):
      if i >= first:
        extra = extra | v
      elif i < len(g.pos):
        bind[g.pos[i]] = v
      else:
        extra = extra | v
    for k, v in kws:
      if k in g.params:
        bind[k] = v
      else:
        extra = extra | v
    allv = extra
    for v in bind.values():
      allv = allv | v

    def sub(root):
      if root[0] == 'p' and root[1] == g.qual:
        _, _, p, depth = root
        v = bind.get(p)
        if v is None:
          if p in (g.var, g.kwvar) or star or any(k is None for k, _ in kws):
            v = Val(extra.all, extra.all)
          else:
            d = g.defaults.get(p)
            if d is not None and mutable_display(d):
              return {('d', g.qual, p)}
            return set()
        elif p in (g.var, g.kwvar):
          v = v | extra
        return set(v.inner) if depth else set(v.own)
      if root[0] == 'a' and root[1] == g.qual:
        return set(self.fresh(e).own)
      return {root}

    def subs(roots):
      out = set()
      for r in roots:
        out |= sub(r)
      return out
    for r, effs in s.effects.items():
      if r[0] == 'a' and r[1] == g.qual:
        continue
      if r[0] == 'v' and r[1] == g.qual:
        continue
      for x in effs.values():
        self.s.add(sub(r), x)
    def image(v):
      return Val(subs(v.own), subs(v.inner), v.funcs, v.tags, v.parts and tuple(
          image(x) for x in v.parts))
    ret = image(s.ret)
    if cached(self, g):
      return Val({('k', g.qual)}, {('k', g.qual)}, ret.funcs, {'array'})
    return ret

  def hof(self, e, vals, transform):
    """Function values handed to code outside the package are called by it."""
    rest = set()
    for v in vals:
      if not v.funcs:
        rest |= v.all
    inner = Val({r if r[0] != 'p' else ('p', r[1], r[2], 1) for r in rest},
                rest)
    out = NIL
    for v in vals:
      for g in v.funcs:
        if g.parent is None and not transform:
          continue
        args = [inner] * len(g.pos)
        if g.is_method() and g.parent is None:
          args = args[1:]
        fake = ast.copy_location(ast.Call(ast.Constant(None), [], []), e)
        out = out | self.apply(fake, g, args, [])
    return out

  def unknown(self, e, vals):
    fs = set()
    for v in vals:
      fs |= v.funcs
    if fs:
      self.hof(e, vals, False)
    return Val(self.fresh(e).own, EMPTY, fs)

  def method(self, e, f, args, vals):
    b = self.ev(f.value)
    a = f.attr
    if not self.functional(f.value):
      if a in MUT_ANY:
        target = None
        if a == 'setdefault' and len(e.args) == 2:
          target = ast.copy_location(ast.Subscript(
              f.value, e.args[0], ast.Store()), e)
        if not (target is not None and not self.given(b.own) and memo_entry(self, target, e.args[1])):
          self.mutate(b, e, f'.{a}() in place', f.value)
      if a in MUT_ANY or a in MUT_STMT:
        inner, fs = set(), set()
        for v in vals:
          inner |= v.all
          fs |= v.funcs
        self.put_inside(f.value, inner, fs)
    if 'rng' in b.tags:
      self.mutate(Val(b.own), e, f'draws from a shared generator (.{a}())')
    for k in e.keywords:
      if k.arg == 'out':
        self.mutate(self.ev(k.value), e, 'writes into out=')
    if a in VIEWS:
      return Val(b.own, b.inner, b.funcs, b.tags)
    if a in ELEMENT:
      if a in ('values', 'items', 'keys'):
        return Val(self.fresh(e).own, b.inner, b.funcs, b.tags)
      return b.element()
    fs = set(b.funcs) if a in () else set()
    for v in vals:
      fs |= v.funcs
    if fs:
      self.hof(e, [b] + vals, False)
    if b.funcs and a not in ('copy',):
      fs |= set()
    if a in ('copy',):
      return Val(self.fresh(e).own, b.inner, b.funcs)
    return Val(self.fresh(e).own, EMPTY, fs)

  def external(self, e, n, args, kws, vals):
    last = n.rsplit('.', 1)[-1]
    self.nondeterminism(e, n, args)
    for k, v in kws:
      if k == 'out' and n.startswith(('numpy', 'scipy')):
        self.mutate(v, e, 'writes into out=')
    if n.startswith('numpy.') and last in NP_MUT and args:
      self.mutate(args[0], e, f'{n} in place')
    if n.startswith('numpy.') and n.endswith('.at') and args:
      self.mutate(args[0], e, f'{n} in place')
    if n in ('numpy.random.shuffle', 'random.shuffle') and args:
      self.mutate(args[0], e, f'{n} in place')
    if n in ('setattr', 'delattr', 'object.__setattr__',
             'object.__delattr__') and args:
      self.mutate(args[0], e, f'{n}()')
    if n in ('exec', 'eval'):
      pass
    if n == 'next' and args:
      r = {x for x in args[0].own if x[0] != 'p'}
      if r:
        self.effect(r, e, 'next() advances an iterator')
      elif args[0].own and not self.iterator(e.args[0]):
        self.effect(args[0].own, e, 'next() advances an iterator')
      return args[0].element()
    if n in ('list', 'tuple', 'dict', 'set', 'frozenset', 'sorted', 'reversed',
             'enumerate', 'zip', 'filter', 'iter', 'map', 'copy.copy',
             'itertools.chain', 'itertools.product', 'collections.OrderedDict',
             'collections.deque', 'collections.defaultdict',
             'itertools.islice', 'itertools.chain.from_iterable'):
      inner, fs, tags = set(), set(), set()
      for v in vals:
        inner |= v.inner
        fs |= v.funcs
        tags |= v.tags & {'array'}
        if n in ('iter',) and v.own:
          pass
      if n in ('map', 'filter') and args:
        rest = [v.element() for v in args[1:]]
        out = NIL
        fake = ast.copy_location(ast.Call(ast.Constant(None), [], []), e)
        for g in args[0].funcs:
          out = out | self.apply(fake, g, rest, [])
        if n == 'map':
          if args[0].funcs:
            return self.fresh(e, out.all, out.funcs)
          return self.fresh(e, self.fresh(e).own)
      if n == 'dict':
        for k, v in kws:
          inner |= v.own
      if n in ('enumerate', 'zip'):
        pass
      if n in ('list', 'tuple', 'set', 'frozenset', 'sorted'):
        return self.fresh(e, inner, fs, tags if n != 'list' else ())
      return self.fresh(e, inner, fs, tags)
    if n == 'copy.deepcopy':
      return self.fresh(e)
    if n.startswith('numpy.') and last in NP_VIEWS and args:
      v = args[0]
      return Val(v.own, v.inner, EMPTY, v.tags | {'array'})
    if n in ('functools.partial', 'functools.wraps', 'functools.update_wrapper'):
      inner, fs = set(), set()
      for v in vals:
        inner |= v.all
        fs |= v.funcs
      return self.fresh(e, inner, fs)
    if n == 'getattr' and args:
      return args[0].element()
    if n == 'super':
      s = self.self_name()
      return self.env.get(s, NIL) if s else NIL
    fs = set()
    for v in vals:
      fs |= v.funcs
    if fs:
      tr = last in TRANSFORMS and n.split('.')[0] in ('jax', 'haiku')
      if n.endswith('tree.map') or n.endswith('tree_util.tree_map') or n in (
          'map',):
        tr = False
      self.hof(e, vals, tr)
    if n in RNG_OBJECTS:
      return self.fresh(e, tags={'rng'})
    tags = {'array'} if n.split('.')[0] in ('numpy', 'jax', 'scipy') else set()
    return Val(self.fresh(e).own, EMPTY, fs, tags)

  def iterator(self, e):
    """Consuming an iterator parameter is its purpose."""
    n = root_name(e)
    t = self.fn.notes.get(n)
    if t is not None:
      return any(k in ast.unparse(t) for k in ('Iter', 'Generator', 'Stream'))
    return n is not None and n in self.fn.params

  def nondeterminism(self, e, n, args):
    last = n.rsplit('.', 1)[-1]
    what = None
    if n.startswith(CLOCKS) and n not in CLOCK_OK:
      what = f'{n} depends on the time or process'
    elif n.startswith('random.') and not (last == 'Random' and e.args):
      what = f'{n} draws from the global generator'
    elif n.startswith('numpy.random.'):
      if last not in SEEDED:
        what = f'{n} uses the global generator'
      elif not e.args and not e.keywords and last in (
          'RandomState', 'default_rng', 'SeedSequence', 'PCG64', 'Philox',
          'MT19937', 'SFC64', 'PCG64DXSM'):
        what = f'{n} without a seed'
      elif e.args and isinstance(e.args[0], ast.Constant) and (
          e.args[0].value is None):
        what = f'{n} without a seed'
    elif n in ('os.urandom', 'os.getpid', 'id', 'os.times', 'object.__hash__'):
      what = f'{n}() differs between runs'
    elif n in ('hash',) and not self.in_hash():
      what = 'hash() of strings differs between runs'
    elif n in ('jax.config.update', 'numpy.seterr', 'numpy.set_printoptions',
               'os.putenv', 'jax.config.parse_flags_with_absl', 'os.chdir',
               'locale.setlocale', 'sys.setrecursionlimit'):
      what = f'{n} changes global state'
    if what:
      self.an.nondet[(self.fn.qual, e.lineno, what)] = (self.fn, e, what)

  def in_hash(self):
    return self.fn.name == '__hash__'


BUILTINS = set(dir(__builtins__) if not isinstance(__builtins__, dict)
               else __builtins__)


# ---------------------------------------------------------------- helpers

def join(a, b):
  out = {}
  for k in set(a) | set(b):
    if k in a and k in b:
      out[k] = a[k] | b[k]
    else:
      out[k] = a.get(k) or b.get(k)
  return out


def ends(body):
  """The block never falls through."""
  for s in body:
    if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
      return True
    if isinstance(s, ast.If) and s.orelse and ends(s.body) and ends(s.orelse):
      return True
  return False


def parts_of(e):
  return getattr(e, 'elts', None) or ()


def root_name(e):
  while isinstance(e, (ast.Attribute, ast.Subscript, ast.Starred)):
    e = e.value
  return e.id if isinstance(e, ast.Name) else None


def mutable_display(v):
  if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp,
                    ast.SetComp)):
    return True
  return isinstance(v, ast.Call) and ast.unparse(v.func).split('.')[-1] in (
      'dict', 'list', 'set', 'defaultdict', 'OrderedDict', 'deque', 'Counter',
      'array', 'zeros', 'ones', 'empty', 'count', 'iter', 'cycle')


def immutable(v):
  if isinstance(v, ast.Constant):
    return True
  if isinstance(v, ast.Tuple):
    return all(immutable(x) for x in v.elts)
  if isinstance(v, (ast.UnaryOp,)):
    return immutable(v.operand)
  if isinstance(v, ast.BinOp):
    return immutable(v.left) and immutable(v.right)
  return isinstance(v, (ast.Subscript, ast.Attribute, ast.Lambda)) or (
      isinstance(v, ast.Name))


_BOUND = {}


def bound_names(fn):
  """Names bound in the function itself."""
  if id(fn.node) in _BOUND:
    return _BOUND[id(fn.node)][1]
  out = set(fn.params)
  todo = list(fn.body())
  while todo:
    n = todo.pop()
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
      out.add(n.name)
      continue
    if isinstance(n, ast.Lambda):
      continue
    if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
      out.add(n.id)
    todo += list(ast.iter_child_nodes(n))
  _BOUND[id(fn.node)] = (fn.node, out)
  return out


def evidence(fn):
  """Unannotated parameters used like arrays."""
  out = set()
  for n in ast.walk(fn.node):
    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and (
        n.attr in ('shape', 'dtype', 'ndim', 'data', 'T', 'at', 'array',
                   'astype', 'reshape')):
      out.add(n.value.id)
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and (
        isinstance(n.func.value, ast.Name)) and n.func.value.id in (
            'np', 'jnp', 'numpy'):
      if n.args and isinstance(n.args[0], ast.Name):
        out.add(n.args[0].id)
  return out


def scalar_note(t):
  return t is not None and set(
      ast.unparse(t).replace('[', ' ').replace(']', ' ').replace(
          ',', ' ').split()) <= SCALARISH | {'Optional', 'Union', 'None'}


def _scalar(self, name):
  return scalar_note(self.fn.notes.get(name))


Walker.scalar = _scalar


def stmt_of(fn, target):
  for n in ast.walk(fn.node):
    if isinstance(n, ast.Assign) and any(t is target for t in n.targets):
      return n
  return None


def paths(e):
  """Maximal name/attribute chains of an expression."""
  out = set()

  def go(x):
    if isinstance(x, ast.Attribute):
      y = x
      while isinstance(y, ast.Attribute):
        y = y.value
      if isinstance(y, ast.Name):
        out.add(ast.unparse(x))
        return
    if isinstance(x, ast.Name):
      out.add(x.id)
      return
    for ch in ast.iter_child_nodes(x):
      go(ch)
  go(e)
  return out


def definitions(fn):
  """Local name -> the expressions assigned to it (None if not simple)."""
  out = {}
  for n in ast.walk(fn.node):
    if isinstance(n, ast.Assign):
      for t in n.targets:
        if isinstance(t, ast.Name):
          out.setdefault(t.id, []).append(n.value)
        elif isinstance(t, (ast.Tuple, ast.List)):
          for x in t.elts:
            if isinstance(x, ast.Name):
              out.setdefault(x.id, []).append(n.value)
    elif isinstance(n, (ast.For, ast.AugAssign, ast.NamedExpr)):
      for x in ast.walk(n.target):
        if isinstance(x, ast.Name):
          out.setdefault(x.id, []).append(None)
  return out


def memo_entry(w, target, value):
  """value depends on nothing but the key, self and module constants."""
  fn = w.fn
  defs = definitions(fn)
  table = ast.unparse(target.value)
  # the table is consulted first
  tested = any(
      isinstance(n, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn))
                                         for o in n.ops) and
      any(ast.unparse(c) == table for c in n.comparators) or
      isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and
      n.func.attr in ('get', 'setdefault') and ast.unparse(
          n.func.value) == table or
      isinstance(n, ast.ExceptHandler) and n.type is not None and
      'KeyError' in ast.unparse(n.type) for n in ast.walk(fn.node))
  if not tested:
    return False

  def expand(ps, seen=()):
    out = set()
    for p in ps:
      if '.' not in p and p not in fn.params and p in defs and p not in seen:
        for d in defs[p]:
          if d is None:
            out.add('?' + p)
          else:
            out |= expand(paths(d), seen + (p,))
        out.add(p)
      else:
        out.add(p)
    return out
  key = expand(paths(target.slice))
  me = w.self_name()
  for p in expand(paths(value)):
    head = p.split('.')[0]
    if p in key or any(p.startswith(k + '.') for k in key):
      continue
    if me and head == me:
      continue
    if p in defs and p not in fn.params:
      continue  # judged by its definition
    if head not in bound_names(fn) and head not in w.outer:
      if head in ('jnp', 'jax', 'lax'):
        return False  # a traced value would be kept
      continue
    return False
  return True


def cached(w, fn):
  for d in fn.decorators:
    x = d.func if isinstance(d, ast.Call) else d
    r = w.pr.resolve(x, fn.mod)
    if r in CACHES:
      return True
  return False
