"""Syntax trees of the analysed package, with name resolution."""
import ast
import os

from . import interp as IN

SKIP = ('_test.py', 'test_util.py', 'conftest.py')


def root():
  return os.environ.get('SA_REPO', '/repo')


class Mod:

  def __init__(self, name, path, tree):
    self.name, self.path, self.tree = name, path, tree
    self.defs, self.imports, self.globals = {}, {}, {}


class Fn:
  """A function, method, nested function or lambda."""

  def __init__(self, node, mod, qual, cls=None, parent=None):
    self.node, self.mod, self.qual = node, mod, qual
    self.cls, self.parent = cls, parent
    self.name = getattr(node, 'name', '<lambda>')
    a = node.args
    self.pos = [x.arg for x in a.posonlyargs + a.args]
    self.kwonly = [x.arg for x in a.kwonlyargs]
    self.var = a.vararg.arg if a.vararg else None
    self.kwvar = a.kwarg.arg if a.kwarg else None
    self.notes = {x.arg: x.annotation for x in a.posonlyargs + a.args +
                  a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
    self.decorators = list(getattr(node, 'decorator_list', ()))
    n = len(a.defaults)
    self.defaults = dict(zip(self.pos[len(self.pos) - n:], a.defaults))
    self.defaults.update({k: d for k, d in zip(self.kwonly, a.kw_defaults)
                          if d is not None})

  @property
  def params(self):
    return self.pos + ([self.var] if self.var else []) + self.kwonly + (
        [self.kwvar] if self.kwvar else [])

  def body(self):
    b = self.node.body
    return b if isinstance(b, list) else [ast.copy_location(
        ast.Return(value=b), b)]

  def where(self, node=None):
    return (f'{IN.relpath(self.mod.path)}:'
            f'{getattr(node or self.node, "lineno", self.node.lineno)}')

  def is_method(self):
    return self.cls is not None and self.parent is None and not any(
        isinstance(d, ast.Name) and d.id == 'staticmethod'
        for d in self.decorators)

  def public(self):
    """Callable by users of the package under its own name."""
    if self.parent is not None or isinstance(self.node, ast.Lambda):
      return False
    if self.cls is not None and self.cls.name.startswith('_'):
      return False
    n = self.name
    return not n.startswith('_') or n.startswith('__') and n.endswith('__')


class Cls:

  def __init__(self, node, mod):
    self.node, self.mod, self.name = node, mod, node.name
    self.qual = f'{mod.name}.{node.name}'
    self.methods, self.attrs, self.own = {}, {}, set()
    for s in node.body:
      if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
        f = Fn(s, mod, f'{self.qual}.{s.name}', cls=self)
        # of several overloads / property setters all are kept
        self.methods.setdefault(s.name, []).append(f)
        for n in ast.walk(s):
          if isinstance(n, ast.Attribute) and isinstance(
              n.ctx, ast.Store) and isinstance(n.value, ast.Name):
            self.own.add(n.attr)
      elif isinstance(s, ast.Assign):
        for t in s.targets:
          if isinstance(t, ast.Name):
            self.attrs[t.id] = s.value
      elif isinstance(s, ast.AnnAssign) and s.value is not None:
        if isinstance(s.target, ast.Name):
          self.attrs[s.target.id] = s.value


class Project:

  def __init__(self, package='jax_cfd'):
    self.mods = {}
    base = os.path.join(root(), package)
    for d, _, files in sorted(os.walk(base)):
      for f in sorted(files):
        if f.endswith('.py') and not f.endswith(SKIP):
          p = os.path.join(d, f)
          name = os.path.relpath(p, root())[:-3].replace(os.sep, '.')
          if name.endswith('.__init__'):
            name = name[:-9]
          with open(p, encoding='utf-8') as fh:
            self.mods[name] = Mod(name, p, ast.parse(fh.read()))
    self.functions = []
    for m in self.mods.values():
      self._index(m)

  def _index(self, m):
    for s in walk_toplevel(m.tree.body):
      if isinstance(s, ast.Import):
        for a in s.names:
          m.imports[a.asname or a.name.split('.')[0]] = (
              a.name if a.asname else a.name.split('.')[0])
      elif isinstance(s, ast.ImportFrom) and not s.level:
        for a in s.names:
          m.imports[a.asname or a.name] = f'{s.module}.{a.name}'
      elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
        f = Fn(s, m, f'{m.name}.{s.name}')
        m.defs[s.name] = f
        self.functions.append(f)
      elif isinstance(s, ast.ClassDef):
        c = Cls(s, m)
        m.defs[s.name] = c
        self.functions += [f for fs in c.methods.values() for f in fs]
      elif isinstance(s, ast.Assign):
        for t in s.targets:
          for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
              m.globals.setdefault(n.id, []).append(s.value)
      elif isinstance(s, (ast.AnnAssign, ast.AugAssign)):
        if isinstance(s.target, ast.Name) and s.value is not None:
          m.globals.setdefault(s.target.id, []).append(s.value)

  def lookup(self, path, seen=()):
    """Dotted path -> Fn, Cls, ('mod', name), ('glob', mod, name) or str."""
    if path in seen:
      return path
    if path in self.mods:
      return ('mod', path)
    head, _, last = path.rpartition('.')
    if not head:
      return path
    base = self.lookup(head, seen + (path,))
    if isinstance(base, tuple) and base[0] == 'mod':
      return self.member(base[1], last, seen + (path,))
    if isinstance(base, Cls):
      m = self.method(base, last)
      return m if m is not None else path
    return f'{base}.{last}' if isinstance(base, str) else path

  def member(self, mod, name, seen=()):
    m = self.mods[mod]
    if name in m.defs:
      return m.defs[name]
    if name in m.globals:
      # an alias of a function or class of the package
      v = m.globals[name]
      if len(v) == 1 and isinstance(v[0], (ast.Name, ast.Attribute)):
        r = self.resolve(v[0], m, seen)
        if isinstance(r, (Fn, Cls)):
          return r
      return ('glob', mod, name)
    if name in m.imports:
      return self.lookup(m.imports[name], seen)
    if f'{mod}.{name}' in self.mods:
      return ('mod', f'{mod}.{name}')
    return f'{mod}.{name}'

  def resolve(self, e, m, seen=()):
    """Resolves a name or attribute chain at module scope."""
    if isinstance(e, ast.Name):
      r = self.member(m.name, e.id, seen)
      return e.id if r == f'{m.name}.{e.id}' else r
    if isinstance(e, ast.Attribute):
      b = self.resolve(e.value, m, seen)
      if isinstance(b, tuple) and b[0] == 'mod':
        return self.member(b[1], e.attr, seen)
      if isinstance(b, Cls):
        return self.method(b, e.attr) or (
            ('cattr', b, e.attr) if e.attr in b.attrs else None)
      if isinstance(b, str):
        return f'{b}.{e.attr}'
    return None

  def bases(self, c):
    out, todo = [], [c]
    while todo:
      x = todo.pop(0)
      if x in out:
        continue
      out.append(x)
      for b in x.node.bases:
        r = self.resolve(b, x.mod)
        if isinstance(r, Cls):
          todo.append(r)
    return out

  def method(self, c, name):
    for b in self.bases(c):
      if name in b.methods:
        return b.methods[name][-1]
    return None


def walk_toplevel(body):
  """Statements of a module, looking into if/try blocks."""
  for s in body:
    yield s
    for part in ('body', 'orelse', 'finalbody'):
      if isinstance(s, (ast.If, ast.Try, ast.With)):
        yield from walk_toplevel(getattr(s, part, []))
    for h in getattr(s, 'handlers', []):
      yield from walk_toplevel(h.body)
