"""Q01: functions are pure, reproducible and traceable."""
import ast

from sa import effects as EF
from sa import keys as KY
from sa import source as SO
from sa import traced as TR
from sa.rules import Site, Violated

EXPLANATION = (
    'The syntax tree of every module of the package is analysed: an alias and '
    'effect analysis decides which objects each function, method and closure '
    'changes in place; a linearity analysis follows every random key; a taint '
    'analysis follows array values into Python control flow and host '
    'conversions; module level code, defaults and caches are checked for '
    'hidden state, clocks and unseeded randomness.')
RULE = {
    'effects': 'no in-place change of arguments, module or class state, shared '
               'defaults, cached results or variables captured by a function '
               'that outlives the call',
    'reproducible': 'no clock, process identity, unseeded or global randomness, '
                    'unordered iteration of names or change of configuration',
    'keys': 'every random key is consumed at most once and derives from the '
            'caller',
    'traceable': 'no branch, host conversion or numpy call on the value of an '
                 'array',
    'caches': 'a cache keeps only values that are determined by its key and '
              'independent of tracing',
}
INIT = {'__init__', '__post_init__', '__new__', 'setup', '__setattr__',
        '__init_subclass__', '__setstate__', '__set_name__', '__enter__',
        '__exit__'}
ALIKE = {'map', 'filter', 'sorted', 'min', 'max', 'sum', 'any', 'all',
         'tree_map', 'reduce', 'list', 'tuple'}


def run(ctx):
  pr = SO.Project()
  an = EF.Analysis(pr)
  for f in pr.functions:
    an.summary(f)
  closures = settle(an)
  ky, tr = KY.Keys(pr, an), TR.Traced(pr, an)
  for f in pr.functions:
    ky.run(f)
    if '.data.' not in f.mod.name:
      tr.run(f)
  bad = {}

  def note(found, rule):
    for f, node, what in found.values():
      bad.setdefault((rule, owner(f)), []).append((f.where(node), what))
  note(ky.found, 'keys')
  note(tr.found, 'traceable')
  note(an.nondet, 'reproducible')
  for f in pr.functions:
    for where, what in function_effects(an, f):
      bad.setdefault(('effects', owner(f)), []).append((where, what))
    for where, what in orders(f, pr):
      bad.setdefault(('reproducible', owner(f)), []).append((where, what))
    for where, what in caches(f, pr):
      bad.setdefault(('caches', owner(f)), []).append((where, what))
  for f, s in closures.items():
    for where, what in closure_effects(f, s):
      bad.setdefault(('effects', owner(f)), []).append((where, what))
    for where, what in caches(f, pr):
      bad.setdefault(('caches', owner(f)), []).append((where, what))
  for f in pr.functions:
    ctx.anchor_ = Site(f.qual, f.where())
    for rule in RULE:
      ctx.ob(rule, f.qual, verdict, bad.get((rule, f.qual)), rule)
  for m in pr.mods.values():
    ctx.anchor_ = Site(m.name, f'{SO.IN.relpath(m.path)}:1')
    ctx.ob('module level', m.name, verdict, list(module_level(m, pr, an)),
           'reproducible')
  ctx.funcs.update(an.visited)
  for k in (ky, tr):
    for q in k.functions:
      ctx.funcs.setdefault(q, 'nested')
  ctx.callsites |= an.calls
  ctx.assumptions += [
      f'{len(an.sites)} in-place operations, {len(ky.sites)} uses of random '
      f'keys, {len(tr.tests)} tests and host conversions, {len(closures)} '
      'closures were classified',
      'calls of functions received as arguments are taken to be pure',
      'loops are taken to run at least once when they turn an argument into a '
      'new array',
  ]
  if len(pr.functions) < 100 or not an.sites or not ky.sites:
    ctx.undecided.append(('coverage', 'package', 'too little was analysed'))


def verdict(found, rule):
  if found:
    where, what = found[0]
    more = f' (and {len(found) - 1} more)' if len(found) > 1 else ''
    raise Violated(f'{where}: {what}{more}; required: {RULE[rule]}')


def owner(f):
  while f.parent is not None:
    f = f.parent
  return f.qual


# ------------------------------------------------------------------- effects

def settle(an):
  """Summaries of all closures in the environment that defines them."""
  out, todo = {}, True
  while todo:
    todo = [g for g in list(an.closures) if g not in out]
    for g in todo:
      w = an.closures[g]
      env = dict(w.outer, **w.env)
      an.active.add(g)
      try:
        out[g] = EF.Walker(an, g, env).run()
      finally:
        an.active.discard(g)
  return out


def describe(root, fn):
  k = root[0]
  if k == 'p':
    own = 'argument' if root[1] == fn.qual else 'captured argument'
    return f'{own} {root[2]}'
  return {'g': f'module variable {root[-1]}', 'c': f'class attribute {root[-1]}',
          'k': f'cached result of {root[-1]}', 'a': 'a captured object',
          'v': f'captured variable {root[-1]}',
          'd': f'mutable default {root[-1]}'}[k]


def function_effects(an, f):
  s = an.summary(f)
  me = f.pos[0] if f.is_method() and f.pos else None
  for r, effs in s.effects.items():
    if r[0] in 'av':
      continue
    if r[0] == 'p':
      if r[1] != f.qual:
        continue
      if r[2] == me and f.name in INIT:
        continue
      if not f.public() and not (r[2] in f.defaults and EF.mutable_display(
          f.defaults[r[2]])):
        continue
    for x in effs.values():
      if r[0] == 'g' and x.fn is f and restored(f, r[2]):
        continue
      if r[0] == 'g' and x.fn is not f and restored(x.fn, r[2]):
        continue
      yield x.fn.where(x.node), f'{x.what}: changes {describe(r, f)}'


def closure_effects(g, s):
  if not escapes(g):
    return
  for r, effs in s.effects.items():
    if r[0] in 'av' and r[1] == g.qual:
      continue
    if r[0] == 'a' and r[1].startswith(g.qual + '.'):
      continue
    for x in effs.values():
      if r[0] == 'g' and restored(x.fn, r[2]):
        continue
      yield x.fn.where(x.node), (
          f'{x.what} in {g.name}: changes {describe(r, g)}')


def escapes(g):
  """The closure outlives, or is called from outside, the enclosing call."""
  if g.decorators:
    return True
  root = g.parent
  name = None if isinstance(g.node, ast.Lambda) else g.name
  parents = {}
  for n in ast.walk(root.node):
    for c in ast.iter_child_nodes(n):
      parents[c] = n
  if name is None:
    uses = [g.node]
    up = parents.get(g.node)
    if isinstance(up, ast.Assign) and len(up.targets) == 1 and isinstance(
        up.targets[0], ast.Name):
      name, uses = up.targets[0].id, None
  else:
    uses = None
  if uses is None:
    uses = [n for n in ast.walk(root.node) if isinstance(n, ast.Name)
            and n.id == name and isinstance(n.ctx, ast.Load)]
  for u in uses:
    up = parents.get(u)
    if isinstance(up, ast.keyword):
      up = parents.get(up)
    if isinstance(up, ast.Call):
      if up.func is u:
        continue
      h = up.func
      last = h.attr if isinstance(h, ast.Attribute) else getattr(h, 'id', '')
      if last in ALIKE or ast.unparse(h).endswith('tree.map') or (
          last == 'sort'):
        continue
    return True
  return False


INVERSE = {(ast.Add, ast.Sub), (ast.Sub, ast.Add)}


def restored(fn, name):
  """A context manager that undoes its change in a finally block."""
  if not any('contextmanager' in ast.unparse(d) for d in fn.decorators):
    return False
  for t in ast.walk(fn.node):
    if not isinstance(t, ast.Try) or not t.finalbody:
      continue
    if not any(isinstance(n, (ast.Yield, ast.YieldFrom))
               for s in t.body for n in ast.walk(s)):
      continue
    inside = {id(n) for s in t.finalbody for n in ast.walk(s)}
    before = [n for n in ast.walk(fn.node) if stores(n, name)
              and id(n) not in inside]
    after = [n for s in t.finalbody for n in ast.walk(s) if stores(n, name)]
    if len(after) != 1:
      return False
    a = after[0]
    if isinstance(a, ast.AugAssign):
      return len(before) == 1 and isinstance(before[0], ast.AugAssign) and (
          type(before[0].op), type(a.op)) in INVERSE and ast.unparse(
              before[0].value) == ast.unparse(a.value)
    if isinstance(a, ast.Assign) and isinstance(a.value, ast.Name):
      first = min((b.lineno for b in before), default=10**9)
      return any(isinstance(n, ast.Assign) and isinstance(n.value, ast.Name)
                 and n.value.id == name and len(n.targets) == 1
                 and isinstance(n.targets[0], ast.Name)
                 and n.targets[0].id == a.value.id and n.lineno < first
                 for n in ast.walk(fn.node))
    if isinstance(a, ast.Assign) and isinstance(a.value, ast.BinOp) and len(
        before) == 1 and isinstance(before[0], ast.Assign) and isinstance(
            before[0].value, ast.BinOp):
      return (type(before[0].value.op), type(a.value.op)) in INVERSE and (
          ast.unparse(before[0].value.right) == ast.unparse(a.value.right))
  return False


def stores(n, name):
  if isinstance(n, ast.AugAssign):
    return isinstance(n.target, ast.Name) and n.target.id == name
  if isinstance(n, ast.Assign):
    return any(isinstance(t, ast.Name) and t.id == name for t in n.targets)
  return False


# -------------------------------------------------------------- module level

def module_level(m, pr, an):
  """Code that runs on import, defaults and decorators included."""
  node = ast.parse('def module(): pass').body[0]
  fn = SO.Fn(node, m, m.name)
  w = EF.Walker(an, fn, {})
  before = set(an.nondet)
  exprs = []
  todo = list(m.tree.body)
  while todo:
    n = todo.pop()
    if isinstance(n, ast.If) and '__main__' in ast.unparse(n.test):
      continue
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
      exprs += [d for d in n.args.defaults + n.args.kw_defaults if d]
      exprs += getattr(n, 'decorator_list', [])
      continue
    if isinstance(n, ast.Call):
      exprs.append(n)
    todo += list(ast.iter_child_nodes(n))
  for e in exprs:
    for c in ast.walk(e):
      if isinstance(c, ast.Call):
        name = w.ext(c.func)
        if name:
          w.nondeterminism(c, name, c.args)
          if name in KY.MAKERS:
            yield (f'{SO.IN.relpath(m.path)}:{c.lineno}', 'a random key shared '
                   'by all callers is made on import')
  for k in set(an.nondet) - before:
    f, n, what = an.nondet[k]
    yield f.where(n), what


# --------------------------------------------------------------------- order

NAMED = {'dims', 'coords', 'data_vars', 'keys', 'variables', 'sizes', 'columns',
         'attrs', 'split', 'names', 'indexes'}
FREE = {'sorted', 'len', 'set', 'frozenset', 'sum', 'any', 'all', 'min', 'max'}
REDUCTIONS = {'mean', 'sum', 'std', 'var', 'max', 'min', 'any', 'all', 'median',
              'quantile', 'prod', 'drop_vars', 'drop', 'squeeze', 'count',
              'drop_dims', 'issubset', 'issuperset', 'union', 'intersection',
              'difference', 'isin', 'update'}
LISTING = {'os.listdir', 'os.scandir', 'glob.glob', 'glob.iglob'}


def orders(f, pr):
  """Sets of names (whose order differs between processes) made ordered."""
  parents = {}
  for n in ast.walk(f.node):
    for c in ast.iter_child_nodes(n):
      parents[c] = n
  sets = set()
  for n in ast.walk(f.node):
    if isinstance(n, ast.Assign) and is_set(n.value, sets) and len(
        n.targets) == 1 and isinstance(n.targets[0], ast.Name):
      if named(n.value):
        sets.add(n.targets[0].id)
  for n in ast.walk(f.node):
    src = None
    if isinstance(n, ast.Call):
      h = ast.unparse(n.func)
      r = pr.resolve(n.func, f.mod)
      if isinstance(r, str) and r in LISTING:
        up = parents.get(n)
        if not (isinstance(up, ast.Call) and ast.unparse(up.func) in FREE):
          yield f.where(n), f'{r} returns names in no fixed order'
        continue
      if h in ('list', 'tuple', 'enumerate', 'iter', 'zip', 'map'):
        src = n.args
      elif isinstance(n.func, ast.Attribute) and n.func.attr == 'join':
        src = n.args
      elif isinstance(n.func, ast.Attribute) and n.func.attr == 'pop':
        src = [n.func.value]
    elif isinstance(n, (ast.For, ast.comprehension)):
      src = [n.iter]
    elif isinstance(n, ast.Starred):
      src = [n.value]
    for x in src or ():
      if not (is_set(x, sets) and (named(x) or isinstance(
          x, ast.Name) and x.id in sets)):
        continue
      if isinstance(n, (ast.For, ast.comprehension)) and unordered_use(
          n, parents):
        continue
      if isinstance(n, ast.expr) and insensitive(n, parents, f, pr):
        continue
      yield f.where(x), (f'the order of {ast.unparse(x)[:50]} differs between '
                         'processes')


def is_set(e, known):
  if isinstance(e, (ast.Set, ast.SetComp)):
    return True
  if isinstance(e, ast.Name):
    return e.id in known
  if isinstance(e, ast.Call):
    if isinstance(e.func, ast.Name) and e.func.id in ('set', 'frozenset'):
      return True
    return isinstance(e.func, ast.Attribute) and e.func.attr in (
        'union', 'intersection', 'difference', 'symmetric_difference') and (
            is_set(e.func.value, known))
  if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Sub, ast.BitOr,
                                                    ast.BitAnd, ast.BitXor)):
    return is_set(e.left, known) or is_set(e.right, known)
  return False


def named(e):
  """The elements are names."""
  for n in ast.walk(e):
    if isinstance(n, ast.Attribute) and n.attr in NAMED:
      return True
    if isinstance(n, ast.Constant) and isinstance(n.value, str):
      return True
  return False


def unordered_use(n, parents):
  """A comprehension whose result does not depend on the order."""
  if isinstance(n, ast.comprehension):
    up = parents.get(n)
    if isinstance(up, (ast.SetComp, ast.DictComp)):
      return True
    call = parents.get(up)
    return isinstance(call, ast.Call) and ast.unparse(call.func) in FREE
  # a loop that only tests or raises
  return all(isinstance(s, (ast.If, ast.Assert, ast.Raise)) and not any(
      isinstance(x, (ast.Assign, ast.AugAssign, ast.Return)) or isinstance(
          x, ast.Call) and isinstance(x.func, ast.Attribute)
      and x.func.attr == 'append' for x in ast.walk(s)) for s in n.body)


def insensitive(n, parents, f, pr, depth=0):
  up = parents.get(n)
  key = None
  if isinstance(up, ast.keyword):
    key, up = up.arg, parents.get(up)
  if isinstance(up, ast.Call):
    last = ast.unparse(up.func).split('.')[-1]
    if last in FREE or last in REDUCTIONS:
      return True
    g = pr.resolve(up.func, f.mod)
    if isinstance(g, SO.Fn) and depth < 4:
      i = up.args.index(n) if n in up.args else None
      p = key or (g.pos[i] if i is not None and i < len(g.pos) else None)
      if p is None:
        return False
      inner = {}
      for a in ast.walk(g.node):
        for c in ast.iter_child_nodes(a):
          inner[c] = a
      return all(insensitive(u, inner, g, pr, depth + 1)
                 for u in ast.walk(g.node) if isinstance(u, ast.Name)
                 and u.id == p and isinstance(u.ctx, ast.Load))
  if isinstance(up, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn))
                                         for o in up.ops):
    return True
  if isinstance(up, (ast.Raise, ast.JoinedStr, ast.FormattedValue)):
    return True
  if isinstance(up, ast.Assign) and len(up.targets) == 1 and isinstance(
      up.targets[0], ast.Name):
    name = up.targets[0].id
    uses = [u for u in ast.walk(f.node) if isinstance(u, ast.Name)
            and u.id == name and isinstance(u.ctx, ast.Load)]
    return bool(uses) and all(insensitive(u, parents, f, pr, depth) for u in uses)
  return False


# -------------------------------------------------------------------- caches

def caches(f, pr):
  """A cached function keeps nothing that belongs to one trace."""
  if not any(cache(d, f, pr) for d in f.decorators):
    return
  seen, todo = set(), [f]
  while todo:
    g = todo.pop()
    if g in seen:
      continue
    seen.add(g)
    for n in ast.walk(g.node):
      if not isinstance(n, (ast.Attribute, ast.Name)):
        continue
      r = pr.resolve(n, g.mod)
      if isinstance(r, str) and r.startswith(('jax.numpy.', 'jax.lax.',
                                              'jax.random.', 'haiku.')):
        if isinstance(n, ast.Attribute) and r.split('.')[-1] not in (
            'ndarray', 'Array', 'pi', 'inf', 'nan', 'float32', 'float64',
            'dtype', 'Precision', 'HIGHEST') and not annotation(n, g):
          yield g.where(n), (f'{r} inside the cached {f.name}: a value of one '
                             'trace would be kept')
      elif isinstance(r, SO.Fn):
        todo.append(r)
      elif isinstance(r, tuple) and r[0] == 'glob' and isinstance(
          n, ast.Name) and isinstance(n.ctx, ast.Load):
        if any(global_write(h, r[2]) for h in pr.functions
               if h.mod.name == r[1]):
          yield g.where(n), (f'the cached {f.name} depends on the variable '
                             f'{r[2]}')


def annotation(n, g):
  notes = [a for a in g.notes.values() if a is not None]
  if getattr(g.node, 'returns', None) is not None:
    notes.append(g.node.returns)
  return any(n is x for a in notes for x in ast.walk(a))


def global_write(h, name):
  return any(isinstance(n, ast.Global) and name in n.names
             for n in ast.walk(h.node))


def cache(d, f, pr):
  x = d.func if isinstance(d, ast.Call) else d
  return pr.resolve(x, f.mod) in EF.CACHES
