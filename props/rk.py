"""States, unknown terms and scheme specifications for time steppers."""
from props.common import *  # pylint: disable=wildcard-import,unused-wildcard-import

DT = X.sym('dt', pos=True)


class State:
  """A pytree of arrays of symbolic size with unknown functions on it.

  build(leaves) makes the tree, leaves(tree) takes it apart again; every leaf
  has its own shape class `n`, and unknown functions see all the leaves at the
  same index.
  """

  def __init__(self, ctx, form, w=None):
    self.ctx, self.form = ctx, form
    self.w = w or World(ctx, 1)
    self.names = {'array': ('s0',), 'tuple': ('s0', 's1'),
                  'dict': ('s0', 's1'), 'nested': ('s0', 's1', 's2'),
                  'variables': ('s0', 's1')}[form]
    self.log = []

  def init(self):
    return self.build([self.w.data(n) for n in self.names])

  def build(self, xs):
    xs = list(xs)
    f = self.form
    if f == 'array':
      return xs[0]
    if f == 'tuple':
      return tuple(xs)
    if f == 'dict':
      return {'b': xs[1], 'a': xs[0]}
    if f == 'nested':
      return (xs[0], {'p': xs[1], 'q': (xs[2],)})
    bc = self.w.periodic()
    return tuple(self.w.wrap(x, (HALF,), bc) for x in xs)

  def leaves(self, t, what='state'):
    f = self.form
    try:
      if f == 'array':
        out = [t]
      elif f == 'tuple':
        need(isinstance(t, tuple) and len(t) == 2, 'tuple')
        out = list(t)
      elif f == 'dict':
        need(isinstance(t, dict) and set(t) == {'a', 'b'}, 'dict')
        out = [t['a'], t['b']]
      elif f == 'nested':
        out = [t[0], t[1]['p'], t[1]['q'][0]]
      else:
        need(isinstance(t, tuple) and len(t) == 2, 'tuple')
        for v in t:
          need_kind(v, 'GridVariable', what)
        out = list(t)
    except (Violated, KeyError, IndexError, TypeError) as e:
      raise Violated(f'{what}: structure of the state changed: '
                     f'{short(t)}') from e
    return [arr_of(x) for x in out]

  def fn(self, name, extra=0, solve=False):
    """An unknown map of states (with `extra` scalar arguments)."""
    def call(ip, args, kwargs):
      es = self.leaves(args[0], f'argument of {name}')
      ex = tuple(E(x) for x in list(args[1:]) + list(kwargs.values()))
      need(len(ex) == extra, f'{name} called with {len(ex)} extra arguments')
      self.log.append(name)
      if solve and ex[0] == X.ZERO:
        return args[0]  # nothing implicit to solve for
      return self.build([A.ewise(lambda *e, i=i: X.apply_op(
          f'{name}{i}', e + ex), *es) for i in range(len(es))])
    return pyfn(name, call)

  def sp(self, name, es, *extra):
    """The same unknown map on tuples of expressions."""
    es = tuple(es)
    if extra and E(extra[0]) == X.ZERO:
      return es
    return tuple(X.apply_op(f'{name}{i}', es + tuple(E(x) for x in extra))
                 for i in range(len(es)))

  def same(self, got, spec, what='step'):
    for i, a in enumerate(self.leaves(got, what)):
      pointwise(a, self.w.n, lambda *ix, i=i: spec(tuple(
          self.w.rd(n, *ix) for n in self.names))[i], f'{what} leaf {i}', 1)


def lin(u, *terms):
  """u + sum c * v over tuples of expressions."""
  out = list(u)
  for c, v in terms:
    out = [plus(o, times(c, x)) for o, x in zip(out, v)]
  return tuple(out)


FORMS = ('array', 'tuple', 'dict', 'nested', 'variables')
