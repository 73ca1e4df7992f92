"""Data parameters of library functions that may be passed by keyword."""
import inspect

import numpy as np

DATA = set(
    'a arr array arrays x x1 x2 condition y shape fill_value operand tree f fun '
    'ary m b init xs start stop pad_width shift source destination object '
    'indices_or_sections start_index limit_index start_indices slice_sizes lhs '
    'rhs body_fun cond_fun init_val lower upper repeats reps v tup obj '
    'operands update strides limit_indices key pred true_fun '
    'false_fun dimension newshape arr1 exponent'.split())
LAX = {
    'slice_in_dim': 'operand start_index limit_index',
    'dynamic_slice_in_dim': 'operand start_index slice_size',
    'dynamic_slice': 'operand start_indices slice_sizes',
    'scan': 'f init xs', 'fori_loop': 'lower upper body_fun init_val',
    'while_loop': 'cond_fun body_fun init_val',
    'cond': 'pred true_fun false_fun', 'concatenate': 'operands dimension',
    'slice': 'operand start_indices limit_indices', 'map': 'f xs',
    'rsqrt': 'x', 'stop_gradient': 'x', 'rev': 'operand',
}
OTHER = {
    'jax.tree.map': 'f tree', 'jax.tree_map': 'f tree',
    'jax.tree_util.tree_map': 'f tree', 'jax.vmap': 'fun', 'jax.jit': 'fun',
    'jax.grad': 'fun', 'jax.value_and_grad': 'fun', 'jax.checkpoint': 'fun',
    'jax.tree_util.tree_flatten': 'tree', 'jax.tree.flatten': 'tree',
    'jax.tree_util.tree_leaves': 'tree', 'jax.tree.leaves': 'tree',
    'jax.random.split': 'key', 'jax.random.normal': 'key shape',
    'jax.random.uniform': 'key shape', 'jax.random.fold_in': 'key data',
}
_cache = {}


def names(name):
  if name in _cache:
    return _cache[name]
  r = ()
  if name in OTHER:
    r = tuple(OTHER[name].split())
  elif name.startswith('jax.lax.'):
    r = tuple(LAX.get(name[8:], '').split())
  else:
    short = None
    for p in ('jax.numpy.', 'numpy.'):
      if name.startswith(p):
        short = name[len(p):]
        break
    if short:
      o = np
      for part in short.split('.'):
        o = getattr(o, part, None)
      try:
        r = tuple(inspect.signature(o).parameters)
      except (TypeError, ValueError):
        if isinstance(o, np.ufunc):
          r = ('x',) if o.nin == 1 else ('x1', 'x2')
        elif short == 'where':
          r = ('condition', 'x', 'y')
        elif short == 'concatenate':
          r = ('arrays',)
        elif short in ('array', 'asarray', 'zeros', 'empty'):
          r = {'array': ('object',), 'asarray': ('a',)}.get(short, ('shape',))
  _cache[name] = r
  return r


def promote(name, args, kwargs):
  """Moves leading data keywords to their position."""
  if not kwargs:
    return args, kwargs
  ns = names(name)
  while len(args) < len(ns) and ns[len(args)] in DATA and \
      ns[len(args)] in kwargs:
    k = ns[len(args)]
    args.append(kwargs.pop(k))
  return args, kwargs
