"""Further jax and standard library functions (see _numpy.py)."""
import jax
import jax.numpy as jnp


class _Nothing:

  def __enter__(self):
    return self

  def __exit__(self, *exc):
    return None

  def __call__(self, f):
    return f


def jax__named_scope(name):
  return _Nothing()


def jax__disable_jit(disable=True):
  return _Nothing()


def jax__ensure_compile_time_eval():
  return _Nothing()


def jax__default_matmul_precision(name=None):
  return _Nothing()


def jax__block_until_ready(x):
  return x


def jax__nn__identity(x):
  return x


jax__nn__tanh = jnp.tanh


def jax__nn__leaky_relu(x, negative_slope=1e-2):
  return jnp.where(x >= 0, x, negative_slope * x)


def jax__nn__soft_sign(x):
  return x / (jnp.abs(x) + 1)


def jax__nn__relu6(x):
  return jnp.minimum(jnp.maximum(x, 0), 6)


def jax__nn__one_hot(x, num_classes, axis=-1):
  x = jnp.asarray(x)
  return jnp.where(x[..., jnp.newaxis] == jnp.arange(num_classes), 1.0, 0.0)


def jax__nn__softmax(x, axis=-1):
  e = jnp.exp(x)
  return e / jnp.sum(e, axis=axis, keepdims=True)


def jax__nn__logsumexp(a, axis=None, keepdims=False):
  return jnp.log(jnp.sum(jnp.exp(a), axis=axis, keepdims=keepdims))


def jax__tree__transpose(outer, inner, tree):
  flat = jax.tree.leaves(tree)
  n = inner.num_leaves
  rows = [flat[i:i + n] for i in range(0, len(flat), n)]
  return jax.tree.unflatten(
      inner, [jax.tree.unflatten(outer, list(c)) for c in zip(*rows)])


jax__tree_util__tree_transpose = jax__tree__transpose


def jax__tree_util__all_leaves(iterable):
  return True


def itertools__tee(iterable, n=2):
  items = list(iterable)
  return tuple(iter(items) for _ in range(n))


def operator__is_(a, b):
  return a is b


def operator__is_not(a, b):
  return a is not b


def operator__not_(a):
  return not a


def operator__truth(a):
  return bool(a)


def operator__contains(a, b):
  return b in a


def operator__pos(a):
  return +a


def operator__invert(a):
  return ~a


operator__inv = operator__invert


def operator__call(f, *args, **kwargs):
  return f(*args, **kwargs)


def operator__isub(a, b):
  a -= b
  return a


def operator__imul(a, b):
  a *= b
  return a


def operator__itruediv(a, b):
  a /= b
  return a


def operator__ifloordiv(a, b):
  a //= b
  return a


def operator__ipow(a, b):
  a **= b
  return a


def operator__imod(a, b):
  a %= b
  return a


def operator__imatmul(a, b):
  return a @ b


def operator__iconcat(a, b):
  a += b
  return a


def operator__indexOf(a, b):
  return list(a).index(b)


def operator__countOf(a, b):
  return list(a).count(b)


def operator__setitem(a, k, v):
  a[k] = v


def operator__delitem(a, k):
  del a[k]


def math__factorial(n):
  out = 1
  for i in range(2, n + 1):
    out = out * i
  return out


def math__comb(n, k):
  if k > n:
    return 0
  return math__factorial(n) // (math__factorial(k) * math__factorial(n - k))


def math__perm(n, k=None):
  k = n if k is None else k
  if k > n:
    return 0
  return math__factorial(n) // math__factorial(n - k)


def math__isqrt(n):
  k = 0
  while (k + 1) * (k + 1) <= n:
    k += 1
  return k


def math__lcm(*xs):
  out = 1
  for x in xs:
    a, b = out, x
    while b:
      a, b = b, a % b
    out = out * x // a
  return out


def math__degrees(x):
  return x * (180 / jnp.pi)


def math__dist(p, q):
  return jnp.sqrt(sum((a - b) ** 2 for a, b in zip(p, q)))


def math__sumprod(p, q):
  return sum(a * b for a, b in zip(p, q))


def math__fmod(x, y):
  return x - y * jnp.trunc(x / y)


def math__copysign(x, y):
  return abs(x) if y >= 0 else -abs(x)


math__cosh = jnp.cosh
math__sinh = jnp.sinh
math__acos = jnp.arccos
math__asin = jnp.arcsin
math__atan = jnp.arctan
math__atan2 = jnp.arctan2
math__cbrt = jnp.cbrt
math__exp2 = jnp.exp2
math__expm1 = jnp.expm1
math__log1p = jnp.log1p


def functools__update_wrapper(wrapper, wrapped, *args, **kwargs):
  return wrapper


def scipy__linalg__inv(a):
  return jnp.linalg.inv(a)


def scipy__linalg__eigh(a, **kwargs):
  return jnp.linalg.eigh(a)


def scipy__linalg__solve(a, b):
  return jnp.linalg.solve(a, b)


def scipy__linalg__norm(a, ord=None, axis=None, keepdims=False):
  return jnp.linalg.norm(a, ord=ord, axis=axis, keepdims=keepdims)


jax__scipy__linalg__inv = scipy__linalg__inv
jax__scipy__linalg__eigh = scipy__linalg__eigh
jax__scipy__linalg__solve = scipy__linalg__solve


class functools__singledispatch:

  def __init__(self, func):
    self.func = func
    self.table = []

  def register(self, cls, func=None):
    if func is None:
      if isinstance(cls, type):
        return lambda f: self.register(cls, f)
      func = cls
      notes = func.__annotations__
      cls = notes[[k for k in notes][0]]
    self.table.append((cls, func))
    return func

  def dispatch(self, value):
    best = None
    for cls, func in self.table:
      if isinstance(value, cls) and (best is None or issubclass(cls, best[0])):
        best = (cls, func)
    return self.func if best is None else best[1]

  def __call__(self, *args, **kwargs):
    return self.dispatch(args[0])(*args, **kwargs)


class functools__singledispatchmethod:

  def __init__(self, func):
    self.table = functools__singledispatch(func)

  def register(self, cls, func=None):
    return self.table.register(cls, func)

  def __get__(self, obj, cls=None):
    return lambda *a, **k: self.table.dispatch(a[0])(obj, *a, **k)


def functools__total_ordering(cls):
  undecided()


class types__SimpleNamespace:

  def __init__(self, **kwargs):
    for k, v in kwargs.items():
      setattr(self, k, v)


class collections__deque:

  def __init__(self, iterable=(), maxlen=None):
    self.items = []
    self.maxlen = maxlen
    for x in iterable:
      self.append(x)

  def append(self, x):
    self.items.append(x)
    if self.maxlen is not None and len(self.items) > self.maxlen:
      del self.items[0]

  def appendleft(self, x):
    self.items.insert(0, x)
    if self.maxlen is not None and len(self.items) > self.maxlen:
      del self.items[-1]

  def pop(self):
    return self.items.pop()

  def popleft(self):
    return self.items.pop(0)

  def extend(self, xs):
    for x in xs:
      self.append(x)

  def rotate(self, n=1):
    k = len(self.items)
    if k:
      n = n % k
      self.items = self.items[k - n:] + self.items[:k - n]

  def clear(self):
    self.items = []

  def __len__(self):
    return len(self.items)

  def __iter__(self):
    return iter(self.items)

  def __getitem__(self, k):
    return self.items[k]

  def __setitem__(self, k, v):
    self.items[k] = v

  def __bool__(self):
    return bool(self.items)

  def __contains__(self, x):
    return x in self.items


def itertools__takewhile(pred, xs):
  out = []
  for x in xs:
    if not pred(x):
      break
    out.append(x)
  return iter(out)


def itertools__dropwhile(pred, xs):
  out = []
  for x in xs:
    if out or not pred(x):
      out.append(x)
  return iter(out)


def itertools__filterfalse(pred, xs):
  return iter([x for x in xs if not (x if pred is None else pred(x))])


def itertools__compress(data, selectors):
  return iter([x for x, s in zip(data, selectors) if s])


def itertools__groupby(xs, key=None):
  out = []
  for x in xs:
    k = x if key is None else key(x)
    if out and out[-1][0] == k:
      out[-1][1].append(x)
    else:
      out.append((k, [x]))
  return iter([(k, iter(v)) for k, v in out])


def itertools__cycle(xs):
  undecided()


def collections__Counter(xs=()):
  out = {}
  for x in xs:
    out[x] = out.get(x, 0) + 1
  return out


def collections__ChainMap(*maps):
  out = {}
  for m in reversed(maps):
    out.update(m)
  return out
