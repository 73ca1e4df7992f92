"""M05: losses, metrics and training steps."""
from props.common import *  # pylint: disable=wildcard-import,unused-wildcard-import

EXPLANATION = (
    'Losses and metrics are interpreted on trajectories of unknown values for '
    'several layouts of time and batch axes and compared, in closed form, with '
    'their definition (which elements enter, with which weight, over which '
    'axes). Training, evaluation and preprocessing helpers are interpreted '
    'with unknown models, losses and optimisers: every value handed to them '
    'and the data flow between them are compared with the stated protocol.')

ME, TU = 'ml.metrics:', 'ml.train_utils:'


def run(ctx):
  for shape, taxes in (((3, 2), (0, 1, -1)), ((3, 2, 2), (0, 1, -2)),
                       ((2, 3, 2), (0, 1))):
    for t in taxes:
      for comps in (1, 2):
        k = f'{shape} time={t} components={comps}'
        for n in (None, 1, 2):
          ctx.ob('cumulative loss', f'{k} n={n}', cumulative, ctx, shape, t,
                 comps, n)
        for n in (0, 1, -1):
          ctx.ob('single step loss', f'{k} n={n}', single, ctx, shape, t, comps,
                 n)
  for shape in ((2, 2, 2), (2, 3, 2), (2, 2, 1, 2)):
    for t in range(len(shape)):
      for b in range(len(shape)):
        if t != b and (len(shape) == 3 or {t, b} <= {0, 1}):
          for comps in (1, 2):
            ctx.ob('correlation', f'{shape} time={t} batch={b} '
                   f'components={comps}', corr, ctx, shape, t, b, comps)
  ctx.ob('correlation', 'perfect prediction', perfect, ctx)
  for b in (0, 1):
    for out in (0, 1, 2):
      ctx.ob('local reduction', f'batch={b} rank {out}', local, ctx, b, out)
  for name in ('mean', 'sum'):
    ctx.ob('local reduction', name, localnamed, ctx, name)
    ctx.ob('distributed reduction', name, distributed, ctx, name)
  ctx.ob('loss and gradient', '', lossgrad, ctx)
  ctx.ob('training step', '', train, ctx)
  ctx.ob('evaluation step', '', evaluate, ctx)
  for n in (1, 2, 3):
    ctx.ob('streaming mean', f'{n} batches', streaming, ctx, n)
  ctx.ob('streaming mean', 'no batches', empty, ctx)
  for comps in (1, 2, 3):
    ctx.ob('input noise', f'{comps} components', noise, ctx, comps)
  ctx.ob('preprocessing', 'identity', ident, ctx)
  ctx.ob('preprocessing', 'stream', stream, ctx)


# ------------------------------------------------------------ metrics

def rd(name, *ix):
  return X.rd(name, (None,) * len(ix), tuple(E(i) for i in ix), True, False)


def pair(shape, comps):
  xs = tuple(A.field(f'x{c}', shape, None) for c in range(comps))
  ys = tuple(A.field(f'y{c}', shape, None) for c in range(comps))
  return xs, ys


def all_ix(shape):
  return itertools.product(*map(range, shape))


def sq(c, ix):
  d = minus(rd(f'x{c}', *ix), rd(f'y{c}', *ix))
  return times(d, d)


def cumulative(ctx, shape, t, comps, n):
  xs, ys = pair(shape, comps)
  s = X.sym('scale')
  ax = t % len(shape)
  kw = {} if n is None else {'n': n}
  for scale in (None, s):
    if scale is not None:
      kw['scale'] = scale
    r = ctx.call(ME + 'l2_loss_cumulative', xs, ys, time_axis=t, **kw)
    want = plus(*[sq(c, ix) for c in range(comps) for ix in all_ix(shape)
                  if n is None or ix[ax] < n])
    ctx.same(E(r), times(want, 1 if scale is None else s), 'loss')
  if ax == 0 and n is not None:
    r = ctx.call(ME + 'l2_loss_cumulative', xs, ys, n, s)
    ctx.same(E(r), times(want, s), 'loss on the default axis')


def single(ctx, shape, t, comps, n):
  xs, ys = pair(shape, comps)
  s = X.sym('scale')
  ax = t % len(shape)
  want = plus(*[sq(c, ix) for c in range(comps) for ix in all_ix(shape)
                if ix[ax] == n % shape[ax]])
  r = ctx.call(ME + 'l2_loss_single_step', xs, ys, n, time_axis=t)
  ctx.same(E(r), want, 'loss')
  r = ctx.call(ME + 'l2_loss_single_step', xs, ys, n, s, t)
  ctx.same(E(r), times(want, s), 'scaled loss')
  if ax == 0:
    r = ctx.call(ME + 'l2_loss_single_step', xs, ys, n)
    ctx.same(E(r), want, 'loss on the default axis')


def corr(ctx, shape, t, b, comps):
  xs, ys = pair(shape, comps)
  n = shape[t] - 1
  groups = []
  for c in range(comps):
    for k in range(shape[b]):
      ixs = [ix for ix in all_ix(shape) if ix[t] == n and ix[b] == k]
      x = [rd(f'x{c}', *ix) for ix in ixs]
      y = [rd(f'y{c}', *ix) for ix in ixs]
      xx = plus(*[times(v, v) for v in x])
      yy = plus(*[times(v, v) for v in y])
      xy = plus(*[times(p, q) for p, q in zip(x, y)])
      groups.append(times(xy, X.power(xx, -HALF), X.power(yy, -HALF)))
  want = times(plus(*groups), Fraction(1, len(groups)))
  r = ctx.call(ME + 'correlation_single_step', xs, ys, n, t, b)
  ctx.same(E(r), want, 'mean correlation over samples and components')
  if (t, b) == (0, 1):
    r = ctx.call(ME + 'correlation_single_step', xs, ys, n)
    ctx.same(E(r), want, 'correlation with default axes')


def perfect(ctx):
  xs, _ = pair((2, 2, 3), 2)
  r = ctx.call(ME + 'correlation_single_step', xs, xs, 1)
  ctx.same(E(r), X.ONE, 'correlation of a trajectory with itself')


def local(ctx, b, rank):
  """metric and reduction unknown; the metric returns `rank` axes."""
  shape = (2, 3, 2)
  x, y = A.field('x', shape, None), A.field('y', shape, None)
  nb = shape[b]
  rest = tuple(s for k, s in enumerate(shape) if k != b)
  out = (4, 5)[:rank]
  seen = []

  def metric(ip, args, kwargs):
    u, v = (M.to_arr(z) for z in args)
    need(tuple(u.shape) == rest and tuple(v.shape) == rest,
         f'metric is given shapes {u.shape}, expected {rest}')
    e = [at(u, [(None, X.const(i)) for i in ix]) for ix in all_ix(rest)]
    f = [at(v, [(None, X.const(i)) for i in ix]) for ix in all_ix(rest)]
    return Arr.uniform(out, X.apply_op('metric', e + f + [
        X.idx(k) for k in range(rank)]))

  def reduce_(ip, args, kwargs):
    seen.append((M.to_arr(args[0]), args[1] if len(args) > 1
                 else kwargs['axis']))
    return X.sym('reduced')
  f = ctx.call(ME + 'local_reduce', pyfn('metric', metric),
               pyfn('reduction', reduce_), b)
  r = ctx.ip.call(f, [x, y], {})
  ctx.same(E(r), X.sym('reduced'), 'result')
  need(len(seen) == 1, f'{len(seen)} reductions')
  v, axis = seen[0]
  axis = int(E(axis).const_value()) % max(v.ndim, 1)
  need(v.ndim == rank + 1, f'reduced value has {v.ndim} axes, expected '
       f'{rank + 1}')
  need(axis < v.ndim and same_dim(v.shape[axis], nb),
       f'reduction along axis {axis} of {A.fmt_shape(v.shape)}; the batch has '
       f'{nb} entries')
  for k in range(nb):
    src = [ix[:b] + (k,) + ix[b:] for ix in all_ix(rest)]
    for jx in all_ix(out):
      key = list(jx)
      key.insert(axis, k)
      got = at(v, [(None, X.const(i)) for i in key])
      want = X.apply_op('metric', [rd('x', *ix) for ix in src] + [
          rd('y', *ix) for ix in src] + [X.const(j) for j in jx])
      ctx.same(got, want, f'metric of sample {k}')


def same_dim(a, b):
  return A.same_dim(A.dim(a), A.dim(b))


def localnamed(ctx, name):
  shape = (3, 2)
  x, y = pair(shape, 1)
  m = pyfn('metric', lambda ip, args, kw: ev(
      ctx, 'jnp.sum((u - v) ** 2)', u=args[0], v=args[1]))
  f = ctx.call(ME + 'local_' + name, m)
  r = ctx.ip.call(f, [x[0], y[0]], {})
  want = plus(*[sq(0, ix) for ix in all_ix(shape)])
  ctx.same(E(r), times(want, Fraction(1, 3) if name == 'mean' else 1), name)


def distributed(ctx, name):
  seen = []
  x, y = pair((3, 2), 1)

  def metric(ip, args, kwargs):
    need(args[0] is x[0] and args[1] is y[0] and kwargs == {'p': 3},
         'metric arguments changed')
    return X.sym('value')

  def reduce_(ip, args, kwargs):
    seen.append(args)
    return X.sym('reduced')
  for axis in (None, 'devices'):
    kw = {} if axis is None else {'axis_name': axis}
    f = ctx.call(ME + 'distributed_reduce', pyfn('metric', metric),
                 pyfn('reduction', reduce_), **kw)
    r = ctx.ip.call(f, [x[0], y[0]], {'p': 3})
    ctx.same(E(r), X.sym('reduced'), 'result')
    v, ax = seen.pop()
    ctx.same(E(v), X.sym('value'), 'reduced value')
    need(ax == (axis or 'batch'), f'axis {ax}')
    f = ctx.call(ME + 'distributed_' + name, pyfn('metric', metric), **kw)
    r = ctx.ip.call(f, [x[0], y[0]], {'p': 3})
    lib = ev(ctx, f'jax.lax.p{name}(v, ax)', v=X.sym('value'),
             ax=axis or 'batch')
    ctx.same(r, lib, name)


# ------------------------------------------------------------ training

class Tok:
  """An opaque object handed through."""

  def __init__(self, name):
    self.name = name

  def __repr__(self):
    return f'<{self.name}>'


def lossgrad(ctx):
  params = {'b': A.field('pb', (2,), None), 'w': A.field('pw', (2, 3), None)}
  target = (A.field('t0', (3, 2), None), A.field('t1', (3, 2), None))
  log = []

  def traj(ip, args, kwargs):
    log.append(('traj', args))
    return (Tok('final'), tuple(A.ewise(lambda *e, k=k: X.apply_op(
        f'traj{k}', e), t, M.to_arr(ev(ctx, 'jnp.sum(p["w"])', p=args[0])))
                                for k, t in enumerate(args[1])))

  def loss(ip, args, kwargs):
    log.append(('loss', args))
    return ev(ctx, 'jnp.sum(2 * a[0] - b[0] + a[1] * b[1])', a=args[0],
              b=args[1])
  f = ctx.call(TU + 'loss_and_gradient', pyfn('traj', traj), pyfn('loss', loss))
  r = ctx.ip.call(f, [params, target], {})
  need(isinstance(r, tuple) and len(r) == 2, f'expected value and gradient, got '
       f'{short(r)}')
  calls = [a for n, a in log if n == 'traj']
  need(all(a[0] is params and a[1] is target for a in calls),
       'the model is not run on the parameters and target')
  pred = traj(None, (params, target), {})[1]
  want = ev(ctx, 'jnp.sum(2 * a[0] - b[0] + a[1] * b[1])', a=pred, b=target)
  ctx.same(E(r[0]), E(want), 'loss')
  vg = ev(ctx, 'jax.value_and_grad(f)', f=pyfn('f', lambda ip, a, k: want))
  g = ctx.ip.call(vg, [params], {})[1]
  need(isinstance(r[1], dict) and set(r[1]) == set(params),
       f'gradient structure {short(r[1])}')
  for k in params:
    ctx.same(r[1][k], g[k], f'gradient of {k}')


def train(ctx):
  """(step, state), target -> (step + 1, update(step, grad, state)), loss."""
  params, grad, opt, opt2 = map(Tok, ('params', 'grad', 'state', 'new state'))
  target = A.field('t', (3,), None)
  loss = X.sym('loss')
  log = []

  def mk(name, res):
    def f(ip, args, kwargs):
      log.append((name, args))
      return res
    return pyfn(name, f)
  f = ctx.call(TU + 'train_step', mk('lg', (loss, grad)), mk('up', opt2),
               mk('gp', params))
  for step in (0, 7, X.sym('step', integer=True)):
    log.clear()
    (s, o), l = ctx.ip.call(f, [(step, opt), target], {})
    ctx.same(E(s), plus(step, 1), 'step counter')
    need(o is opt2, f'optimiser state {o}')
    ctx.same(E(l), loss, 'loss')
    byname = {n: a for n, a in log}
    need(sorted(n for n, _ in log) == ['gp', 'lg', 'up'],
         f'calls {[n for n, _ in log]}')
    need(list(byname['gp']) == [opt], 'parameters are not read from the state')
    need(byname['lg'][0] is params and byname['lg'][1] is target,
         'loss arguments')
    ctx.same(E(byname['up'][0]), E(step), 'step given to the update')
    need(byname['up'][1] is grad and byname['up'][2] is opt, 'update arguments')


def evaluate(ctx):
  params, pred = Tok('params'), (A.field('p', (3,), None),)
  target = (A.field('t', (3,), None),)
  log = []

  def traj(ip, args, kwargs):
    need(args[0] is params and args[1] is target, 'trajectory arguments')
    return (Tok('final'), pred)

  def metric(name):
    def f(ip, args, kwargs):
      log.append(name)
      need(args[0] is pred and args[1] is target,
           f'metric {name}: prediction and target exchanged or replaced')
      return X.sym(name)
    return pyfn(name, f)
  f = ctx.call(TU + 'eval_batch', pyfn('traj', traj),
               {k: metric('m_' + k) for k in 'abc'})
  r = ctx.ip.call(f, [params, target], {})
  need(isinstance(r, dict) and list(sorted(r)) == ['a', 'b', 'c'],
       f'metrics {short(r)}')
  for k in 'abc':
    ctx.same(E(r[k]), X.sym('m_' + k), f'metric {k}')


def streaming(ctx, n):
  batches = [Tok(f'batch{k}') for k in range(n)]
  fn = pyfn('eval', lambda ip, args, kw: {
      k: X.sym(f'{k}{batches.index(args[0])}') for k in ('a', 'b')})
  r = ctx.call(TU + 'streaming_mean', list(batches), fn)
  need(set(r) == {'a', 'b'}, f'metrics {short(r)}')
  for k in ('a', 'b'):
    ctx.same(E(r[k]), times(plus(*[X.sym(f'{k}{i}') for i in range(n)]),
                            Fraction(1, n)), f'mean of {k}')


def empty(ctx):
  ctx.raises('RuntimeError', lambda: ctx.call(
      TU + 'streaming_mean', [], pyfn('eval', lambda ip, a, k: {})))


def noise(ctx, comps):
  shape = (2, 3, 4)
  batch = tuple(A.field(f'x{c}', shape, None) for c in range(comps))
  key = ev(ctx, 'jax.random.PRNGKey(0)')
  for scale in (None, X.sym('scale')):
    n0 = len(ctx.ip.events)
    kw = {} if scale is None else {'scale': scale}
    r = ctx.call(TU + 'add_noise_to_input_frame', batch, key, **kw)
    need(isinstance(r, tuple) and len(r) == comps, f'result {short(r)}')
    draws = [e for e in ctx.ip.events[n0:] if e[0] == 'rng'
             and e[1] not in ('split', 'fold_in')]
    need(len(draws) == comps, f'{len(draws)} draws for {comps} components')
    keys = [M.tokey(e[2]) for e in draws]
    need(len(set(keys)) == comps, 'components share a key')
    need(comps == 1 or M.tokey(key) not in keys, 'the parent key is drawn from')
    s = Fraction(1, 100) if scale is None else scale
    used = set()
    for c in range(comps):
      a = arr_of(r[c])
      for k, e in enumerate(draws):
        need(e[1] == 'truncated_normal' and E(e[4]['lower']) == X.const(-2)
             and E(e[4]['upper']) == X.const(2), 'noise distribution')
        nz = M.to_arr(e[5])
        need(tuple(nz.shape) == (2, 4), f'noise of shape {nz.shape}')
        ok = X.equal(at(a, [(None, X.const(1)), (None, X.ZERO),
                            (None, X.const(2))]), plus(
                                rd(f'x{c}', 1, 0, 2), times(s, at(nz, [
                                    (None, X.const(1)), (None, X.const(2))]))))
        if ok:
          need(k not in used, 'noise shared between components')
          used.add(k)

          def spec(*ix, nz=nz):
            v = rd(f'x{c}', *ix)
            if X.equal(E(ix[1]), X.ZERO):
              v = plus(v, times(s, at(nz, [(None, ix[0]), (None, ix[2])])))
            return v
          pointwise(a, shape, spec, f'component {c}')
          break
      else:
        need(False, f'component {c}, frame 0 is not input + scale * noise: '
             f'{short(a)}')


def ident(ctx):
  batch = (A.field('x', (2, 3), None),)
  for args in ((batch,), (batch, ev(ctx, 'jax.random.PRNGKey(0)'))):
    r = ctx.call(TU + 'identity', *args)
    ctx.same(r, batch, 'batch')


def stream(ctx):
  data = [A.field(f'd{k}', (2,), None) for k in range(3)]
  keys = [A.field(f'k{k}', (2,), None) for k in range(3)]
  fn = pyfn('prep', lambda ip, args, kw: A.ewise(
      lambda a, b: X.apply_op('prep', (a, b)), *map(M.to_arr, args)))
  r = ev(ctx, '''
out = []
gen = preprocess(iter(data), iter(keys), fn)
for k in range(3):
  out.append(next(gen))
''', preprocess=ctx.anchor('ml.train_utils', 'preprocess'), data=data, keys=keys,
         fn=fn)
  for k in range(3):
    pointwise(r['out'][k], (2,), lambda i, k=k: X.apply_op(
        'prep', (rd(f'd{k}', i), rd(f'k{k}', i))), f'batch {k}')
