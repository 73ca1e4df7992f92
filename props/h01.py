"""H01: repeated and scanned stepping."""
from props.rk import *  # pylint: disable=wildcard-import,unused-wildcard-import

EXPLANATION = (
    'The stepping helpers are interpreted with unknown step and '
    'post-processing functions on states of several structures: for concrete '
    'counts every stored frame and the final state are compared with plain '
    'iteration; for symbolic counts the single loop that remains is checked '
    'to start at the given state and to apply the step once per turn.')

FU, MB, MU, TI = ('base.funcutils:', 'ml.model_builder:', 'ml.model_utils:',
                  'ml.time_integrators:')


def run(ctx):
  for form in FORMS:
    for base in (FU, MB):
      for n in (0, 1, 2, 5):
        ctx.ob('repeated', f'{base} {form} n={n}', repeated, ctx, form, base, n)
      ctx.ob('repeated', f'{base} {form} any n', induct, ctx, form, base)
    for n in (1, 2, 3):
      for start in (None, False, True):
        for post in (None, 'same', 'other'):
          ctx.ob('trajectory', f'{form} n={n} start={start} post={post}',
                 trajectory, ctx, form, n, start, post)
    for start in (False, True):
      for post in (False, True):
        ctx.ob('trajectory', f'{form} any n start={start} post={post}',
               tinduct, ctx, form, start, post)
    for n in (1, 3):
      ctx.ob('initialisation', f'{form} repeated n={n}', warm, ctx, form, n)
      ctx.ob('initialisation', f'{form} trajectory n={n}', warmtraj, ctx, form,
             n)
    for outer in (1, 2, 3):
      for inner in (1, 2, 3):
        for start in (False, True):
          ctx.ob('outer and inner steps', f'{form} {outer}x{inner} '
                 f'start={start}', nested, ctx, form, outer, inner, start)
    for n in (1, 3):
      ctx.ob('euler integrator', f'{form} n={n}', euler, ctx, form, n)
  for inner in (1, 3):
    ctx.ob('outer and inner steps', f'any x {inner}', ninduct, ctx, inner)
  ctx.ob('outer and inner steps', 'checkpoint', nested, ctx, 'tuple', 2, 2,
         False, True)
  for outer in (1, 2):
    for inner in (None, 1, 2):
      for start in (None, True):
        for post in (False, True):
          ctx.ob('model trajectory', f'{outer}x{inner} start={start} '
                 f'post={post}', model, ctx, outer, inner, start, post)
  ctx.ob('scan', 'carry, inputs and outputs', scanned, ctx)
  ctx.ob('initialisation', 'scan over inputs', warmscan, ctx)
  ctx.ob('initialisation', 'context', context, ctx)
  for k in (1, 2, 3):
    for axis in (None, 0, 1):
      ctx.ob('split input', f'{k} axis={axis}', split, ctx, k, axis)
      ctx.ob('input included', f'axis={axis}', included, ctx, axis)
    for inner in (None, 2):
      ctx.ob('decoded trajectory', f'{k} inner={inner}', decoded, ctx, k, inner)
  ctx.ob('pre- and post-processing', '', wrapped, ctx)


def FUMOD(ctx):
  return ctx.ip.load('jax_cfd.base.funcutils')


def iterate(st, es, n, f='S'):
  for _ in range(n):
    es = st.sp(f, es)
  return es


def repeated(ctx, form, base, n):
  st = State(ctx, form)
  f = ctx.call(base + 'repeated', st.fn('S'), n)
  r = ctx.ip.call(f, [st.init()], {})
  st.same(r, lambda es: iterate(st, es, n), 'state')


def loops(ctx):
  return [e for e in ctx.ip.events if e[0] == 'scan']


def same_tree(st, got, want, what):
  for g, w in zip(st.leaves(got, what), st.leaves(want, what)):
    st.ctx.same(g, w, what)


def the_loop(ctx, st, n, x0):
  """The only loop: n turns from x0. Returns the event."""
  es = loops(ctx)
  need(len(es) == 1, f'{len(es)} loops of symbolic length, expected 1')
  e = es[0]
  need(A.same_dim(e[4], A.dim(n)), f'loop of {e[4]} turns, expected {n}')
  same_tree(st, e[2], x0, 'initial state of the loop')
  return e


def ended(st, got):
  """got is the final carry of the loop."""
  for i, a in enumerate(st.leaves(got, 'final state')):
    e = at(a, [(None, X.idx(j)) for j in range(a.ndim)])
    ats = [t for t in e.atoms() if t.op == 'call' and
           str(t.args[0]).startswith('scan.')]
    need(len(e.t) == 1 and len(ats) == 1 and ats[0].args[0] == 'scan.final' and
         X.equal(e, X.of_atom(ats[0])) and str(ats[0].args[2]) == str(i),
         f'the final state is not the last carry: {short(a)}')


def induct(ctx, form, base):
  """Induction over the number of steps."""
  ctx.fresh()
  st = State(ctx, form)
  n = X.sym('steps', big=True)
  x0 = st.init()
  f = ctx.call(base + 'repeated', st.fn('S'), n)
  r = ctx.ip.call(f, [x0], {})
  e = the_loop(ctx, st, n, x0)
  same_tree(st, e[6], ctx.ip.call(st.fn('S'), [e[5]], {}), 'one turn')
  ended(st, r)


def postfn(st, kind):
  """Post-processing of the same or of another structure."""
  if kind == 'same':
    return st.fn('Q')

  def call(ip, args, kwargs):
    es = st.leaves(args[0], 'argument of the post-processing')
    return {'out': A.ewise(lambda *e: X.apply_op('Q', e), *es)}
  return pyfn('Q', call)


def frames(st, ys, n, specs, post, what='frame'):
  """Frame k of ys is specs[k], post-processed."""
  def check(a, val, w):
    need(a.shape is not None and a.ndim == st.w.ndim + 1 and
         A.same_dim(a.shape[0], n), f'{w}: {n} frames expected, shape '
         f'{a.shape}')
    for k in range(n):
      pointwise(A.take_index(a, 0, k), st.w.n, lambda *ix, k=k: val(k, tuple(
          st.w.rd(q, *ix) for q in st.names)), f'{w} {k}', 1)
  if post == 'other':
    need(isinstance(ys, dict) and set(ys) == {'out'}, f'frames: {short(ys)}')
    return check(arr_of(ys['out']),
                 lambda k, es: X.apply_op('Q', specs(k, es)), what)
  for i, a in enumerate(stacked(st, ys)):
    check(a, lambda k, es, i=i: (st.sp('Q', specs(k, es)) if post else
                                 specs(k, es))[i], f'{what}, leaf {i},')


def stacked(st, ys):
  return st.leaves(ys, 'frames')


def trajectory(ctx, form, n, start, post):
  st = State(ctx, form)
  kw = {} if start is None else dict(start_with_input=start)
  args = (postfn(st, post),) if post else ()
  f = ctx.call(FU + 'trajectory', st.fn('S'), n, *args, **kw)
  r = ctx.ip.call(f, [st.init()], {})
  need(isinstance(r, tuple) and len(r) == 2, f'(final, frames): {short(r)}')
  st.same(r[0], lambda es: iterate(st, es, n), 'final state')
  frames(st, r[1], n, lambda k, es: iterate(st, es, k if start else k + 1),
         post)


def tinduct(ctx, form, start, post):
  ctx.fresh()
  st = State(ctx, form)
  n = X.sym('steps', big=True)
  x0 = st.init()
  args = (postfn(st, 'same'),) if post else ()
  f = ctx.call(FU + 'trajectory', st.fn('S'), n, *args, start_with_input=start)
  r = ctx.ip.call(f, [x0], {})
  turn(ctx, st, n, x0, r, st.fn('S'), start, post)


def turn(ctx, st, n, x0, r, step, start, post):
  e = the_loop(ctx, st, n, x0)
  nxt = ctx.ip.call(step, [e[5]], {})
  same_tree(st, e[6], nxt, 'one turn')
  y = e[5] if start else nxt
  if post:
    y = ctx.ip.call(st.fn('Q'), [y], {})
  same_tree(st, e[7], y, 'stored frame')
  ended(st, r[0])


def nested(ctx, form, outer, inner, start, checkpoint=False):
  st = State(ctx, form)
  kw = dict(set_checkpoint=True) if checkpoint else {}
  f = ctx.call(MB + 'trajectory_from_step', st.fn('S'), outer, inner,
               start_with_input=start, post_process_fn=postfn(st, 'other'),
               **kw)
  r = ctx.ip.call(f, [st.init()], {})
  st.same(r[0], lambda es: iterate(st, es, outer * inner), 'final state')
  frames(st, r[1], outer, lambda k, es: iterate(
      st, es, inner * (k if start else k + 1)), 'other')


def ninduct(ctx, inner):
  for start in (False, True):
    ctx.fresh()
    st = State(ctx, 'tuple')
    n = X.sym('steps', big=True)
    x0 = st.init()
    f = ctx.call(MB + 'trajectory_from_step', st.fn('S'), n, inner,
                 start_with_input=start, post_process_fn=st.fn('Q'))
    r = ctx.ip.call(f, [x0], {})

    def step(ip, a, k):
      x = a[0]
      for _ in range(inner):
        x = ip.call(st.fn('S'), [x], {})
      return x
    turn(ctx, st, n, x0, r, pyfn('steps', step), start, True)


def euler(ctx, form, n):
  """n explicit Euler steps, every state stored."""
  if form == 'variables':
    return
  st = State(ctx, form)
  r = ctx.call(TI + 'euler_integrator', st.fn('S'), st.init(), DT, n)

  def it(es, k):
    for _ in range(k):
      es = lin(es, (DT, st.sp('S', es)))
    return es
  need(isinstance(r, tuple) and len(r) == 2, f'(final, frames): {short(r)}')
  st.same(r[0], lambda es: it(es, n), 'final state')
  frames(st, r[1], n, lambda k, es: it(es, k + 1), None)


def model(ctx, outer, inner, start, post):
  """DynamicalSystem.trajectory advances with `advance`."""
  st = State(ctx, 'tuple')
  mods = [pyfn(m, lambda ip, a, k, m=m: st.fn(m)) for m in 'SED']
  mod = ctx.call(MB + 'ModularStepModel', st.w.grid, DT, None,
                 advance_module=mods[0], encoder_module=mods[1],
                 decoder_module=mods[2])
  kw = {}
  if start is not None:
    kw['start_with_input'] = start
  if post:
    kw['post_process_fn'] = postfn(st, 'other')
  args = (outer,) if inner is None else (outer, inner)
  r = meth(ctx, mod, 'trajectory', st.init(), *args, **kw)
  inner = inner or 1
  st.same(r[0], lambda es: iterate(st, es, outer * inner), 'final state')
  frames(st, r[1], outer, lambda k, es: iterate(
      st, es, inner * (k if start else k + 1)), 'other' if post else None)
  for m, name in (('E', 'encode'), ('D', 'decode')):
    st.same(meth(ctx, mod, name, st.init()), lambda es, m=m: st.sp(m, es), name)


# ------------------------------------------------------------- initialising


def scan_args(ctx, st, calls):
  def f(ip, args, kwargs):
    calls.append(1)
    c, x = args
    es = st.leaves(c, 'carry')
    v = arr_of(x['v'])
    out = st.build([A.ewise(lambda *e, i=i: X.apply_op(f'C{i}', e), v, *es)
                    for i in range(len(es))])
    return out, {'y': A.ewise(lambda *e: X.apply_op('Y', e), v, *es)}
  return pyfn('body', f)


def steps(st, xs, k):
  """Carry after k turns and outputs before it."""
  def spec(es, ix):
    ys = []
    for j in range(k):
      v = at(xs, [(None, X.const(j))] + [(None, E(i)) for i in ix])
      ys.append(X.apply_op('Y', (v,) + tuple(es)))
      es = tuple(X.apply_op(f'C{i}', (v,) + tuple(es))
                 for i in range(len(es)))
    return es, ys
  return spec


def scan_result(ctx, st, r, xs, turns, frames_):
  """turns: carried applications; frames_: index of the output per frame."""
  for i, a in enumerate(st.leaves(r[0], 'carry')):
    pointwise(a, st.w.n, lambda *ix, i=i: steps(st, xs, turns)(tuple(
        st.w.rd(q, *ix) for q in st.names), ix)[0][i], 'carry', 1)
  y = arr_of(r[1]['y'])
  need(A.same_dim(y.shape[0], len(frames_)), f'outputs of shape {y.shape}')
  for k, j in enumerate(frames_):
    pointwise(A.take_index(y, 0, k), st.w.n, lambda *ix, j=j: steps(
        st, xs, turns)(tuple(st.w.rd(q, *ix) for q in st.names), ix)[1][j],
              f'output {k}', 1)


def scanned(ctx):
  for length in (None, 3):
    st = State(ctx, 'tuple')
    xs = A.field('x', (3,) + st.w.n, None)
    args = () if length is None else (length,)
    r = ctx.call(FU + 'scan', scan_args(ctx, st, []), st.init(), {'v': xs},
                 *args)
    scan_result(ctx, st, r, xs, 3, (0, 1, 2))


def warmscan(ctx):
  """Within init_context the body runs once; shapes are those of the scan."""
  for length in (None, 3):
    st = State(ctx, 'tuple')
    xs = A.field('x', (3,) + st.w.n, None)
    calls = []
    r = ev(ctx, 'with fu.init_context():\n  r = fu.scan(f, x, xs, *rest)\n'
           'n = fu.scan(f, x, xs, *rest)\npass', fu=FUMOD(ctx),
           f=scan_args(ctx, st, calls), x=st.init(), xs={'v': xs},
           rest=() if length is None else (length,))
    need(len(calls) == 4, f'{len(calls) - 3} evaluations while initialising')
    scan_result(ctx, st, r['r'], xs, 1, (0, 0, 0))
    scan_result(ctx, st, r['n'], xs, 3, (0, 1, 2))


def warm(ctx, form, n):
  st = State(ctx, form)
  fu = FUMOD(ctx)
  ctx.anchor('base.funcutils', 'init_context')
  r = ev(ctx, 'g = fu.repeated(f, n)\nwith fu.init_context():\n  r = g(x)\n'
         's = g(x)\npass', fu=fu, f=st.fn('S'), n=n, x=st.init())
  need(len(st.log) == 1 + n, f'{len(st.log) - n} evaluations')
  st.same(r['r'], lambda es: st.sp('S', es), 'initialised state')
  st.same(r['s'], lambda es: iterate(st, es, n), 'state afterwards')


def warmtraj(ctx, form, n):
  st = State(ctx, form)
  fu = FUMOD(ctx)
  ctx.anchor('base.funcutils', 'init_context')
  r = ev(ctx, 'g = fu.trajectory(f, n, q)\nwith fu.init_context():\n'
         '  r = g(x)\ns = g(x)\npass', fu=fu, f=st.fn('S'), n=n, x=st.init(),
         q=postfn(st, 'other'))
  need(len(st.log) == 1 + n, f'{len(st.log) - n} evaluations')
  st.same(r['r'][0], lambda es: st.sp('S', es), 'initialised state')
  frames(st, r['r'][1], n, lambda k, es: iterate(st, es, 1), 'other',
         'initialised frame')
  frames(st, r['s'][1], n, lambda k, es: iterate(st, es, k + 1), 'other')


def context(ctx):
  """Contexts nest, and end when left by an exception."""
  st = State(ctx, 'array')
  fu = FUMOD(ctx)
  ctx.anchor('base.funcutils', 'init_context')
  r = ev(ctx, '''
g = fu.repeated(f, 3)
with fu.init_context():
  with fu.init_context():
    a = g(x)
  b = g(x)
try:
  with fu.init_context():
    raise ValueError('x')
except ValueError:
  pass
c = g(x)
pass''', fu=fu, f=st.fn('S'), x=st.init())
  for k, n in (('a', 1), ('b', 1), ('c', 3)):
    st.same(r[k], lambda es, n=n: iterate(st, es, n), f'state {k}')


# ---------------------------------------------------------- rollout helpers


def tree(ctx, shape, tag='x'):
  return (A.field(tag + '0', shape, None),
          {'k': A.field(tag + '1', shape, None)})


def parts(t):
  need(isinstance(t, tuple) and len(t) == 2 and isinstance(t[1], dict) and
       set(t[1]) == {'k'}, f'structure: {short(t)}')
  return [arr_of(t[0]), arr_of(t[1]['k'])]


def taken(log):
  def call(ip, args, kwargs):
    log.append((tuple(args), dict(kwargs)))
    return args[0]
  return pyfn('fn', call)


def split(ctx, k, axis):
  shape = (n_sym(0), n_sym(1), 3)
  x = tree(ctx, shape)
  log = []
  kw = {} if axis is None else dict(time_axis=axis)
  f = ctx.call(MU + 'with_split_input', taken(log), k, **kw)
  r = ctx.ip.call(f, [x, 'a'], {'b': 'c'})
  need(len(log) == 1 and log[0][0][1:] == ('a',) and log[0][1] == {'b': 'c'},
       'other arguments are handed over')
  ax = axis or 0
  for i, a in enumerate(parts(r)):
    want = tuple(k if j == ax else s for j, s in enumerate(shape))
    pointwise(a, want, lambda *ix, i=i: X.rd(
        f'x{i}', (None,) * 3, tuple(E(q) for q in ix), True, False),
              f'leaf {i}', 1)


def included(ctx, axis):
  shape = [n_sym(0), n_sym(1), 3]
  ax = axis or 0
  s1, s2 = list(shape), list(shape)
  s1[ax], s2[ax] = 2, 4
  x, y = tree(ctx, tuple(s1)), tree(ctx, tuple(s2), 'y')
  log = []

  def fn(ip, args, kwargs):
    log.append((tuple(args), dict(kwargs)))
    return 'final', y
  kw = {} if axis is None else dict(time_axis=axis)
  f = ctx.call(MU + 'with_input_included', pyfn('traj', fn), **kw)
  r = ctx.ip.call(f, [x, 7], {'b': 'c'})
  need(len(log) == 1 and log[0][0][1:] == (7,) and log[0][1] == {'b': 'c'} and
       log[0][0][0] is x, 'arguments are handed over')
  need(r[0] == 'final', 'final state is handed back')
  for i, a in enumerate(parts(r[1])):
    ctx.same(a, A.concat([A.field(f'x{i}', tuple(s1), None),
                          A.field(f'y{i}', tuple(s2), None)], ax), f'leaf {i}')


def wrapped(ctx):
  log = []

  def fn(ip, args, kwargs):
    log.append((tuple(args), dict(kwargs)))
    return 'p', 'q'
  pre = pyfn('pre', lambda ip, a, k: ('pre', a[0]))
  post = pyfn('post', lambda ip, a, k: ('post',) + tuple(a))
  f = ctx.call(MU + 'with_preprocessing', pyfn('fn', fn), pre)
  r = ctx.ip.call(f, ['x', 'y'], {'z': 1})
  need(log == [((('pre', 'x'), 'y'), {'z': 1})] and r == ('p', 'q'),
       f'preprocessing of the first argument: {log}')
  log.clear()
  f = ctx.call(MU + 'with_post_processing', pyfn('fn', fn), post)
  r = ctx.ip.call(f, ['x', 'y'], {'z': 1})
  need(log == [(('x', 'y'), {'z': 1})] and r == ('post', 'p', 'q'),
       f'post-processing of the outputs: {short(r)}')


def decoded(ctx, k, inner):
  """x[:k] is encoded, rolled out, decoded and put in front."""
  shape = (5, n_sym(1))
  st = State(ctx, 'array')
  log = []

  class Model:
    pass
  outer = 3

  def un(name):
    return lambda a: A.unary(lambda e: X.apply_op(name, (e,)), arr_of(a))
  enc = pyfn('encode', lambda ip, a, kw: un('enc')(
      A.take_index(parts(a[0])[0], 0, k - 1)))
  dec = pyfn('decode', lambda ip, a, kw: (un('d0')(a[0]),
                                          {'k': un('d1')(a[0])}))
  adv = pyfn('advance', lambda ip, a, kw: un('S')(a[0]))
  mods = [pyfn('m', lambda ip, a, kw, m=m: m) for m in (adv, enc, dec)]
  mod = ctx.call(MB + 'ModularStepModel', st.w.grid, DT, None,
                 advance_module=mods[0], encoder_module=mods[1],
                 decoder_module=mods[2])
  x = tree(ctx, shape)
  f = ctx.call(MU + 'decoded_trajectory_with_inputs', mod, k)
  r = ctx.ip.call(f, [x, outer] + ([] if inner is None else [inner]), {})
  inner = inner or 1

  def state(j, n):
    v = X.apply_op('enc', (X.rd('x0', (None, None), (X.const(k - 1), E(j)),
                                True, False),))
    for _ in range(n):
      v = X.apply_op('S', (v,))
    return v
  pointwise(r[0], shape[1:], lambda j: state(j, outer * inner), 'final', 1)
  for i, a in enumerate(parts(r[1])):
    need(A.same_dim(a.shape[0], k + outer), f'frames: {a.shape}')
    for q in range(k + outer):
      pointwise(A.take_index(a, 0, q), shape[1:], lambda j, q=q, i=i: (
          X.rd(f'x{i}', (None, None), (X.const(q), E(j)), True, False)
          if q < k else X.apply_op(f'd{i}', (state(j, (q - k + 1) * inner),))),
                f'frame {q}', 1)
