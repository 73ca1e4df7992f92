"""M03: encoders, decoders and the modules that sit between fields and nets."""
from props.bclaw import *  # pylint: disable=wildcard-import,unused-wildcard-import
import itertools as it

EXPLANATION = (
    'Every encoder, decoder and field/network adapter is interpreted on '
    'trajectories and fields of unknown values over grids of symbolic sizes, '
    'for numbers of components, frames, time axes, offsets and boundary '
    'conditions; the result is compared component by component with the last '
    'frame(s), the stacked channels, the interpolated field or the spectral '
    'relation each adapter documents, and decoders are applied to the encoded '
    'states.')

EN, DE, NW = 'ml.encoders:', 'ml.decoders:', 'ml.networks:'
F = Fraction
DT = X.sym('dt', pos=True)
M_, P_ = (X.sym(s, pos=True, big=True, integer=True) for s in 'mp')


def run(ctx):
  for nd in (1, 2, 3):
    for t in (1, 3):
      for kind in ('plain', 'offsets'):
        ctx.ob('aligned encoder', f'ndim={nd} frames={t} {kind}', aligned, ctx,
               nd, t, kind)
      ctx.ob('staggering encoder', f'ndim={nd} frames={t}', staggered, ctx, nd,
             t)
    ctx.ob('aligned decoder', f'ndim={nd}', aligned_decode, ctx, nd)
    ctx.ob('collocating decoder', f'ndim={nd}', collocated, ctx, nd)
  for t in (1, 3):
    for types in ((PER, PER), (DIR, DIR), (PER, NEU), (NEU, DIR)):
      for extra in (False, True):
        ctx.ob('aligned encoder', f'combo {types} frames={t} extra={extra}',
               combo, ctx, t, types, extra)
  for axis in (0, 1, 2, -1, -3):
    for t in (1, 2, 4):
      ctx.ob('last frame', f'axis={axis} frames={t}', last, ctx, axis, t)
      for n in (1, 2, 3):
        if n <= t:
          ctx.ob('last frames', f'axis={axis} frames={t} n={n}', lastn, ctx,
                 axis, t, n)
          ctx.ob('stacked frames', f'axis={axis} frames={t} n={n}', stackn,
                 ctx, axis, t, n)
    for n in (1, 2):
      ctx.ob('latent encoder', f'axis={axis} n={n}', latent, ctx, axis, n,
             False, None)
      ctx.ob('latent encoder', f'axis={axis} n={n} fields', latent, ctx, axis,
             n, True, None)
  ctx.ob('latent encoder', 'fields, given offsets', latent, ctx, 0, 2, True,
         ((HALF, HALF), (ZERO, ONE), (ONE, ONE)))
  for k in (1, 2, 4):
    ctx.ob('channel decoder', f'{k} channels', channels, ctx, k)
    ctx.ob('stack and split', f'{k} components', stack_split, ctx, k)
  for nd in (1, 2, 3):
    for nc in (None, 1, 4):
      for fields in (False, True):
        ctx.ob('latent decoder', f'ndim={nd} components={nc} fields={fields}',
               latent_decode, ctx, nd, nc, fields)
  ctx.ob('identity decoder', '', identity, ctx)
  for n in ((X.scale(M_, 2), X.scale(P_, 2)), (4, 6), (6, 4), (8, 8), (5, 8)):
    for t in (1, 2):
      k = f'n={n[0]},{n[1]} frames={t}'
      ctx.ob('vorticity encoder', k, vorticity, ctx, n, t)
    k = f'n={n[0]},{n[1]}'
    ctx.ob('vorticity decoder', k, velocity, ctx, n)
  for nd in (1, 2, 3):
    for offs in (False, True):
      ctx.ob('split fields', f'ndim={nd} offsets={offs}', split_fields, ctx,
             nd, None, offs)
      ctx.ob('resampled fields', f'ndim={nd} offsets={offs}', resampled, ctx,
             nd, None, offs, False)
    ctx.ob('resampled fields', f'ndim={nd} processed', resampled, ctx, nd,
           None, True, True)
    ctx.ob('flux divergence', f'ndim={nd}', flux, ctx, nd)
    ctx.ob('stacked fields', f'ndim={nd}', stack_fields, ctx, nd)
    for n in (None, 1, 2):
      ctx.ob('stacked neighbours', f'ndim={nd} n={n}', neighbours, ctx, nd, n)
    for out in (None, 5):
      ctx.ob('tower module', f'ndim={nd} channels={out}', tower_mod, ctx, nd,
             out)
    ctx.ob('corrector', f'velocity ndim={nd}', corrector, ctx, nd)
    ctx.ob('corrector', f'flux ndim={nd}', flux_corrector, ctx, nd)
  for types in ((PER, PER), (DIR, NEU), (DIR, DIR)):
    for offs in (False, True):
      ctx.ob('split fields', f'combo {types} offsets={offs}', split_fields,
             ctx, 2, types, offs)
      ctx.ob('resampled fields', f'combo {types} offsets={offs}', resampled,
             ctx, 2, types, offs, offs)
    for proc in (False, True):
      ctx.ob('corrector', f'velocity with boundaries {types} processed={proc}',
             bounded, ctx, types, proc)


# ------------------------------------------------------------ shared parts

SPECS = '''
class Specs(Base):
  def combo_offsets(self):
    return offsets
  def combo_boundaries(self):
    return boundaries
s = Specs(None)
pass
'''


def base(ctx):
  return ctx.make('ml.physics_specifications:BasePhysicsSpecs', None)


def combo_specs(ctx, offsets, bcs):
  return ev(ctx, SPECS, Base=ctx.anchor('ml.physics_specifications',
                                        'BasePhysicsSpecs'),
            offsets=offsets, boundaries=bcs)['s']


def faces(nd):
  return tuple(face(nd, d) for d in range(nd))


def frames(w, name, t, chan=None):
  shape = (t,) + tuple(w.n) + (() if chan is None else (chan,))
  return A.field(name, shape, None)


def at_t(x, t):
  return A.at_axis0(x, t) if hasattr(A, 'at_axis0') else M.index(x, (t,))


def is_field(ctx, v, w, offset, bc, data, what):
  need_kind(v, 'GridVariable', what)
  need_offset(v, offset, f'offset of {what}')
  ctx.same(grid_of(v), w.grid, f'grid of {what}')
  ctx.same(bc_of(v), bc, f'boundary condition of {what}')
  ctx.same(arr_of(v), data, what)


def values(ctx, types, nd):
  return tuple((ZERO, ZERO) if t == DIR else (X.sym(f's{d}'), X.sym(f'q{d}'))
               if t == NEU else (None, None)
               for d, t in zip(range(nd), types))


def impose(ctx, bc, data, w, offset):
  return arr_of(ctx.ip.call(ctx.ip.getattr(bc, 'impose_bc'), [
      w.wrap(data, offset)], {}))


def linear(ctx, v, offset):
  return ctx.ip.call(ctx.ip.getattr(ctx.ip.load('jax_cfd.base.interpolation'),
                                    'linear'), [v, offset], {})


# ------------------------------------------------------------ encoders

def aligned(ctx, nd, t, kind):
  w = World(ctx, nd)
  xs = tuple(frames(w, f'x{k}', t) for k in range(nd))
  offs = faces(nd)
  kw = {}
  if kind == 'offsets':
    offs = tuple(tuple(ZERO if i == k else F(3, 4) for i in range(nd))
                 for k in range(nd))
    kw = dict(data_offsets=offs)
  f = ctx.call(EN + 'aligned_array_encoder', w.grid, DT, base(ctx), **kw)
  r = ctx.ip.iterate(ctx.ip.call(f, [xs], {}))
  need(len(r) == nd, f'{len(r)} fields for {nd} components')
  per = w.periodic()
  for k, v in enumerate(r):
    is_field(ctx, v, w, offs[k], per, at_t(xs[k], t - 1), f'component {k}')


def combo(ctx, t, types, extra):
  w = World(ctx, 2)
  offs = faces(2) + (((HALF, HALF),) if extra else ())
  bcs = tuple(w.bc(types, values(ctx, types, 2) if k < 2 else None)
              for k in range(len(offs)))
  if extra:
    bcs = bcs[:2] + (w.bc((NEU, NEU)),)
  need_edge = [any(tt == NEU and o == ONE for tt, o in zip(types, of))
               for of in faces(2)]
  if any(need_edge):  # slopes at walls are only defined for centred values
    offs = ((HALF, HALF), (HALF, HALF)) + offs[2:]
  xs = tuple(frames(w, f'x{k}', t) for k in range(len(offs)))
  s = combo_specs(ctx, offs, bcs)
  for kw in ({}, dict(data_offsets=((ZERO, ZERO),) * len(offs))):
    f = ctx.call(EN + 'aligned_array_encoder', w.grid, DT, s, **kw)
    r = ctx.ip.iterate(ctx.ip.call(f, [xs], {}))
    need(len(r) == len(offs), f'{len(r)} fields for {len(offs)} components')
    for k, v in enumerate(r):
      is_field(ctx, v, w, offs[k], bcs[k], impose(
          ctx, bcs[k], at_t(xs[k], t - 1), w, offs[k]), f'component {k}')


def staggered(ctx, nd, t):
  w = World(ctx, nd)
  xs = tuple(frames(w, f'x{k}', t) for k in range(nd))
  f = ctx.call(EN + 'collocated_to_staggered_encoder', w.grid, DT, base(ctx))
  r = ctx.ip.iterate(ctx.ip.call(f, [xs], {}))
  need(len(r) == nd, f'{len(r)} fields for {nd} components')
  per = w.periodic()
  for d, v in enumerate(r):
    src = w.wrap(at_t(xs[d], t - 1), center(nd), per)
    is_field(ctx, v, w, face(nd, d), per, arr_of(linear(ctx, src, face(nd, d))),
             f'component {d}')


def shape_with(axis, t, nd=2):
  """A trajectory shape with time at `axis`."""
  ns = [3, 2][:nd]
  ns.insert(axis if axis >= 0 else axis + nd + 1, t)
  return tuple(ns)


def trajectories(axis, t):
  return tuple(A.field(f'x{k}', shape_with(axis, t), None) for k in range(2))


def take(x, axis, i):
  axis = axis % len(x.shape)
  return M.index(x, tuple([slice(None)] * axis + [i]))


def entry_at(axis, t, nd=2):
  """(frame, ix) -> full index."""
  axis = axis % (nd + 1)
  return lambda fr, ix: tuple(ix[:axis]) + (fr,) + tuple(ix[axis:])


def last(ctx, axis, t):
  xs = trajectories(axis, t)
  f = ctx.call(EN + 'slice_last_state_encoder', None, DT, None, axis)
  for tree in (xs, {'a': xs[0], 'b': (xs[1],)}):
    r = ctx.ip.call(f, [tree], {})
    a, b = (r if isinstance(tree, tuple) else (r['a'], r['b'][0]))
    ctx.same(a, take(xs[0], axis, t - 1), 'component 0')
    ctx.same(b, take(xs[1], axis, t - 1), 'component 1')
  if axis == 0:
    f = ctx.call(EN + 'slice_last_state_encoder', None, DT, None)
    ctx.same(ctx.ip.call(f, [xs[0]], {}), take(xs[0], 0, t - 1), 'state')


def frame_spec(axis, t, n):
  full = entry_at(axis, t)

  def spec(name, ix, k):
    key = full(t - n + k, ix)
    return X.rd(name, (None,) * 3, tuple(E(i) for i in key), True, False)
  return spec


def lastn(ctx, axis, t, n):
  xs = trajectories(axis, t)
  f = ctx.call(EN + 'slice_last_n_state_encoder', None, DT, None, n=n,
               time_axis=axis)
  r = ctx.ip.call(f, [xs], {})
  need(len(r) == 2, f'{len(r)} components of 2')
  spec = frame_spec(axis, t, n)
  for c, v in enumerate(r):
    pointwise(v, (3, 2, n), lambda i, j, k: spec(
        f'x{c}', (i, j), int(k.const_value())), f'component {c}')


def stack_spec(axis, t, n, comps=2):
  spec = frame_spec(axis, t, n)

  def chan(i, j, q):
    q = int(E(q).const_value())
    return spec(f'x{q // n}', (i, j), q % n)
  return chan


def stackn(ctx, axis, t, n):
  xs = trajectories(axis, t)
  f = ctx.call(EN + 'stack_last_n_state_encoder', None, DT, None, n=n,
               time_axis=axis)
  r = ctx.ip.call(f, [xs], {})
  pointwise(r, (3, 2, 2 * n), stack_spec(axis, t, n), 'stacked frames')


class Net:
  """A network of unknown output, with what it was built and called with."""

  def __init__(self, tag='net'):
    self.built, self.calls, self.tag = [], [], tag

  def factory(self):
    def make(ip, a, kw):
      self.built.append((tuple(a), dict(kw)))
      n = M.as_int(a[0])

      def net(ip_, b, kw_):
        self.calls.append((tuple(b), dict(kw_)))
        x = M.to_arr(b[0])
        return A.field(self.tag, x.shape[:-1] + (n,), None)
      return pyfn(self.tag, net)
    return pyfn('tower_factory', make)

  def once(self, channels, nd):
    need(len(self.built) == 1, f'{len(self.built)} networks are built')
    a, kw = self.built[0]
    got = [M.as_int(kw.get('num_output_channels', a[0] if a else None)),
           M.as_int(kw.get('ndim', a[1] if len(a) > 1 else None))]
    need(got == [channels, nd], f'network of (channels, rank) {got}, expected '
         f'{[channels, nd]}')
    need(len(self.calls) == 1 and len(self.calls[0][0]) == 1,
         f'the network is called {len(self.calls)} times')
    return self.calls[0][0][0]


def grid2(ctx, ns=(3, 2)):
  return World(ctx, len(ns), ns)


def latent(ctx, axis, n, fields, offs):
  w, t = grid2(ctx), 3
  xs, net = trajectories(axis, t), Net()
  k = len(offs) if offs else 2 if fields else 4
  kw = dict(tower_factory=net.factory(), num_latent_dims=k, n_frames=n,
            time_axis=axis)
  if offs:
    kw['data_offsets'] = offs
  name = 'aligned_latent_encoder' if fields else 'latent_encoder'
  f = ctx.call(EN + name, w.grid, DT, base(ctx), **kw)
  r = ctx.ip.call(f, [xs], {})
  x = net.once(k, 2)
  pointwise(x, (3, 2, 2 * n), stack_spec(axis, t, n), 'network input')
  out = A.field('net', (3, 2, k), None)
  if not fields:
    ctx.same(r, out, 'latent state')
    return
  r = ctx.ip.iterate(r)
  need(len(r) == k, f'{len(r)} fields of {k} channels')
  for c, v in enumerate(r):
    is_field(ctx, v, w, (offs or faces(2))[c], w.periodic(), take(out, -1, c),
             f'latent field {c}')


def irfft_of(ctx, x):
  return ev(ctx, 'jnp.fft.irfft2(x)', x=x)


CURL = '''
kx = jnp.fft.fftfreq(n0, h0)[:, np.newaxis]
ky = jnp.fft.rfftfreq(n1, h1)[np.newaxis, :]
uh, vh = jnp.fft.rfft2(u), jnp.fft.rfft2(v)
2j * jnp.pi * (kx * vh - ky * uh)
'''


def nums(w, n):
  return dict(n0=A.dim(n[0]), n1=A.dim(n[1]), h0=w.h[0], h1=w.h[1])


def vorticity(ctx, n, t):
  w = World(ctx, 2, n)
  xs = tuple(frames(w, f'x{k}', t) for k in range(2))
  u, v = (at_t(x, t - 1) for x in xs)
  hat = ev(ctx, CURL, u=u, v=v, **nums(w, n))
  f = ctx.call(EN + 'spectral_vorticity_encoder', w.grid, DT, base(ctx))
  ctx.same(ctx.ip.call(f, [xs], {}), hat, 'vorticity spectrum')
  om = irfft_of(ctx, hat)
  f = ctx.call(EN + 'vorticity_encoder', w.grid, DT, base(ctx))
  ctx.same(ctx.ip.call(f, [xs], {}), ev(ctx, 'w[..., np.newaxis]', w=om),
           'vorticity')
  f = ctx.call(EN + 'vorticity_velocity_encoder', w.grid, DT, base(ctx))
  ctx.same(ctx.ip.call(f, [xs], {}), ev(
      ctx, 'jnp.stack([u, v, w], axis=-1)', u=u, v=v, w=om),
           'velocity and vorticity')


# ------------------------------------------------------------ decoders

def identity(ctx):
  f = ctx.call(DE + 'identity_decoder', None, DT, None)
  x = A.field('x', (3, 2), None)
  for v in (x, (x, 2), {'a': x}):
    ctx.same(ctx.ip.call(f, [v], {}), v, 'state')


def aligned_decode(ctx, nd):
  w = World(ctx, nd)
  per = w.periodic()
  xs = tuple(w.data(f'u{k}') for k in range(nd + 1))
  fs = tuple(w.wrap(x, o, per) for x, o in zip(xs, faces(nd) + (center(nd),)))
  f = ctx.call(DE + 'aligned_array_decoder', w.grid, DT, base(ctx))
  ctx.same(ctx.ip.call(f, [fs], {}), xs, 'decoded data')
  ts = tuple(frames(w, f'x{k}', 2) for k in range(nd))
  e = ctx.ip.call(ctx.ip.call(ctx.anchor('ml.encoders', 'aligned_array_encoder'),
                              [w.grid, DT, base(ctx)], {}), [ts], {})
  ctx.same(ctx.ip.call(f, [e], {}), tuple(at_t(x, 1) for x in ts),
           'decoded encoding')


def collocated(ctx, nd):
  w = World(ctx, nd)
  us = w.velocity()
  f = ctx.call(DE + 'staggered_to_collocated_decoder', w.grid, DT, base(ctx))
  r = ctx.ip.call(f, [us], {})
  need(isinstance(r, tuple) and len(r) == nd, f'{len(r)} components of {nd}')
  for d, v in enumerate(r):
    ctx.same(v, arr_of(linear(ctx, us[d], center(nd))), f'component {d}')


def channels(ctx, k):
  x = A.field('x', (3, 2, k), None)
  f = ctx.call(DE + 'channels_split_decoder', None, DT, None)
  r = ctx.ip.call(f, [x], {})
  need(len(r) == k, f'{len(r)} components of {k} channels')
  for c, v in enumerate(r):
    ctx.same(v, take(x, -1, c), f'channel {c}')


def stack_split(ctx, k):
  xs = tuple(A.field(f'x{c}', (2, 3, 2), None) for c in range(k))
  e = ctx.call(EN + 'stack_last_n_state_encoder', None, DT, None, n=1)
  d = ctx.call(DE + 'channels_split_decoder', None, DT, None)
  r = ctx.ip.call(d, [ctx.ip.call(e, [xs], {})], {})
  ctx.same(tuple(r), tuple(take(x, 0, 1) for x in xs), 'decoded encoding')


def latent_decode(ctx, nd, nc, fields):
  ns = (3, 2, 2)[:nd]
  w, net = World(ctx, nd, ns), Net()
  name = 'aligned_latent_decoder' if fields else 'latent_decoder'
  kw = {} if nc is None else dict(num_components=nc)
  f = ctx.call(DE + name, w.grid, DT, base(ctx), tower_factory=net.factory(),
               **kw)
  z = A.field('z', ns + (3,), None)
  x = z
  if fields:
    x = tuple(w.wrap(take(z, -1, c), center(nd), w.periodic())
              for c in range(3))
  r = ctx.ip.call(f, [x], {})
  k = nc or nd
  got = net.once(k, nd)
  ctx.same(got, z, 'network input')
  need(len(r) == k, f'{len(r)} components of {k}')
  out = A.field('net', ns + (k,), None)
  for c, v in enumerate(r):
    ctx.same(v, take(out, -1, c), f'component {c}')


BIOT = '''
kx = jnp.fft.fftfreq(n0, h0)[:, np.newaxis]
ky = jnp.fft.rfftfreq(n1, h1)[np.newaxis, :]
tp = 2j * jnp.pi
lap = ((tp * kx) ** 2 + (tp * ky) ** 2).at[0, 0].set(1)
psi = -om / lap
vx, vy = tp * ky * psi, -tp * kx * psi
pass
'''


def half(n):
  return A.dim(X.add(X.floor(X.scale(E(n), HALF)), X.ONE))


def velocity(ctx, n):
  w = World(ctx, 2, n)
  om = A.field('om', (n[0], half(n[1])), None, False)
  env = ev(ctx, BIOT, om=om, **nums(w, n))
  f = ctx.call(DE + 'spectral_vorticity_decoder', w.grid, DT, base(ctx))
  r = ctx.ip.call(f, [om], {})
  need(len(r) == 2, f'{len(r)} components of 2')
  for d, s in enumerate(('vx', 'vy')):
    ctx.same(r[d], irfft_of(ctx, env[s]), f'component {d}')
  wz = A.field('wz', n + (1,), None)
  env = ev(ctx, BIOT, om=ev(ctx, 'jnp.fft.rfft2(w[..., 0])', w=wz),
           **nums(w, n))
  f = ctx.call(DE + 'vorticity_decoder', w.grid, DT, base(ctx))
  r = ctx.ip.call(f, [wz], {})
  need(len(r) == 2, f'{len(r)} components of 2')
  for d, s in enumerate(('vx', 'vy')):
    ctx.same(r[d], irfft_of(ctx, env[s]), f'component {d}')


# ------------------------------------------------------------ networks

def spec_of(ctx, w, nd, types):
  """(specs, data offsets, boundary conditions)."""
  if types is None:
    return base(ctx), faces(nd), (w.periodic(),) * nd
  offs = (face(nd, 1), center(nd))
  bcs = []
  for k in range(nd):
    tt = tuple(DIR if t == NEU and offs[k][d] == ONE else t
               for d, t in enumerate(types))
    bcs.append(w.bc(tt))
  return combo_specs(ctx, offs, tuple(bcs)), offs, tuple(bcs)


def split_fields(ctx, nd, types, given):
  w = World(ctx, nd)
  s, offs, bcs = spec_of(ctx, w, nd, types)
  src = offs
  kw = {}
  if given:
    src = (center(nd),) * nd
    kw = dict(network_offsets=src)
  f = ctx.call(NW + 'split_to_aligned_field', w.grid, DT, s, **kw)
  per = tuple(types is None or t == PER for t in (types or (PER,) * nd))
  x = A.field('x', tuple(w.n) + (nd,), per + (False,))
  r = ctx.ip.call(f, [x], {})
  need(len(r) == nd, f'{len(r)} fields of {nd} channels')
  for k, v in enumerate(r):
    want = linear(ctx, w.wrap(take(x, -1, k), src[k], bcs[k]), offs[k])
    is_field(ctx, v, w, offs[k], bc_of(want), arr_of(want), f'field {k}')


def resampled(ctx, nd, types, given, processed):
  w = World(ctx, nd)
  s, offs, bcs = spec_of(ctx, w, nd, types)
  kw, log = {}, []
  dst = offs
  if given:
    dst = tuple(center(nd) for _ in range(nd))
    kw = dict(final_offsets=dst)
  us = tuple(w.var(f'u{k}', (center(nd) if not given else offs[k]), bcs[k])
             for k in range(nd))
  mid = us
  if processed:
    mid = tuple(w.var(f'p{k}', offs[k], bcs[k]) for k in range(nd))

    def proc(ip, a, k):
      log.append((tuple(a), k))
      return mid
    kw['process_fn'] = pyfn('process', proc)
  f = ctx.call(NW + 'interpolate_gridvar', w.grid, DT, s, **kw)
  r = ctx.ip.call(f, [us], {})
  if processed:
    need(len(log) == 1 and log[0][0] == (us,), 'the inputs are not processed')
  need(len(r) == nd, f'{len(r)} fields of {nd}')
  for k, v in enumerate(r):
    want = linear(ctx, mid[k], dst[k])
    is_field(ctx, v, w, dst[k], bc_of(want), arr_of(want), f'field {k}')


def flux_is(ctx, w, nd, r, rd):
  need(len(r) == nd, f'{len(r)} fields of rank {nd}')
  for i, v in enumerate(r):
    need_kind(v, 'GridVariable')
    need_offset(v, face(nd, i))
    ctx.same(bc_of(v), w.periodic(), 'boundary condition')

    def spec(*ix, i=i):
      out = X.ZERO
      for j in range(nd):
        c = i * nd + j
        df = minus(rd(c, *shifted(ix, j, -1)), rd(c, *ix))
        out = plus(out, over(df, w.h[j]))
      return out
    pointwise(v, w.n, spec, f'field {i}')


def flux(ctx, nd):
  w = World(ctx, nd)
  x = A.field('x', tuple(w.n) + (nd * nd,), (True,) * nd + (False,))
  f = ctx.call(NW + 'aligned_field_from_split_divergence', w.grid, DT,
               base(ctx))
  r = ctx.ip.call(f, [x], {})
  per = tuple(E(n) for n in w.n) + (None,)
  flux_is(ctx, w, nd, r, lambda c, *ix: X.rd(
      'x', per, tuple(E(i) for i in ix) + (E(c),), True, False))


def stack_fields(ctx, nd):
  w = World(ctx, nd)
  for k in (1, nd, 4):
    us = tuple(w.var(f'u{c}', center(nd)) for c in range(k))
    f = ctx.call(NW + 'stack_aligned_field', w.grid, DT, base(ctx))
    r = arr_of(ctx.ip.call(f, [us], {}))
    need(tuple(r.shape) == tuple(A.dim(n) for n in w.n) + (k,),
         f'stack of shape {A.fmt_shape(r.shape)}')
    for c in range(k):
      ctx.same(take(r, -1, c), arr_of(us[c]), f'channel {c}')


def neighbours(ctx, nd, n):
  ns = (5, 6, 5)[:nd]
  w = World(ctx, nd, ns)
  us = tuple(w.var(f'u{c}', center(nd)) for c in range(2))
  kw = {} if n is None else dict(n_neighbors=n)
  f = ctx.call(NW + 'stack_aligned_field_with_neighbors', w.grid, DT,
               base(ctx), **kw)
  r = arr_of(ctx.ip.call(f, [us], {}))
  n = n or 1
  want = {(c, None, 0) for c in range(2)} | {
      (c, d, s) for c in range(2) for d in range(nd)
      for s in range(-n, n + 1) if s}
  need(tuple(r.shape) == ns + (len(want),),
       f'stack of shape {A.fmt_shape(r.shape)}, expected {len(want)} channels')
  for q in range(len(want)):
    v = take(r, -1, q)
    hit = None
    for c, d, s in want:
      x = arr_of(us[c])
      y = x if d is None else A.roll(x, s, d)
      if A.at_index(v, (0,) * nd) == A.at_index(y, (0,) * nd):
        hit = c, d, s
        ctx.same(v, y, f'channel {q}')
    need(hit is not None, f'channel {q} is no neighbour still missing')
    want.discard(hit)


def tower_mod(ctx, nd, out):
  ns = (3, 2, 2)[:nd]
  w, net, log = World(ctx, nd, ns), Net(), []
  s = base(ctx)

  def module(tag):
    def build(ip, a, kw):
      log.append((tag, tuple(a), dict(kw)))
      return opaque_fn(tag)
    return pyfn(tag, build)
  kw = dict(tower_factory=net.factory())
  if out:
    kw['num_output_channels'] = out
  x = A.field('x', ns + (4,), None)
  f = ctx.call(NW + 'tower_module', w.grid, DT, s,
               pre_process_module=module('pre'),
               post_process_module=module('post'), **kw)
  r = ctx.ip.call(f, [x], {})
  got = net.once(out or 4, nd)
  ctx.same(got, A.unary(lambda e: X.apply_op('user_pre', (e,)), x),
           'network input')
  ctx.same(r, A.unary(lambda e: X.apply_op('user_post', (e,)), A.field(
      'net', ns + (out or 4,), None)), 'output')
  need(sorted(e[0] for e in log) == ['post', 'pre'], f'modules {log}')
  for tag, a, k in log:
    args = dict(zip(('grid', 'dt', 'physics_specs'), a), **k)
    ctx.same(args.get('grid'), w.grid, f'grid of {tag}')
    ctx.same(args.get('dt'), DT, f'time step of {tag}')
    ctx.same(args.get('physics_specs'), s, f'specification of {tag}')
  net = Net()
  f = ctx.call(NW + 'tower_module', w.grid, DT, s,
               tower_factory=net.factory(), **(
                   {'num_output_channels': out} if out else {}))
  ctx.same(ctx.ip.call(f, [x], {}), A.field('net', ns + (out or 4,), None),
           'output without processing')
  ctx.same(net.once(out or 4, nd), x, 'unprocessed network input')


def stacked_input(ctx, us, x):
  for c, u in enumerate(us):
    ctx.same(take(x, -1, c), arr_of(u), f'network input, channel {c}')


def corrector(ctx, nd):
  w, net = World(ctx, nd), Net()
  us = w.velocity()
  f = ctx.call(NW + 'velocity_corrector_network', w.grid, DT, base(ctx),
               tower_factory=net.factory())
  r = ctx.ip.call(f, [us], {})
  stacked_input(ctx, us, net.once(nd, nd))
  out = A.field('net', tuple(A.dim(n) for n in w.n) + (nd,), None)
  need(len(r) == nd, f'{len(r)} fields of {nd}')
  for k, v in enumerate(r):
    is_field(ctx, v, w, face(nd, k), w.periodic(), take(out, -1, k),
             f'correction {k}')


def flux_corrector(ctx, nd):
  w, net = World(ctx, nd), Net()
  us = w.velocity()
  made = []

  def make(ip, a, kw):
    made.append((tuple(a), dict(kw)))
    n = M.as_int(a[0])

    def call(ip_, b, kw_):
      net.calls.append((tuple(b), dict(kw_)))
      x = M.to_arr(b[0])
      return A.field('net', x.shape[:-1] + (n,), (True,) * nd + (False,))
    return pyfn('net', call)
  f = ctx.call(NW + 'flux_corrector_network', w.grid, DT, base(ctx),
               tower_factory=pyfn('tower_factory', make))
  r = ctx.ip.call(f, [us], {})
  net.built = made
  stacked_input(ctx, us, net.once(nd * nd, nd))
  per = tuple(E(n) for n in w.n) + (None,)
  flux_is(ctx, w, nd, r, lambda c, *ix: X.rd(
      'net', per, tuple(E(i) for i in ix) + (E(c),), True, False))


def bounded(ctx, types, processed):
  """Fields are moved to the network, and its output back to the data."""
  w = World(ctx, 2)
  s, offs, bcs = spec_of(ctx, w, 2, types)
  us = tuple(w.var(f'u{k}', offs[k], bcs[k]) for k in range(2))
  mid = us
  cen = (center(2),) * 2
  kw, log, seen = {}, [], []
  if processed:
    mid = tuple(w.var(f'p{k}', offs[k], bcs[k]) for k in range(2))

    def proc(ip, a, k):
      log.append((tuple(a), k))
      return mid
    kw['process_fn'] = pyfn('process', proc)
  out = tuple(w.var(f'o{k}', cen[k], bcs[k]) for k in range(2))

  def factory(ip, a, kw_):
    seen.append(('built', [M.as_int(x) for x in a]))

    def net(ip_, b, k):
      seen.append(('call', b[0]))
      return out
    return pyfn('net', net)
  f = ctx.call(NW + 'velocity_corrector_network_w_boundaries', w.grid, DT, s,
               pyfn('tower_factory', factory), cen, 3, **kw)
  r = ctx.ip.call(f, [us], {})
  if processed:
    need(len(log) == 1 and log[0][0] == (us,), 'the inputs are not processed')
  need([e[0] for e in seen] == ['built', 'call'], 'one network is used once')
  need(seen[0][1] == [3, 2], f'network of (channels, rank) {seen[0][1]}')
  for k, v in enumerate(ctx.ip.iterate(seen[1][1])):
    want = linear(ctx, mid[k], cen[k])
    is_field(ctx, v, w, cen[k], bc_of(want), arr_of(want), f'input {k}')
  need(len(r) == 2, f'{len(r)} fields of 2')
  for k, v in enumerate(r):
    want = linear(ctx, out[k], offs[k])
    is_field(ctx, v, w, offs[k], bc_of(want), arr_of(want), f'correction {k}')
