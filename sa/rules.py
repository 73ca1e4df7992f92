"""Rule framework: obligations, findings, evidence."""
from fractions import Fraction
import json
import os
import time
import traceback

import numpy as np

from . import arr as A
from . import expr as X
from . import interp as IN
from . import models as M
from .arr import Arr
from .expr import Expr, Undecided
from .interp import AnalysisError, ClassV, Func, Inst, PyRaise

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violated(Exception):
  """Raised by a rule body when the analysed code contradicts the rule."""

  def __init__(self, msg, construct=None):
    super().__init__(msg)
    self.msg = msg
    self.construct = construct


class Site:
  """A construct of the analysed source that is reported."""

  def __init__(self, qual, where):
    self.qual, self.where = qual, where


class Ctx:

  def __init__(self, pid, tier='quick'):
    self.pid = pid
    self.tier = tier
    self.obs = []
    self.findings = []
    self.undecided = []
    self.funcs = {}
    self.callsites = set()
    self.nstmts = 0
    self.joins = 0
    self.unmodelled = {}
    self.assumptions = []
    self._interp = None
    self.anchor_ = None
    self.called = False
    self.t0 = time.time()

  # ------------------------------------------------------------ interpreters

  def fresh(self, overrides=None):
    self.collect()
    self._interp = IN.Interp(overrides=overrides)
    return self._interp

  @property
  def ip(self):
    if self._interp is None:
      self._interp = IN.Interp()
    return self._interp

  def collect(self):
    ip = self._interp
    if ip is None:
      return
    self.funcs.update(ip.funcs_analysed)
    self.callsites |= ip.callsites
    self.nstmts += ip.nstmts
    self.joins += ip.joins
    for k, v in ip.unmodelled.items():
      self.unmodelled[k] = self.unmodelled.get(k, 0) + v
    ip.nstmts = ip.joins = 0

  # ------------------------------------------------------------ anchors

  def anchor(self, mod, attr):
    v = self.ip.get('jax_cfd.' + mod, attr)
    # building a grid or a field does not move the reported construct away from
    # a function this obligation already called
    if not (isinstance(v, ClassV) and mod in ('base.grids', 'base.boundaries')
            and self.called and isinstance(self.anchor_, Func)):
      self.anchor_ = v
    self.called = True
    return v

  def call(self, f, *args, **kwargs):
    """Calls an anchor ('mod:attr') or a function value."""
    if isinstance(f, str):
      mod, attr = f.split(':')
      f = self.anchor(mod, attr)
    return self.ip.call(f, list(args), kwargs)

  def make(self, f, *args, **kwargs):
    """call() for building inputs: leaves the reported construct alone."""
    old = self.anchor_
    try:
      return self.call(f, *args, **kwargs)
    finally:
      if old is not None:
        self.anchor_ = old

  def loc(self):
    v = self.anchor_
    if isinstance(v, Site):
      return v.qual, v.where
    while not isinstance(v, (Func, ClassV)) and v is not None:
      v = getattr(v, 'func', None) or getattr(v, 'fget', None)
    if isinstance(v, Func):
      return v.qual, v.loc()
    if isinstance(v, ClassV):
      return v.qual, f'{IN.relpath(v.mod.path)}:{v.node.lineno}'
    return '?', '?'

  # ------------------------------------------------------------ obligations

  def ob(self, rule, instance, fn, *args):
    """Discharges one obligation; fn raises Violated / returns a description."""
    if not hasattr(self, 'only') or self.only is None or self.only in rule:
      pass
    else:
      return
    um = dict(self.ip.unmodelled)
    self.called = False
    rec = {'rule': rule, 'instance': instance}
    t0 = time.time()
    try:
      r = fn(*args)
      status = 'ok'
      if r:
        self._finding(rec, str(r), None, um)
        status = 'violated'
    except Violated as e:
      self._finding(rec, e.msg, e.construct, um)
      status = 'violated'
    except AnalysisError as e:
      self.undecided.append((rule, instance, f'anchor: {e}'))
      status = 'undecided'
    except Undecided as e:
      self.undecided.append((rule, instance, str(e)))
      status = 'undecided'
    except PyRaise as e:
      where = e.where
      w = f'{IN.relpath(where[0])}:{where[1]}' if where else None
      args_ = getattr(e.value, 'args', ()) or getattr(
          e.value, 'attrs', {}).get('args', ())
      self._finding(rec, f'raises {e.clsname()}{tuple(map(str, args_))} '
                    f'at {w}', None, um)
      status = 'violated'
    except (A.ShapeError, RecursionError) as e:
      self.undecided.append((rule, instance, f'{type(e).__name__}: {e}'))
      status = 'undecided'
    except Exception as e:  # an analyser defect is never a verdict
      tb = traceback.extract_tb(e.__traceback__)[-1]
      self.undecided.append((rule, instance, f'internal {type(e).__name__}: '
                             f'{e} ({os.path.basename(tb.filename)}:{tb.lineno})'))
      if os.environ.get('SA_DEBUG'):
        traceback.print_exc()
      status = 'undecided'
    rec['status'] = status
    rec['construct'], rec['where'] = self.loc()
    rec['t'] = round(time.time() - t0, 3)
    self.obs.append(rec)

  def _finding(self, rec, msg, construct, um):
    new = {k for k in self.ip.unmodelled if self.ip.unmodelled[k] !=
           um.get(k, 0)} - getattr(self, 'allow_unmodelled', set())
    if new:
      self.undecided.append((rec['rule'], rec['instance'],
                             f'library call without a model: {sorted(new)}; '
                             f'otherwise: {msg}'))
      return
    q, w = self.loc()
    self.findings.append({
        'rule': rec['rule'], 'instance': rec['instance'],
        'construct': construct or q, 'where': w, 'detail': msg[:1500]})

  # ------------------------------------------------------------ comparisons

  def same(self, got, want, what='value'):
    """Structural equality of abstract values; raises Violated."""
    d = diff(got, want)
    if d:
      raise Violated(f'{what}: {d}')

  def raises(self, names, fn, *args):
    """The call must raise one of the named exceptions."""
    if isinstance(names, str):
      names = (names,)
    try:
      r = fn(*args)
    except PyRaise as e:
      if names and e.clsname() not in names:
        base = getattr(e.value, 'cls', None)
        mro = [getattr(c, 'name', '') for c in base.mro()] if base else []
        if not any(n in mro for n in names):
          raise Violated(f'raises {e.clsname()}, expected {names}')
      return None
    except A.ShapeError:
      return None
    raise Violated(f'accepted (returned {short(r)}), expected {names}')


def short(v):
  s = repr(v)
  return s if len(s) < 160 else s[:157] + '...'


def diff(got, want):
  """None when equal, else a description."""
  if isinstance(want, Inst):
    if not isinstance(got, Inst) or got.cls is not want.cls:
      return f'expected an instance of {want.cls.name}, got {short(got)}'
    for k, v in want.attrs.items():
      d = diff(got.attrs.get(k), v)
      if d:
        return f'.{k}: {d}'
    return None
  if isinstance(want, (tuple, list)):
    if not isinstance(got, (tuple, list)):
      if isinstance(got, (Arr, np.ndarray)):
        got = list(M.iterate(None, got))
      elif isinstance(got, Inst) and '__tuple__' in got.attrs:
        got = got.attrs['__tuple__']
      else:
        return f'expected a sequence, got {short(got)}'
    if len(got) != len(want):
      return f'expected {len(want)} elements, got {len(got)}'
    for i, (g, w) in enumerate(zip(got, want)):
      d = diff(g, w)
      if d:
        return f'[{i}]: {d}'
    return None
  if isinstance(want, dict):
    if not isinstance(got, dict) or set(got) != set(want):
      return f'expected keys {sorted(map(str, want))}, got {short(got)}'
    for k in want:
      d = diff(got[k], want[k])
      if d:
        return f'[{k!r}]: {d}'
    return None
  if isinstance(want, np.ndarray):
    if not isinstance(got, np.ndarray) or got.shape != want.shape:
      return f'expected an object array {want.shape}, got {short(got)}'
    return diff(list(got.ravel()), list(want.ravel()))
  if isinstance(want, (Arr, Expr, int, Fraction)) and not isinstance(want, bool):
    if isinstance(got, bool) or isinstance(got, (Arr, Expr, int, Fraction)):
      if isinstance(got, Arr) and isinstance(want, Arr) or isinstance(
          got, Arr) or isinstance(want, Arr):
        g, w = M.to_arr(got), M.to_arr(want)
        if g.shape is None and w.shape is None:
          return None if X.equal(g.scalar(), w.scalar()) else (
              f'got {X.show(g.scalar())}, expected {X.show(w.scalar())}')
        if g.shape is None and w.shape == ():
          return None if X.equal(g.scalar(), w.scalar()) else (
              f'got {X.show(g.scalar())}, expected {X.show(w.scalar())}')
        if g.shape is None or w.shape is None:
          return f'got {short(got)}, expected {short(want)}'
        return A.difference(g, w)
      g, w = X.lift(got), X.lift(want)
      return None if X.equal(g, w) else (
          f'got {X.show(g)}, expected {X.show(w)}')
    return f'got {short(got)}, expected {short(want)}'
  if got is want:
    return None
  try:
    if got == want:
      return None
  except PyRaise:
    pass
  return f'got {short(got)}, expected {short(want)}'


# ---------------------------------------------------------------- runner

def load_known():
  """Open findings: lines `known: {json}`; `fixed:` lines suppress nothing."""
  p = os.path.join(VERIF, 'known_findings.txt')
  out = []
  if os.path.exists(p):
    with open(p) as f:
      for line in f:
        if line.startswith('known: '):
          out.append(json.loads(line[7:]))
  return out


def finish(ctx, explanation, argv):
  ctx.collect()
  known = [k for k in load_known() if k['property'] == ctx.pid]
  new, old = [], []
  for f in ctx.findings:
    k = [k for k in known if k['rule'] == f['rule']
         and k['construct'] == f['construct']
         and k['instance'] == f['instance']]
    (old if k else new).append(f)
  n_ok = sum(1 for o in ctx.obs if o['status'] == 'ok')
  cov = {
      'explanation': explanation,
      'obligations': len(ctx.obs),
      'discharged': n_ok,
      'undecided': len(ctx.undecided),
      'rules': sorted({o['rule'] for o in ctx.obs}),
      'functions_analysed': len(ctx.funcs),
      'functions': dict(sorted(ctx.funcs.items())),
      'call_sites': len(ctx.callsites),
      'statements_interpreted': ctx.nstmts,
      'distinct_statements': len(IN.VISITED),
      'joins': ctx.joins,
      'samples': [
          {k: o[k] for k in ('rule', 'instance', 'construct', 'where',
                             'status')} for o in ctx.obs[:40]],
      'library_calls_without_model': ctx.unmodelled,
  }
  ev = {
      'property': ctx.pid, 'tier': ctx.tier,
      'seed': int(os.environ.get('VERIF_SEED', '0') or 0),
      'level': 'other', 'coverage': cov,
      'assumptions': ctx.assumptions,
      'wall_s': round(time.time() - ctx.t0, 2),
      'violations': len(new),
  }
  if not os.environ.get('SA_NOEV'):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', ctx.pid + '.json'), 'w') as f:
      json.dump(ev, f, indent=1, default=str)
  if os.environ.get('SA_COV'):
    with open(os.path.join(os.environ['SA_COV'], ctx.pid), 'w') as f:
      json.dump(sorted(IN.VISITED), f)
  for f in old:
    print(f'KNOWN-FINDING: property={ctx.pid} {f["construct"]} '
          f'[{f["rule"]}] {f["instance"]}')
  if new:
    os.makedirs(os.path.join(VERIF, 'out'), exist_ok=True)
    rp = os.path.join(VERIF, 'out', ctx.pid + '.json')
    with open(rp, 'w') as f:
      json.dump({'property': ctx.pid, 'findings': new,
                 'rerun': f'python3-vt check.py {ctx.pid}'}, f, indent=1,
                default=str)
    for f in new[:10]:
      print(f'{f["where"]}: {f["construct"]}: rule {f["rule"]} '
            f'({f["instance"]}): {f["detail"]}')
    for u in ctx.undecided[:8]:
      print('note: undecided:', *u)
    print(f'VIOLATION property={ctx.pid} replay={rp}')
    return 1
  if ctx.undecided or not ctx.obs:
    for u in ctx.undecided[:20]:
      print('UNDECIDED', *u)
    print(f'{ctx.pid}: {len(ctx.undecided)} undecided of {len(ctx.obs)}')
    return 2
  print(f'{ctx.pid}: {n_ok} obligations discharged, '
        f'{len(ctx.funcs)} functions, {len(ctx.callsites)} call sites, '
        f'{ev["wall_s"]} s')
  return 0
