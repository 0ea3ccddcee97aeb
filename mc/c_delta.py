"""Delta operations on variables and fields: amount, direction, bounds."""
import itertools
import math

import numpy as np

from mc.core import Space, check
from mc import table as T
from mc.rng import Scripted
from mc.c_var import UFUNS, set_ufun, vset_of

PROPERTY = 'P10'
ASSUMPTIONS = ['random draws are answered by every script of a finite set',
               'displacements agree to 1e-9 in transformed coordinates']

US = (0., 0.125, 0.25, 0.49, 0.51, 0.75, 0.875, 1. - 2 ** -30)


def spec_of(kind, d):
  return {'fixed': d, 'list': [d], 'tuple': (d,)}[kind]


def bounded(v, moved, lo, hi, o0, o1):
  """Where a value v displaced to `moved` ends up when bounded."""
  if o0 and moved <= lo or o1 and moved >= hi:
    return v
  return min(hi, max(lo, moved))


def same(a, b):
  return T.close(float(a), float(b), 1e-9, 1e-9)


def check_amounts(kind, d, amounts, what):
  """Permitted amounts over all scripts of one draw."""
  mags = [abs(a) for a in amounts]
  if kind == 'fixed':
    check(all(T.close(a, d, 1e-8, 1e-9) for a in amounts), '{}: fixed delta moves by {}', what, amounts)
  elif kind == 'tuple':
    check(all(T.close(m, abs(d), 1e-8, 1e-9) for m in mags), '{}: tuple delta moves by {}', what, amounts)
    if d:
      check({a > 0 for a in amounts} == {True, False}, '{}: polarity never varies: {}', what, amounts)
  else:
    check(all(m <= abs(d) * (1 + 1e-8) + 1e-9 for m in mags), '{}: list delta moves by {}', what, amounts)
    want = sorted(abs(d) * abs(2 * u - 1) for u in US)
    check(all(T.close(a, b, 1e-6, 1e-7) for a, b in zip(sorted(mags), want)),
          '{}: list delta is not uniform: {} and not {}', what, sorted(mags), want)
    if d:
      check({a > 0 for a in amounts} == {True, False}, '{}: direction never varies: {}', what, amounts)


def run_float(root, ctx):
  import probayes as pb
  lo, hi, o0, o1, uname, kind, d, scale, bound, how = root
  fwd, inv = UFUNS[uname]
  u0, u1 = fwd(lo), fwd(hi)
  var = pb.Variable('x', vtype=float, vset=vset_of(lo, hi, o0, o1, 'list'))
  if uname is not None:
    set_ufun(var, uname)
  spec = spec_of(kind, d)
  eff = d
  kw, dflt = {}, {}
  if how == 'default':
    dflt = {k: v for k, v in (('scale', scale), ('bound', bound)) if v is not None}
    var.set_delta(spec, **dflt)
    eff = d * abs(u1 - u0) if scale else d
    isbound = bool(bound)
    arg = ()
  elif how == 'override':  # the default is something else
    var.set_delta([.5], scale=True, bound=not bound)
    kw = {'bound': bool(bound)}
    isbound = bool(bound)
    arg = (spec,)
  elif how == 'inherit':   # explicit delta, the bounding of the default
    var.set_delta(.125, scale=True, bound=bool(bound))
    isbound = bool(bound)
    arg = (spec,)
  else:                    # nothing was set
    kw = {} if bound is None else {'bound': bound}
    isbound = bool(bound)
    arg = (spec,)
  what = 'limits {} open {} ufun {} delta {!r} {} {}'.format((lo, hi), (o0, o1), uname, spec, how, dflt or kw)
  pts = [lo + (hi - lo) * f for f in (0.01, .1, .3, .5, .7, .9, .99)]
  if not o0:
    pts.append(lo)
  if not o1:
    pts.append(hi)
  amounts = []
  for u in US:
    # amount, from unbounded moves (same script, hence the same draw)
    with Scripted([u]):
      ev = var.eval_delta(*arg)
    check(isinstance(ev, var.Delta) and len(ev) == 1, '{}: delta evaluates to {!r}', what, ev)
    a = float(ev[0])
    amounts.append(a)
    ctx.step()
    arr = np.array(pts)
    keep = arr.copy()
    # arrays: one offset for all
    for given, n in ((arr, len(pts)), ({'x': arr}, len(pts))):
      for use in ('direct', 'evaluated'):
        with Scripted([u]):
          if use == 'direct':
            out = var.apply_delta(given, *(arg or (None,)), **kw)
          else:
            out = var.apply_delta(given, ev, **kw)
        ctx.step()
        check(np.array_equal(arr, keep), '{}: values were modified', what)
        check(out is not arr, '{}: output aliases input', what)
        for v, r in zip(pts, np.ravel(out)):
          moved = _inv(inv, uname, fwd(v) + a)
          if moved is None:
            continue
          w = bounded(v, moved, lo, hi, o0, o1) if isbound else moved
          if isbound and _edge(moved, lo, hi, o0, o1):
            continue
          check(same(r, w), '{}: {} displaced by {} to {} and not {}', what, v, a, r, w)
          if isbound:
            check(lo - 1e-9 <= r <= hi + 1e-9, '{}: {} outside', what, r)
          ctx.state()
          ctx.outcome((round(float(r), 6)))
    # scalars
    for v in pts:
      with Scripted([u]):
        r = var.apply_delta(v, *(arg or (None,)), **kw)
      ctx.step()
      check(np.ndim(r) == 0, '{}: scalar became {}', what, r)
      moved = _inv(inv, uname, fwd(v) + a)
      if moved is None or isbound and _edge(moved, lo, hi, o0, o1):
        continue
      w = bounded(v, moved, lo, hi, o0, o1) if isbound else moved
      check(same(r, w), '{}: scalar {} displaced by {} to {} and not {}', what, v, a, r, w)
      ctx.state()
  check_amounts(kind, eff, amounts, what)
  ctx.trace()
  ctx.sample(what)


def run_landing(root, ctx):
  """Exact arithmetic: displacements that land precisely on the limits."""
  import probayes as pb
  lo, hi, o0, o1, uname, scale, how = root
  n = 8
  unit = (hi - lo) / n
  sign = -1. if uname == 'neg' else 1.
  pts = [lo + unit * i for i in range(n + 1)]
  pts = pts[o0:n + 1 - o1]
  for i, kind in itertools.product(range(-n - 1, n + 2), ('fixed', 'list', 'tuple')):
    if kind != 'fixed' and i <= 0:
      continue
    var = pb.Variable('x', vtype=float, vset=vset_of(lo, hi, o0, o1, 'list'))
    if uname is not None:
      set_ufun(var, uname)
    d = i / n if scale else i * unit
    spec = spec_of(kind, d)
    arg, kw = (spec,), {'bound': True}
    if how == 'default':
      var.set_delta(spec, scale=scale, bound=True)
      arg, kw = (None,), {}
    what = 'limits {} open {} ufun {} delta {!r} {}'.format((lo, hi), (o0, o1), uname, spec, how)
    for u in ((0.,) if kind == 'fixed' else (0., .75)):   # draws for which offsets are exact
      with Scripted([u]):
        a = float(var.eval_delta(*arg[:1] if arg[0] is not None else ())[0])
      ctx.step()
      want = [bounded(v, v + sign * a, lo, hi, o0, o1) for v in pts]
      arr = np.array(pts)
      for given in (arr, {'x': arr}, arr.reshape(1, -1)):
        with Scripted([u]):
          out = np.ravel(var.apply_delta(given, *arg, **kw))
        ctx.step()
        check(np.array_equal(out, want), '{}: {} displaced by {} to {} and not {}', what, pts, a, out, want)
        ctx.state()
        ctx.outcome(tuple(want))
      for v, w in zip(pts, want):
        with Scripted([u]):
          r = var.apply_delta(v, *arg, **kw)
        ctx.step()
        check(np.ndim(r) == 0 and r == w, '{}: scalar {} displaced by {} to {} and not {}', what, v, a, r, w)
  ctx.trace()


def _edge(moved, lo, hi, o0, o1):
  """Rounding decides whether a move lands exactly on an open limit."""
  return o0 and abs(moved - lo) < 1e-9 or o1 and abs(moved - hi) < 1e-9


def _inv(inv, uname, t):
  try:
    return inv(t)
  except OverflowError:
    return None


def run_int(root, ctx):
  import probayes as pb
  lo, hi, kind, d, scale, bound = root
  var = pb.Variable('k', vtype=int, vset=list(range(lo, hi + 1)))
  spec = spec_of(kind, d)
  var.set_delta(spec, scale=scale, bound=bound)
  eff = d * (hi - lo + 1) if scale else d
  what = 'integers {}..{} delta {!r} scale {} bound {}'.format(lo, hi, spec, scale, bound)
  pts = np.arange(lo, hi + 1)
  amounts = []
  n = 4 * (2 * abs(d) + 1)
  for k in range(n):
    with Scripted([(k + .5) / n]):
      a = int(var.eval_delta()[0])
    with Scripted([(k + .5) / n]):
      out = var.apply_delta(pts)
    want = [min(hi, max(lo, int(v) + a)) if bound else int(v) + a for v in pts]
    check([int(v) for v in out] == want and out.dtype.kind == 'i', '{}: {} displaced by {} to {}', what, pts, a, out)
    with Scripted([(k + .5) / n]):
      out = [var.apply_delta(int(v)) for v in pts[:1]] 
    check(int(out[0]) == want[0], '{}: scalar displaced to {}', what, out)
    amounts.append(a)
    ctx.step(3)
    ctx.state(len(pts))
    ctx.outcome(a)
  if kind == 'fixed':
    check(set(amounts) == {eff}, '{}: amounts {}', what, set(amounts))
  elif kind == 'tuple':
    check(set(amounts) == {eff, -eff}, '{}: amounts {}', what, set(amounts))
  else:
    step = eff // d if d else 1
    check(set(amounts) == {i * step for i in range(-d, d + 1)}, '{}: amounts {}', what, set(amounts))
  ctx.trace()


def run_bool(root, ctx):
  import probayes as pb
  kind, d, vals, how = root
  var = pb.Variable('b', vtype=bool)
  arr = np.array(vals)
  keep = arr.copy()
  if kind == 'fixed':
    arg = ()
    if how == 'default':
      var.set_delta(d)
      arg = ()
    else:
      arg = (d,)
    out = var.apply_delta(arr, *arg)
    want = [bool((int(v) + int(d)) % 2) for v in vals]
    check([bool(v) for v in out] == want and out.dtype == bool, 'delta {} on {} gives {}', d, vals, out)
    for v, w in zip(vals, want):
      check(bool(var.apply_delta(v, *arg)) == w, 'delta {} on {} is not {}', d, v, w)
      ctx.step()
  else:
    if how == 'default':
      var.set_delta([d])
      arg = ()
    else:
      arg = ([d],)
    for us in itertools.product((.05, .45, .95), repeat=len(vals)):
      with Scripted(us):
        out = var.apply_delta(arr, *arg)
      want = [(not v) if u < d else v for v, u in zip(vals, us)]
      check([bool(v) for v in out] == want, 'delta [{}] on {} with draws {} gives {}', d, vals, us, out)
      with Scripted(us):
        one = [bool(var.apply_delta(v, *arg)) for v in vals]
      check(one == want, 'delta [{}] on each of {} with draws {} gives {}', d, vals, us, one)
      with Scripted(us):
        de = var.eval_delta(*arg)
        out = var.apply_delta(arr, de)
      check([bool(v) for v in out] == want, 'delta {} on {} with draws {} gives {}', de, vals, us, out)
      ctx.state()
      ctx.step()
  check(np.array_equal(arr, keep), 'values modified')
  ctx.outcome(repr(root))
  ctx.trace()


def run_flips(root, ctx):
  """Booleans (and others among them) displaced within fields and by samplers."""
  import probayes as pb
  holder, form, ds, scalar = root
  names = ['a', 'b', 'c'][:len(ds)]
  real = form == 'mixed'
  rvs = [pb.RV(n, vtype=bool) for n in names]
  if real:
    rvs[-1] = pb.RV(names[-1], vtype=float, vset=[-10., 10.])
  rf = pb.RF(*rvs) if holder == 'field' else pb.SP(pb.RF(*rvs))
  what = 'flips by {}'.format(root)
  arg = lambda d: d[0] if isinstance(d, tuple) else [d]   # fixed if within a tuple
  if form == 'same':
    rf.set_delta(arg(ds[0]))
    ds = ds[:1] * len(ds)
  elif form in ('dict', 'mixed'):
    rf.set_delta({n: arg(d) for n, d in zip(names, ds)})
  else:
    for rv, d in zip(rvs, ds):
      rv.set_delta(arg(d))
    rf.set_delta(rf.Delta(*[arg(d) for d in ds]))
  vals = {n: (True if i % 2 else False) for i, n in enumerate(names)}
  if real:
    vals[names[-1]] = .5
  arrs = {n: v if scalar else np.array([v, v if real and n == names[-1] else not v]) for n, v in vals.items()}
  drawn = [n for n, d in zip(names, ds) if not isinstance(d, tuple)]
  for us in itertools.product((.05, .45, .95), repeat=len(drawn)):
    # a displacement of a real is drawn before any flips
    order = ([n for n in drawn if n == names[-1] and real]) + [n for n in drawn if not (n == names[-1] and real)]
    script = [u for n in order for u in [us[drawn.index(n)]] * (1 if scalar or n == names[-1] and real else 2)]
    with Scripted(script):
      out = rf.apply_delta(dict(arrs), rf.eval_delta())
    for n, d in zip(names, ds):
      if real and n == names[-1]:
        want = .5 + (d[0] if isinstance(d, tuple) else (2. * us[drawn.index(n)] - 1.) * d)
        check(np.allclose(out[n], want), '{} with draws {}: {} becomes {} and not {}', what, us, n, out[n], want)
        continue
      flip = bool(d[0]) if isinstance(d, tuple) else us[drawn.index(n)] < d
      want = np.logical_not(arrs[n]) if flip else np.asarray(arrs[n])
      check(np.shape(out[n]) == np.shape(want) and np.array_equal(np.asarray(out[n], dtype=bool), want), '{} with draws {}: {} becomes {} and not {}',
            what, us, n, out[n], want)
    ctx.state()
    ctx.step()
  if scalar and not real:
    rf.set_prob(lambda **v: .5, pscale=1.)
    rf.set_tran(lambda **v: .5)
    for us in itertools.product((.05, .45, .95), repeat=len(drawn)):
      with Scripted(us):
        succ = rf.step(dict(vals), None)
      for n, d in zip(names, ds):
        flip = bool(d[0]) if isinstance(d, tuple) else us[drawn.index(n)] < d
        check(bool(succ[n + "'"]) == (vals[n] != flip), '{} with draws {}: {} steps to {}', what, us, n, succ[n + "'"])
      ctx.state()
      ctx.step()
  ctx.outcome(root)
  ctx.trace()


CALLS = {
    'double': (lambda v: 2. * v, (), {}, lambda v: 2. * v),
    'shift': (lambda v, k=1.: v + k, (), {'k': -.75}, lambda v: v - .75),
    'bound': (lambda a, v: v - a, (.625,), {}, lambda v: v - .625),
    'mirror': (lambda v: 3. - v, (), {}, lambda v: 3. - v),
}


def run_calls(root, ctx):
  """Variables displaced by callables, alone and within fields, bounded or not."""
  import probayes as pb
  holder, name, o0, o1, kws, over = root
  fun, args, kwds, true = CALLS[name]
  lo, hi = .5, 3.
  kws = dict(kws)
  var = pb.RV('x', vtype=float, vset=vset_of(lo, hi, o0, o1, 'list'))
  y = pb.RV('y', vtype=float, vset=[0., 1.])
  what = 'displaced by callable {}'.format(root)
  if holder == 'variable':
    var.set_delta(fun, *args, **kwds, **kws)
    move = lambda v: var.apply_delta(v) if over is None else var.apply_delta(v, bound=over)
  else:
    rf = {'field': pb.RF, 'process': lambda *a: pb.SP(pb.RF(*a))}[holder](*((var, y) if o0 else (y, var)))
    rf.set_delta({'x': fun, 'y': .25}, **kws)
    move = lambda v: rf.apply_delta({'x': v, 'y': .5})['x']
  isbound = bool(kws.get('bound')) if over is None else over
  pts = [.6, 1., 1.3, 1.9, 2.4, 2.9]
  keep = np.array(pts)
  arr = keep.copy()
  for got in (move(arr), [move(v) for v in pts]):
    for v, r in zip(pts, got):
      moved = true(v)
      w = bounded(v, moved, lo, hi, o0, o1) if isbound else moved
      if isbound and _edge(moved, lo, hi, o0, o1):
        continue
      check(same(float(r), w), '{}: {} becomes {} and not {}', what, v, r, w)
      ctx.state()
    ctx.step()
  check(np.array_equal(arr, keep), '{}: values were modified', what)
  if holder != 'variable':
    out = rf.apply_delta({'x': 1., 'y': .9})['y']
    w = min(1., 1.15) if isbound else 1.15
    check(same(float(out), w), '{}: y becomes {} and not {}', what, out, w)
    rf.set_prob(lambda **v: .5, pscale=1.)
    rf.set_tran(lambda **v: .5)
    got = rf.step({'x': 1.3, 'y': .5}, None)
    w = bounded(1.3, true(1.3), lo, hi, o0, o1) if isbound else true(1.3)
    check(same(float(got["x'"]), w) and same(float(got["y'"]), .75), '{}: steps to {}', what, dict(got))
  ctx.outcome(root)
  ctx.trace()


SETS = {
    'none': (None, {}), 'fixed': (.25, {}), 'fixed-b': (.25, {'bound': True}), 'neg-s': (-.25, {'scale': True}),
    'list-sb': ([.75], {'scale': True, 'bound': True}), 'tuple-b': ((.5,), {'bound': True}),
    'tuple-s': ((.5,), {'scale': True}), 'call': ('double', {}),
}


def run_history(root, ctx):
  """set_delta sequences, values walked in between: the last setting decides,
  and bounded walks stay inside."""
  import probayes as pb
  ops, o0, o1, uname = root
  lo, hi = 1., 3.
  fwd, inv = UFUNS[uname]
  var = pb.Variable('x', vtype=float, vset=vset_of(lo, hi, o0, o1, 'list'))
  if uname:
    set_ufun(var, uname)
  length = abs(fwd(hi) - fwd(lo))
  cur = None
  x = np.array([1.25, 2., 2.9])
  for i, op in enumerate(ops):
    if op == 'step':
      spec, kw = SETS[cur] if cur else (None, {})
      for u in (0.1, .6, .95):
        before = x.copy()
        with Scripted([u]):
          out = var.apply_delta(x)
        ctx.step()
        if spec is None:
          want = [[v] for v in x]
        elif spec == 'double':
          want = [[2 * v] for v in x]
        else:
          d = spec[0] if isinstance(spec, (list, tuple)) else spec
          d = d * length if kw.get('scale') else d
          am = [d] if not isinstance(spec, (list, tuple)) else [d, -d] if isinstance(spec, tuple) else \
              [d * (2 * u - 1), d * (1 - 2 * u)]
          want = []
          for v in x:
            ws = []
            for a in am:
              m = inv(fwd(v) + a) if uname != 'log' or v > 0 else float('nan')
              ws.append(bounded(v, m, lo, hi, o0, o1) if kw.get('bound') else m)
            want.append(ws)
        for r, ws, v in zip(out, want, x):
          check(any(same(r, w) for w in ws), 'after {} (step from {}): {} and not one of {}',
                ops[:i + 1], v, r, ws)
          ctx.state()
        check(np.array_equal(before, x), 'values modified')
        if kw.get('bound'):
          x = np.array([float(v) for v in out])
          check(all(lo <= v <= hi for v in x), 'bounded walk left the interval: {}', x)
        ctx.outcome(repr([round(float(v), 6) for v in out]))
    else:
      spec, kw = SETS[op]
      var.set_delta((lambda z: 2 * z) if spec == 'double' else spec, **kw)
      cur = op
      x = np.array([1.25, 2., 2.9])
      ctx.step()
  ctx.trace()


FIELDS = {2: [('x', 0., 2.), ('y', 1., 5.)], 3: [('x', 0., 2.), ('y', 1., 5.), ('z', -1., 7.)],
          1: [('x', 0., 2.)]}


def run_field(root, ctx):
  import probayes as pb
  n, form, kinds, scale, bound, unscale, use = root
  spec = FIELDS[n]
  vs = [pb.Variable(k, vtype=float, vset=[a, b]) for k, a, b in spec]
  fld = pb.Field(*vs)
  length = {k: b - a for k, a, b in spec}
  keys = [k for k, _, _ in spec]
  base = {'x': .125, 'y': .25, 'z': .5}
  kw = {'scale': scale, 'bound': bound}
  amount = {}
  if form == 'scalar':
    d = .25
    arg = {'fixed': d, 'list': [d]}[kinds[0]]
    extra = ({k: spec_of(kd, base[k]) for k, kd in unscale},) if unscale else ()
    fld.set_delta(arg, *extra, **kw)
    for k in keys:
      amount[k] = (kinds[0], d * length[k] if scale else d)
    for k, kd in unscale:
      amount[k] = (kd, base[k])
  else:
    each = {k: spec_of(kd, base[k]) for k, kd in zip(keys, kinds)}
    if form == 'dict':
      fld.set_delta(each, **kw)
    elif form == 'delta':
      fld.set_delta(fld.Delta(**each), **kw)
    for k, kd in zip(keys, kinds):
      amount[k] = (kd, base[k] * (length[k] if scale and form != 'explicit' else 1.))
  what = 'field of {} {} {} scale {} bound {} unscale {} by {}'.format(n, form, kinds, scale, bound, unscale, use)
  seen = {k: [] for k in keys}
  signs = set()
  for us in itertools.product((.1, .9), repeat=n):
    vals = {k: np.array([a, (a + b) / 2, b]) for k, a, b in spec}
    keep = {k: v.copy() for k, v in vals.items()}
    with Scripted(us):
      if form == 'explicit':
        expl = fld.Delta(**each)
        if use == 'eval':
          dl = fld.eval_delta(expl)
          out = fld.apply_delta(vals, dl)
        else:
          out = fld.apply_delta(vals, expl)
      elif use == 'eval':
        dl = fld.eval_delta()
        check(isinstance(dl, fld.Delta), '{}: evaluates to {!r}', what, dl)
        out = fld.apply_delta(vals, dl)
      else:
        out = fld.apply_delta(vals)
    ctx.step()
    check(set(out) == set(keys), '{}: keys {}', what, list(out))
    check(all(np.array_equal(vals[k], keep[k]) for k in keys), '{}: values were modified', what)
    isb = bound and form != 'explicit'
    sg = []
    for k, a, b in spec:
      moved = [float(v) for v in np.ravel(out[k])]
      if isb:
        kd, d = amount[k]
        mid = moved[1] - (a + b) / 2
        cands = [d] if kd == 'fixed' else [d, -d] if kd == 'tuple' else [.8 * d, -.8 * d]
        ok = [c for c in cands if all(T.close(m, min(b, max(a, v + c)), 1e-8, 1e-9)
                                      for m, v in zip(moved, keep[k]))]
        check(ok, '{}: {} moved from {} to {}', what, k, keep[k], moved)
        sg.append(ok[0] > 0)
      else:
        ds = [m - v for m, v in zip(moved, keep[k])]
        check(all(T.close(e, ds[0], 1e-8, 1e-9) for e in ds), '{}: {} offsets differ {}', what, k, ds)
        kd, d = amount[k]
        m = abs(ds[0])
        if kd == 'fixed':
          check(T.close(ds[0], d, 1e-8, 1e-9), '{}: {} moved by {} and not {}', what, k, ds[0], d)
        elif kd == 'tuple':
          check(T.close(m, abs(d), 1e-8, 1e-9), '{}: {} moved by {} and not +/-{}', what, k, ds[0], d)
        else:
          check(T.close(m, .8 * abs(d), 1e-8, 1e-9), '{}: {} moved by {} and not +/-{}', what, k, ds[0], .8 * d)
        sg.append(ds[0] > 0)
      ctx.state()
    signs.add(tuple(s for s, k in zip(sg, keys) if amount[k][0] != 'fixed'))
    ctx.outcome(repr(sg) + repr({k: round(float(out[k][1]), 6) for k in keys}))
  nr = sum(1 for k in keys if amount[k][0] != 'fixed')
  check(len(signs) == 2 ** nr, '{}: variables do not move independently: {}', what, signs)
  ctx.trace()


def run_sphere(root, ctx):
  """Spherical deltas: the joint displacement has the given radius."""
  import probayes as pb
  n, r, bound, scale, kind = root
  spec = FIELDS[n]
  kind, _, take = kind.partition('-')
  many, one = (pb.Field, pb.Variable) if kind == 'field' else (pb.RF, pb.RV)
  fld = many(*[one(k, vtype=float, vset=[a, b]) for k, a, b in spec])
  fld.set_delta((r,), bound=bound, **({} if scale is None else {'scale': scale}))
  if take:
    # A dependence displaces as the field it is told to
    other = many(one('w', vtype=float, vset=[-2., 2.]))
    dep = fld | other if take == 'leafs' else other | fld
    dep.set_delta(fld if take == 'field' else take)
    fld.set_delta([.1])
    fld = dep
  mid = {k: (a + b) / 2 for k, a, b in spec}
  quad = set()
  for us in itertools.product((.05, .35, .8), repeat=n):
    for use in (0, 1):
      with Scripted(us):
        out = fld.apply_delta(mid, fld.eval_delta()) if use else fld.apply_delta(mid)
      ds = [(float(out[k]) - mid[k]) / (b - a if scale else 1.) for k, a, b in spec]
      rad = math.sqrt(sum(d * d for d in ds))
      if not bound or r <= (.5 if scale else 1.):
        check(T.close(rad, r, 1e-8, 1e-9), 'radius {} gives displacement {} of length {}', r, ds, rad)
      check(not bound or all(a - 1e-9 <= float(out[k]) <= b + 1e-9 for k, a, b in spec), 'outside: {}', out)
      quad.add(tuple(d > 0 for d in ds))
      ctx.step()
      ctx.state()
  check(len(quad) == 2 ** n, 'displacements only reach {}', quad)
  ctx.outcome(repr(root))
  ctx.trace()


def spaces(tier):
  full = tier != 'quick'
  fl = []
  ivals = [(1., 3.), (.5, 8.)] + ([(2., 2.5)] if full else [])
  for lo, hi in ivals:
    for o0, o1 in itertools.product((False, True), repeat=2):
      for u in (None, 'log', 'neg', 'affine') + (('cube', 'sym-log', 'sym-affine') if full else ()):
        for kind in ('fixed', 'list', 'tuple'):
          for d in (.3, 1.75) + ((-.5, 0.) if kind == 'fixed' else ()):
            for scale, bound, how in [(s, b, 'default') for s in (None, False, True) for b in (None, False, True)] + \
                [(None, b, h) for b in (False, True) for h in ('override', 'inherit', 'unset')]:
              if not full and scale is None and bound is None and d != .3:
                continue
              fl.append((lo, hi, o0, o1, u, kind, d, scale, bound, how))
  # Displacements of sets below the turning points of symbolic transformations
  fl += [(lo, hi, o, o, u, kind, .3, scale, bound, how) for lo, hi, u in ((-3., -2., 'sym-sq-'), (2., 3., 'sym-sq+'),
                                                                         (-2.5, -2., 'sym-quad-'))
         for o in (False, True) for kind in ('fixed', 'list', 'tuple') for scale, bound, how in
         [(s, b, 'default') for s in (None, True) for b in (False, True)] + [(None, True, 'override')]]
  il = [(lo, hi, k, d, s, b) for lo, hi in ((0, 5), (-3, 3)) for k in ('fixed', 'list', 'tuple')
        for d in (1, 2, 4) + ((-1, 0) if k == 'fixed' else ()) for s in (False, True) for b in (False, True)]
  bl = [('fixed', d, list(v), h) for d in (0, 1, 2, 3, True, False) for v in itertools.product((False, True), repeat=3)
        for h in ('default', 'explicit')]
  bl += [('list', d, list(v), h) for d in (.1, .5, 1.) for v in itertools.product((False, True), repeat=3)
         for h in ('default', 'explicit')]
  depth = 5 if full else 4
  hl = []
  for n in range(1, depth + 1):
    for ops in itertools.product(list(SETS) + ['step'], repeat=n):
      if ops[-1] != 'step' or n > 1 and ops[0] == 'step' or n > 3 and ops.count('step') < 2:
        continue
      for o0, o1, u in ((False, False, None), (True, False, 'log'), (True, True, None)):
        hl.append((ops, o0, o1, u))
  gl = []
  for n in (1, 2, 3):
    for use in ('eval', 'direct'):
      for scale, bound in itertools.product((False, True), repeat=2):
        for kd in ('fixed', 'list'):
          for un in ((), (('x', 'fixed'),), (('x', 'list'),), (('x', 'tuple'),)) + \
              (((('y', 'fixed'),), (('x', 'tuple'), ('y', 'list'))) if n > 1 else ()):
            gl.append((n, 'scalar', (kd,), scale, bound, un, use))
        for kinds in itertools.product(('fixed', 'list', 'tuple'), repeat=n):
          for form in ('dict', 'delta') + (('explicit',) if not scale and not bound else ()):
            gl.append((n, form, kinds, scale, bound, (), use))
  sl = [(n, r, b, s, k) for n in (1, 2, 3) for r in (.1, .5, 1.) for b in (False, True) for s in (None, False, True)
        for k in ('field', 'random field') + tuple(a + '-' + t for a in ('field', 'random field')
                                                   for t in ('roots', 'leafs', 'field'))]
  ll = [(lo, hi, o0, o1, u, s, h) for lo, hi in ((0., 1.), (-2., 2.), (1., 5.)) for o0 in (False, True)
        for o1 in (False, True) for u in (None, 'neg') for s, h in ((False, 'explicit'), (False, 'default'), (True, 'default'))]
  return [Space('landing', ll, run_landing, 'all dyadic values and displacements, exactly on limits included'),
          Space('amounts', fl, run_float, 'all limits/openness/transformation/delta/scale/bound/default '
                'combinations, 9 values, 8 draws'),
          Space('integers', il, run_int, 'all values and draws'),
          Space('booleans', bl, run_bool, 'all value triples and draws'),
          Space('callables', [(h, f, o0, o1, k, ov) for h in ('variable', 'field', 'process')
                              for f in (CALLS if h == 'variable' else ('double', 'mirror')) for o0 in (False, True) for o1 in (False, True)
                              for k in ((), (('bound', False),), (('bound', True),), (('scale', False), ('bound', True)))
                              for ov in ((None, False, True) if h == 'variable' else (None,))],
                run_calls, 'callables by every holder, all limits and bounds'),
          Space('flips', [(h, f, ds, sc) for h in ('field', 'process') for n in (1, 2, 3)
                          for f in ('same', 'dict', 'own', 'mixed') for sc in (True, False)
                          for ds in itertools.product(((1,), (0,), .3, .7, 1.), repeat=n if f != 'same' else 1)
                          for ds in [ds * n if f == 'same' else ds] if (f != 'mixed' or n > 1) and (f != 'own' or n > 1)],
                run_flips, 'all fixed and random flips of fields of up to 3 variables, all draws'),
          Space('histories', hl, run_history, 'all set_delta/step sequences up to length {}'.format(depth)),
          Space('fields', gl, run_field, 'fields of 1-3 variables, all delta forms, all draw sign patterns'),
          Space('spherical', sl, run_sphere, 'all draw patterns over 3 levels')]
