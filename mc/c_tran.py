"""Transitions of random variables: p(x'|x), sampled successors and chains."""
import itertools
import math

import numpy as np

from mc.core import Space, check
from mc import table as T
from mc.rng import Scripted
from mc.c_rv import SCALES, on_scale, kw, _offs
from mc.c_var import UFUNS, set_ufun, vset_of, grid

PROPERTY = 'P13'
ASSUMPTIONS = ['transition matrices have successors along rows and predecessors along columns of the sorted set',
               'random draws are answered by every script of a finite set',
               'callable transitions answer on the scale of the variable']

SETS = {'bool': [False, True], '01': [0, 1], '012': [0, 1, 2], '520': [5, 2, 0], 'neg': [-1, 4, 2], '7': [7], 'many': [9, -4, 30, 2, 0, 17, -12, 6]}

FORMS = ['generic', 'zeros', 'symmetric', 'permute', 'identity']


def matrix(form, n):
  if form == 'generic':
    m = np.array(T.generic_probs(n * n)).reshape(n, n)
  elif form == 'zeros':
    m = np.array(T.generic_probs(n * n)).reshape(n, n)
    for i in range(n):
      if n > 1:
        m[(i + 1) % n, i] = 0.
  elif form == 'symmetric':
    m = np.full((n, n), .25 / max(n - 1, 1))
    np.fill_diagonal(m, .75)
  elif form == 'permute':
    m = np.zeros((n, n))
    for i in range(n):
      m[(i + 1) % n, i] = 1.
  elif form == 'identity':
    m = np.eye(n)
  return m / m.sum(axis=0)


def judge(pd, pred, succ, prob, what, ctx, rtol=1e-8):
  """pd must be p(x'|x) over the values given (a list, or a scalar) with prob(succ, pred)."""
  tb = T.of_pd(pd, what)
  check(tb.marg == ["x'"] and tb.cond == ['x'], '{}: variables {}|{}', what, tb.marg, tb.cond)
  pl, sl = isinstance(pred, list), isinstance(succ, list)
  for key, want, isl in (('x', pred, pl), ("x'", succ, sl)):
    got = pd[key]
    check((np.ndim(got) > 0) == isl, '{}: {} is {}', what, key, got)
    got = [T.py(v) for v in np.ravel(got)]
    want = want if isl else [want]
    check(len(got) == len(want) and all(T.same_value(a, b) or (isinstance(b, float) and T.close(float(a), b, 1e-8, 1e-10))
                                        for a, b in zip(got, want)),
          '{}: {} is {} and not {}', what, key, got, want)
  want = np.array([[prob(s, p) for p in (pred if pl else [pred])] for s in (succ if sl else [succ])])
  p = np.asarray(pd.prob, dtype=float)
  check(p.ndim == pl + sl and p.size == want.size, '{}: probabilities of shape {}', what, p.shape)
  for a, b in zip(p.ravel(), want.ravel()):
    lin = T.to_linear(a, pd.pscale)
    check(T.close(lin, b, rtol, 1e-12), '{}: probability {} and not {}', what, lin, b)
    ctx.state()
  ctx.step()
  ctx.outcome((what, tuple(np.round(want.ravel(), 9))))


def inverse(m, i, u):
  """Index of the successor at cumulative probability u."""
  c = 0.
  for j in range(m.shape[0]):
    c += m[j, i]
    if u < c - 1e-12:
      return j
  return m.shape[0] - 1


def us_for(m, i):
  """The lowest level, and those away from the steps of the cumulative distribution:
  mid-points, and both sides of every step."""
  c = np.concatenate([[0.], np.cumsum(m[:, i])])
  out = [0.]
  for a, b in zip(c[:-1], c[1:]):
    if b - a > 1e-9:
      out += [a + 1e-6 * (b - a), .5 * (a + b), b - 1e-6 * (b - a)]
  return [float(v) for v in out]


def make(vname, form, scale, how):
  """The variable, its sorted values, and its forward and reverse matrices."""
  import probayes as pb
  vals = SETS[vname]
  n = len(vals)
  m = matrix(form, n)
  r = matrix('generic', n)[::-1].copy() if how in ('pair', 'rv-pair') else m
  kwds = kw(scale)
  vt = bool if vname == 'bool' else int
  rv = pb.RV('x', vtype=vt, vset=list(vals), **kwds)
  on = np.vectorize(lambda p: on_scale(p, scale), otypes=[float])
  arg = (on(m), on(r)) if how == 'pair' else on(m)
  rv.set_tran(arg)
  return rv, sorted(vals), m, r, arg


def run_matrix(root, ctx):
  vname, form, scale, how = root
  rv, vals, m, r, arg = make(vname, form, scale, how)
  keep = [np.array(a) for a in (arg if isinstance(arg, tuple) else (arg,))]
  idx = {v: i for i, v in enumerate(vals)}
  what0 = 'matrix {} over {} on {} {}'.format(form, SETS[vname], scale, how)
  dirs = [(False, m)] + ([(True, r)] if how == 'pair' or form in ('symmetric', 'identity') else [])
  for rev, mm in dirs:
    f = lambda s, p: mm[idx[s], idx[p]]
    what = what0 + (' reversed' if rev else '')
    rk = {'reverse': True} if rev else {}
    whole = [T.py(v) for v in np.ravel(rv.evaluate(None)['x'])]
    judge(rv.step(**rk), whole, whole, f, what + ' step()', ctx)
    preds = vals + ([list(s) for k in (1, 2, len(vals)) for s in itertools.permutations(vals, k)] if len(vals) < 5 else
                    [vals[k:] + vals[:k] for k in (0, 3)] + [vals[::-1], sorted(vals), vals[-1:], vals[2:7:2]])
    preds += [[vals[0], vals[0], vals[-1]]]
    for p, s in itertools.product(preds, repeat=2):
      pa = np.array(p) if isinstance(p, list) else p
      sa = np.array(s) if isinstance(s, list) else s
      judge(rv.step(pa, sa, **rk), p, s, f, '{} step({}, {})'.format(what, p, s), ctx)
    for s in vals:
      judge(rv.step((vals[0], s), **rk), vals[0], s, f, '{} step(({}, {}))'.format(what, vals[0], s), ctx)
    for p in preds:
      if isinstance(p, list):
        judge(rv.step(np.array(p), **rk), p, p, f, '{} step({})'.format(what, p), ctx)
    # successors sampled by inverting the cumulative distribution of the predecessor
    for p in vals:
      for u in us_for(mm, idx[p]):
        want = vals[inverse(mm, idx[p], u)]
        judge(rv.step(p, {u}, **rk), p, [want], f, '{} step({}, {{{:.6f}}})'.format(what, p, u), ctx)
        for q in ({0}, None):
          with Scripted([u]):
            d = rv.step(p, q, **rk)
          judge(d, p, want, f, '{} step({}, {}) at {:.6f}'.format(what, p, q, u), ctx)
      ulist = us_for(mm, idx[p])
      with Scripted(ulist):
        d = rv.step(p, {-len(ulist)}, **rk)
      judge(d, p, [vals[inverse(mm, idx[p], u)] for u in ulist], f, '{} step({}, {{-{}}})'.format(what, p, len(ulist)), ctx)
  for a, k in zip((arg if isinstance(arg, tuple) else (arg,)), keep):
    check(np.array_equal(a, k), '{}: the matrix given was modified', what0)
  # values outside the set have no transition
  for p, s in ((99, vals[0]), (vals[0], 99)):
    if vname == 'bool':
      continue
    try:
      d = rv.step(p, s)
    except Exception:
      continue
    check(all(T.to_linear(v, d.pscale) == 0 for v in np.ravel(d.prob)), '{}: step({}, {}) has probability', what0, p, s)
  ctx.trace()
  ctx.sample(what0)


def run_misfit(root, ctx):
  """Matrices that do not fit the set are refused."""
  import probayes as pb
  vname, rows, cols, pair, log = root
  vals = SETS[vname]
  rv = pb.RV('x', vtype=bool if vname == 'bool' else int, vset=list(vals), **({'pscale': 'log'} if log else {}))
  m = np.full((rows, cols), 1. / max(1, rows))
  fits = np.full((len(vals),) * 2, 1. / len(vals))
  if log:
    m, fits = np.log(m), np.log(fits)
  for arg in ((m, fits), (fits, m)) if pair == 2 else ((m, m),) if pair else (m,):
    if pair == 2 and arg[0] is fits:
      continue
    try:
      rv.set_tran(arg)
    except Exception:
      ctx.step()
      continue
    check(False, 'a {} x {} transition matrix is taken for {} values', rows, cols, len(vals))
  ctx.state()
  ctx.trace()


def run_chain(root, ctx):
  """Chained conditionals compose as matrix powers; sampled chains follow the draws."""
  vname, form, scale, k, us = root
  rv, vals, m, _, _ = make(vname, form, scale, 'single')
  idx = {v: i for i, v in enumerate(vals)}
  what = 'chain of {} {} steps over {} on {}'.format(k, form, SETS[vname], scale)
  if us is None:
    last = None
    power = np.eye(len(vals))
    for i in range(k):
      cond = rv.step().rekey({'x': 'x{}'.format(i), "x'": 'x{}'.format(i + 1)})
      last = cond if last is None else (cond * last).marginalise('x{}'.format(i))
      power = m @ power
      tb = T.of_pd(last, what)
      a, b = 'x{}'.format(i + 1), 'x0'
      check(tb.marg == [a] and tb.cond == [b], '{}: {}|{} after {}', what, tb.marg, tb.cond, i + 1)
      for asg, p in tb.assignments().items():
        asg = dict(asg)
        w = power[idx[asg[a]], idx[asg[b]]]
        check(T.close(p, w, 1e-8, 1e-10), '{}: after {}: p({}) is {} and not {}', what, i + 1, asg, p, w)
        ctx.state()
      ctx.step()
    ctx.outcome((what,))
  else:
    for start in vals:
      path, want = [start], [start]
      with Scripted(us) as env:
        for u in us:
          d = rv.step(path[-1], {0})
          path.append(T.py(d["x'"]))
          want.append(vals[inverse(m, idx[want[-1]], u)])
          check(path[-1] == want[-1], '{}: draws {} give {} and not {}', what, us, path, want)
          p = T.to_linear(d.prob, d.pscale)
          check(T.close(p, m[idx[want[-1]], idx[want[-2]]], 1e-8), '{}: draws {}: probability {}', what, us, p)
          ctx.state()
          ctx.step()
      ctx.outcome((what, tuple(path)))
  ctx.trace()
  ctx.sample(what)


def run_flat(root, ctx):
  """Flat transitions: any successor inside the set is as probable, none outside is."""
  import probayes as pb
  kind, uname, scale, value, op = root
  kwds = kw(scale)
  if kind == 'float':
    lo, hi = op[:2]
    fwd, inv = UFUNS[uname]
    rv = pb.RV('x', vset=vset_of(lo, hi, op[2], op[3], 'list'), vtype=float, **kwds)
    if uname is not None:
      set_ufun(rv, uname)
    ins = [lo + (hi - lo) * t for t in (.125, .5, .875)]
    out = [lo - 1., hi + 1.]
    inside = lambda v: lo < v < hi
  else:
    vals = SETS[kind]
    rv = pb.RV('x', vtype=bool if kind == 'bool' else int, vset=list(vals), **kwds)
    ins, out = list(vals), [] if kind == 'bool' else [77]
    inside = lambda v: v in vals
  pair = isinstance(value, tuple)
  rv.set_tran(tuple(on_scale(v, scale) for v in value) if pair else on_scale(value, scale))
  value, back = value if pair else (value, value)
  f = lambda s, p: value if inside(s) and inside(p) else 0.
  b = lambda s, p: back if inside(s) and inside(p) else 0.
  what = 'flat {} transition of {} {} ufun {} scale {}'.format(value, kind, op, uname, scale)
  for p, s in itertools.product(ins + out + [ins, ins + out, ins[:1]], repeat=2):
    pa = np.array(p) if isinstance(p, list) else p
    sa = np.array(s) if isinstance(s, list) else s
    judge(rv.step(pa, sa), p, s, f, '{} step({}, {})'.format(what, p, s), ctx)
  for rev in (False, True):
    judge(rv.step(ins[0], ins[-1], reverse=rev), ins[0], ins[-1], b if rev else f, what + ' reverse', ctx)
    for v in out[:1] + ins[:1]:
      judge(rv.step(np.array(ins), v, reverse=rev), ins, v, b if rev else f, what + ' reverse', ctx)
  for u in (.01, .25, .5, .75, .99):
    for q in ({0}, None):
      with Scripted([u]):
        d = rv.step(ins[0], q)
      s = T.py(d["x'"])
      check(inside(s), '{}: sampled successor {}', what, s)
      if kind == 'float':
        g = fwd(lo) + (fwd(hi) - fwd(lo)) * u
        check(T.close(fwd(s), g, 1e-8, 1e-9), '{}: draw {} gives {} and not {}', what, u, s, inv(g))
      judge(d, ins[0], s, f, what + ' sampled', ctx)
    if kind == 'float':
      a, b = sorted((fwd(lo), fwd(hi)))
      judge(rv.step(ins[0], {u}), ins[0], inv(a + (b - a) * u), f, '{} step at level {}'.format(what, u), ctx)
  ctx.trace()
  ctx.sample(what)


def gauss(z):
  return math.exp(-.5 * z * z) / math.sqrt(2 * math.pi)


CALLS = ['index', 'names', 'symmetric']


def run_callable(root, ctx):
  """Callable transitions, their reverse, and sampling by their cumulative functions."""
  import probayes as pb
  import scipy.stats
  kind, scale, call, pair, op = root
  log = scale in ('log', 'offs', 'noffs')
  off = 0. if scale in ('one', 'log') or not log else _offs(scale)
  coef = 1. if log or SCALES[scale] is None else SCALES[scale]
  sc = (lambda p: np.log(p) - off) if log else (lambda p: p / coef)
  norm = scipy.stats.norm
  if kind == 'float':
    def tran(succ, pred):
      return sc(norm.pdf(succ, loc=.5 * pred + 1., scale=2.))

    def nart(succ, pred):
      return sc(norm.pdf(pred, loc=.25 * succ - 1., scale=3.))

    ref = lambda s, p: gauss((s - .5 * p - 1.) / 2.) / 2.
    fer = lambda s, p: gauss((p - .25 * s + 1.) / 3.) / 3.
    vals = [-1.5, .25, 2.]
    rv = pb.RV('x', vset=vset_of(-4., 6., op[0], op[1], 'list'), vtype=float, **kw(scale))
    uname = op[2] if len(op) > 2 else None
    if uname:
      set_ufun(rv, uname)
  else:
    def tran(succ, pred):
      return sc((1. + (2. * np.asarray(succ) + np.asarray(pred)) % 5) / 16.)

    def nart(succ, pred):
      return sc((1. + (3. * np.asarray(succ) + 2 * np.asarray(pred)) % 7) / 16.)

    ref = lambda s, p: (1. + (2. * s + p) % 5) / 16.
    fer = lambda s, p: (1. + (3. * s + 2 * p) % 7) / 16.
    vals = SETS[kind]
    rv = pb.RV('x', vtype=bool if kind == 'bool' else int, vset=list(vals), **kw(scale))
  order = {'index': {"x'": 0, 'x': 1}, 'names': {'x': 'pred', "x'": 'succ'}}[call]
  rv.set_tran((tran, nart) if pair else tran, order=order)
  what = 'callable {} transition on {} by {} pair {} open {}'.format(kind, scale, call, pair, op)
  qs = vals + [list(vals), [vals[-1], vals[0]], [vals[0]]]
  for rev, g in ((False, ref), (True, fer if pair else ref)):
    for p, s in itertools.product(qs, repeat=2):
      pa = np.array(p) if isinstance(p, list) else p
      sa = np.array(s) if isinstance(s, list) else s
      judge(rv.step(pa, sa, reverse=rev), p, s, g, '{} reverse {} step({}, {})'.format(what, rev, p, s), ctx)
    if kind == 'float':
      for n in (1, 2, 3):
        d = rv.step({n}, reverse=rev)
        pts = [float(v) for v in np.ravel(rv.evaluate({n})['x'])]
        judge(d, pts, pts, g, '{} reverse {} step({{{}}})'.format(what, rev, n), ctx)
    else:
      whole = [T.py(v) for v in np.ravel(rv.evaluate(None)['x'])]
      judge(rv.step(reverse=rev), whole, whole, g, '{} reverse {} step()'.format(what, rev), ctx)
  if kind == 'float':
    def tcdf(succ, pred):
      return norm.cdf(succ, loc=.5 * pred + 1., scale=2.)

    def ticdf(succ, pred):
      return norm.ppf(succ, loc=.5 * pred + 1., scale=2.)

    rv.set_tfun((tcdf, ticdf), order=order)
    for p in vals:
      ppf = lambda u: .5 * p + 1. + 2. * float(norm.ppf(u))
      a, b = [float(norm.cdf((e - .5 * p - 1.) / 2.)) for e in (-4., 6.)]
      for u in (.05, .3, .5, .9):
        judge(rv.step(p, {u}), p, [ppf(u)], ref, '{} step({}, {{{}}})'.format(what, p, u), ctx)
        for q in ({0}, None):
          with Scripted([u]):
            d = rv.step(p, q)
          judge(d, p, ppf(a + (b - a) * u), ref, '{} step({}, {}) at {}'.format(what, p, q, u), ctx)
      for us in ((.1, .6), (.6, .1), (.9, .2, .4)):
        with Scripted(us):
          d = rv.step(p, {-len(us)})
        judge(d, p, [ppf(a + (b - a) * u) for u in us], ref, '{} step({}, {{-{}}})'.format(what, p, len(us)), ctx)
      for n in (1, 2, 5):
        d = rv.step(p, {n})
        judge(d, p, [ppf(t) for t in grid(a, b, n, op[0], op[1])], ref, '{} step({}, {{{}}})'.format(what, p, n), ctx)
    # with a delta, successors without specification are displaced predecessors
    if uname:
      ctx.trace()
      ctx.sample(what)
      return
    rv.set_delta(.75)
    for p in vals:
      judge(rv.step(p), p, p + .75, ref, '{} step({}) by delta'.format(what, p), ctx)
    arr = list(vals)
    judge(rv.step(np.array(arr)), arr, [v + .75 for v in arr], ref, '{} array step by delta'.format(what), ctx)
    judge(rv.step(vals[0], vals[1]), vals[0], vals[1], ref, '{} step with a delta set'.format(what), ctx)
  ctx.trace()
  ctx.sample(what)


def spaces(tier):
  full = tier != 'quick'
  scales = list(SCALES) if full else ['one', 'log', 'four', 'noffs']
  ms = [(v, f, s, h) for v in SETS for f in FORMS for s in scales for h in ('single', 'pair')
        if not (f != 'generic' and h == 'pair' and not full)]
  few = [v for v in SETS if len(SETS[v]) < 5]
  ch = [(v, f, s, 4 if full else 3, None) for v in few for f in FORMS for s in scales]
  lev = (.1, .45, .8) if not full else (.05, .35, .65, .95)
  for v in few:
    for f in ('generic', 'zeros', 'symmetric', 'permute'):
      for us in itertools.product(lev, repeat=4 if full else 3):
        ch.append((v, f, 'one' if f != 'zeros' else 'log', len(us), us))
  fl = [(k, None, s, p, ()) for k in few for s in scales for p in (.25, .5, (.25, .5))]
  fl += [('float', u, s, p, (lo, hi, o0, o1)) for u in UFUNS if u is None or u[-1] not in '+-' for s in scales for p in (.125, 2., (.125, 2.))
         for lo, hi in (((.5, 2.), (1., 4.)) if full else ((.5, 2.),)) for o0 in (0, 1) for o1 in (0, 1)]
  fl += [('float', 'sym-sq-', s, p, (-3., -1., o, o)) for p in (.125, (.5, .25)) for s in scales for o in (0, 1)]
  tops = [(o0, o1, u) for u in ('neg', 'affine', 'cube', 'sym-affine') for o0, o1 in ((0, 0), (0, 1), (1, 1))]
  cl = [(k, s, c, p, op) for k in ('float', 'bool', '012', 'neg') for s in scales for c in ('index', 'names')
        for p in (False, True) for op in ([(0, 0), (1, 1), (1, 0), (0, 1)] + tops if k == 'float' else [()])]
  mf = [(k, r, c, p, g) for k in SETS for n in [len(SETS[k])] for r in (1, n - 1, n, n + 1, 2 * n) for c in (1, n - 1, n, n + 1, 2 * n)
        if (r, c) != (n, n) and r and c for p in (0, 1, 2) for g in (False, True)]
  return [Space('misfits', mf, run_misfit, 'all sizes around that of the set'),
          Space('matrices', ms, run_matrix, 'all sets x matrix forms x scales x single/paired; all scalar and array predecessors '
                'and successors; levels on both sides of every step of the cumulative distribution'),
          Space('chains', ch, run_chain, 'all compositions to length {0}, all scripts of draws to length {0}'.format(4 if full else 3)),
          Space('flat', fl, run_flat, 'all sets/intervals x transformations x scales'),
          Space('callables', cl, run_callable, 'all kinds x scales x argument conventions x directions')]
