"""Transitions of fields: conditional probabilities, correlated deltas, conditional (Gibbs) sampling."""
import itertools
import math

import numpy as np

from mc.core import Space, check
from mc import table as T
from mc.rng import Scripted
from mc.c_rv import SCALES
from mc.c_field import scaled
from mc.c_var import set_ufun

PROPERTY = 'P17'
ASSUMPTIONS = ['steps of fields are between scalar values',
               'multivariate normal laws of transformed variables concern their values as given',
               'random draws are answered by every script of a finite set']

NAMES = ['x', 'y', 'z']
PREDS = [{'x': 1., 'y': 2., 'z': -.5}, {'x': -.75, 'y': .25, 'z': 1.5}]
SUCCS = [{'x': .5, 'y': -1., 'z': .125}, {'x': 1.25, 'y': .75, 'z': -2.}]


def law(v, names, reverse=False):
  out = 1.
  for j, n in enumerate(names):
    a, b = v[n], v[n + "'"]
    if reverse:
      a, b = b, a
    out = out * (.3 + .1 * np.sin(1.3 * a + 2.1 * b + j) + .05 * np.cos((j + 1) * b - a))
  return out


def judge(pd, names, pred, succ, prob, what, ctx):
  check(set(pd.marg) == {n + "'" for n in names} and set(pd.cond) == set(names), '{}: p({}|{})', what, list(pd.marg), list(pd.cond))
  for n in names:
    for k, want in ((n, pred[n]), (n + "'", succ[n])):
      check(np.ndim(pd[k]) == 0 and T.close(float(pd[k]), float(want), 1e-9, 1e-9), '{}: {} is {} and not {}', what, k, pd[k], want)
  if prob is not None:
    p = T.to_linear(float(pd.prob), pd.pscale)
    check(T.close(p, prob, 1e-8, 1e-12), '{}: probability {} and not {}', what, p, prob)
  ctx.state()
  ctx.step()


def run_prob(root, ctx):
  """p(successors|predecessors) for every form of transition and of request."""
  import probayes as pb
  n, form, scale, holder = root
  names = NAMES[:n]
  rvs = [pb.RV(k, vtype=float, vset=[-10., 10.], pscale=SCALES[scale] or 1.) if j == 0 else
         pb.RV(k, vtype=float, vset=[-10., 10.]) for j, k in enumerate(names)]
  if holder == 'field':
    rf = pb.RF(*rvs)
  elif holder == 'process':
    rf = pb.SP(pb.RF(*rvs))
  else:
    rf = pb.SD(pb.RF(*rvs))
  f = lambda v, rev=False: float(law(v, names, rev))
  own = {'pscale': SCALES[scale] or 1.}
  if form == 'single':
    rf.set_tran(lambda **v: scaled(law(v, names), scale))
  elif form == 'pair':
    rf.set_tran((lambda **v: scaled(law(v, names), scale), lambda **v: scaled(law(v, names, True), scale)))
  elif form == 'order':
    args = [k + s for k in names for s in ("'", '')][::-1]
    src = 'lambda {0}: fun(dict(zip(args, ({0},))))'.format(', '.join('abcdef'[:2 * n]))
    rf.set_tran(eval(src, {'fun': lambda v: scaled(law(v, names), scale), 'args': args}), order={k: i for i, k in enumerate(args)})
  elif form == 'rename':
    src = 'lambda {0}: fun({1})'.format(', '.join('{0}_p, {0}_s'.format(k) for k in names),
                                        'dict([{}])'.format(', '.join('("{0}", {0}_p), ("{0}\'", {0}_s)'.format(k) for k in names)))
    rf.set_tran(eval(src, {'fun': lambda v: scaled(law(v, names), scale)}),
                order={**{k: k + '_p' for k in names}, **{k + "'": k + '_s' for k in names}})
  elif form == 'delta':
    # a function of the displacements alone
    g = lambda d: math.prod(.2 + .1 * math.sin(v + j) for j, v in enumerate(d))
    f = lambda v, rev=False: g([v[k + "'"] - v[k] for k in names])
    src = 'lambda {0}: fun(({0},))'.format(', '.join('abc'[:n]))
    rf.set_tran(eval(src, {'fun': lambda d: scaled(g(d), scale)}), delta={k + "'": j for j, k in enumerate(names)})
  elif form == 'extra':
    rf.set_tran(lambda scl=1., **v: scaled(scl * law(v, names), scale), scl=.5)
    f = lambda v, rev=False: .5 * float(law(v, names))
  elif form == 'scalar':
    rf.set_tran(float(scaled(.35, scale)))
    f = lambda v, rev=False: .35
  elif form == 'scalars':
    rf.set_tran((float(scaled(.35, scale)), float(scaled(.15, scale))))
    f = lambda v, rev=False: .15 if rev else .35
  base = 'transition of {} variables by {} on {} of {}'.format(n, form, scale, holder)
  for p0, s0 in itertools.product(PREDS, SUCCS):
    pred, succ = {k: p0[k] for k in names}, {k: s0[k] for k in names}
    v = dict(pred)
    v.update({k + "'": w for k, w in succ.items()})
    for label, args in (('two arguments', (pred, succ)), ('a pair', ((pred, succ),)),
                        ('primed', (pred, {k + "'": w for k, w in succ.items()})),
                        ('reversed order', (dict(reversed(list(pred.items()))), dict(reversed(list(succ.items())))))):
      copy = [dict(a) if isinstance(a, dict) else a for a in args]
      judge(rf.step(*args), names, pred, succ, f(v), '{} as {}'.format(base, label), ctx)
      check(list(args) == copy, '{}: the values given were modified', base)
    if form in ('pair', 'scalars'):
      d = rf.reval_tran(rf.step(pred, succ))
      check(T.close(T.to_linear(float(d.prob), d.pscale), f(v, True), 1e-8, 1e-12), '{}: reverse probability {}', base, d)
      judge(rf.step(pred, succ, reverse=True), names, pred, succ, f(v, True), base + ' in reverse', ctx)
      judge(rf.step(pred, succ), names, pred, succ, f(v), base + ' forwards again', ctx)
    # by a delta
    d = {k: succ[k] - pred[k] for k in names}
    judge(rf.step(pred, rf.Delta(**d)), names, pred, succ, f(v), base + ' by a delta', ctx)
  k0 = {k: PREDS[0][k] for k in names}
  dd = {k: .25 * (j + 1) for j, k in enumerate(names)}
  rf.set_delta(dict(dd), scale=False)
  succ = {k: k0[k] + dd[k] for k in names}
  v = dict(k0)
  v.update({k + "'": w for k, w in succ.items()})
  judge(rf.step(k0), names, k0, succ, f(v), base + ' by the delta set', ctx)
  ctx.outcome((form, n))
  ctx.trace()
  ctx.sample(base)


def run_unspecified(root, ctx):
  """Transitions left unspecified treat the variables as independent, and either direction alike."""
  import probayes as pb
  from mc.c_field import make_rv
  kinds, scales, holder = root
  trip = [make_rv(k, NAMES[j], s) for j, (k, s) in enumerate(zip(kinds, scales))]
  names = NAMES[:len(kinds)]
  rf = pb.RF(*[t[0] for t in trip])
  if holder != 'field':
    rf = (pb.SP if holder == 'process' else pb.SD)(rf)
  p = lambda v: math.prod(t[1](v[k]) for k, t in zip(names, trip))
  ends = [dict(zip(names, v)) for v in itertools.product(*[t[2] for t in trip])]
  base = 'unspecified transition of {} on {} of {}'.format(kinds, scales, holder)
  for a, b in itertools.product(ends, repeat=2):
    want = math.sqrt(p(a) * p(b))
    judge(rf.step(a, b), names, a, b, want, base, ctx)
    judge(rf.step(a, b, reverse=True), names, a, b, want, base + ' in reverse', ctx)
  ctx.outcome((kinds, holder))
  ctx.trace()
  ctx.sample(base)


COVS = {'corr': [[4., 1., .3], [1., 9., -.8], [.3, -.8, 1.]], 'diag': [[1., 0., 0.], [0., 4., 0.], [0., 0., .25]],
        'neg': [[1.5, -1., .2], [-1., 2., .1], [.2, .1, .5]]}


def run_cov(root, ctx):
  """Deltas correlated by a covariance matrix: displaced by its Cholesky factor."""
  import probayes as pb
  n, cov, form, holder, how = root
  names = NAMES[:n]
  rvs = [pb.RV(k, vtype=float, vset=[-100., 100.]) for k in names]
  rf = pb.RF(*rvs) if holder == 'field' else pb.SP(pb.RF(*rvs))
  C = np.array(COVS[cov])[:n, :n]
  L = np.linalg.cholesky(C)
  if how == 'covariance':
    keep = C.copy()
    rf.set_tran(C)
    check(np.array_equal(C, keep), 'covariance modified')
  else:
    L = L if how == 'lower' else L.T.copy()
    keep = L.copy()
    rf.set_tfun(L)
    check(np.array_equal(L, keep), 'factor modified')
  base = '{} {} of {} on {}'.format(how, cov, n, form)
  check(rf.eval_delta() is None, '{}: delta without specification {}', base, rf.eval_delta())
  raw = {}
  if form == 'fixed':
    raw = {k: .5 * (j + 1) for j, k in enumerate(names)}
    rf.set_delta(dict(raw), scale=False)
  elif form == 'scalar':
    raw = {k: .5 for k in names}
    rf.set_delta(.5, scale=False)
  elif form == 'callable':
    raw = {k: .75 - .5 * j for j, k in enumerate(names)}
    rf.set_delta(lambda: rf.Delta(**raw))
  elif form == 'random':
    rf.set_delta([.5], scale=False)
  for u in (.2, .5, .85) if form == 'random' else (.5,):
    if form == 'random':
      raw = {k: .5 * (2. * u - 1.) for k in names}
    want = L @ np.array([raw[k] for k in names])
    with Scripted([u]):
      d = rf.eval_delta()
    check(np.allclose([float(np.ravel(v)[0]) for v in d], want, 1e-9, 1e-12), '{}: delta {} and not {}', base, d, want)
    for p0 in PREDS:
      pred = {k: p0[k] for k in names}
      with Scripted([u]):
        s = rf.step(pred)
      judge(s, names, pred, {k: pred[k] + w for k, w in zip(names, want)}, None, base, ctx)
      d = {k: .5 - .75 * j for j, k in enumerate(names)}
      s = rf.step(pred, rf.Delta(**d))
      judge(s, names, pred, {k: pred[k] + w for k, w in zip(names, L @ np.array([d[k] for k in names]))}, None, base + ' by a delta', ctx)
  ctx.outcome((cov, form, how))
  ctx.trace()
  ctx.sample(base)


def cdf(z):
  return .5 * math.erfc(-z / math.sqrt(2.))


def run_gauss(root, ctx):
  """Each variable in turn drawn from its normal conditional, truncated by its limits."""
  import probayes as pb
  import scipy.stats
  n, cov, lims, tsteps, u, holder = root
  names = NAMES[:n]
  bounds = {'wide': (-50., 50.), 'tight': (-1.5, 2.), 'inf': (-np.inf, np.inf), 'half': (-1., np.inf)}[lims.split('-')[0]]
  rvs = [pb.RV(k, vtype=float, vset=bounds) for k in names]
  if '-' in lims:
    for i, rv in enumerate(rvs):
      if i or lims.endswith('all'):
        set_ufun(rv, lims.split('-')[1])
  rf = pb.RF(*rvs) if holder == 'field' else pb.SP(pb.RF(*rvs))
  mean = np.array([.5, -.5, .25])[:n]
  C = np.array(COVS[cov])[:n, :n]
  kw = {} if tsteps is None else {'tsteps': tsteps}
  rf.set_tran(scipy.stats.multivariate_normal, mean, C, **kw)
  base = 'conditional sampling of {} by {} within {} in steps of {} at {}'.format(n, cov, lims, tsteps, u)
  for start in PREDS:
    cur = {k: start[k] for k in names}
    # each field goes through its variables from the first
    rf = pb.RF(*rvs) if holder == 'field' else pb.SP(pb.RF(*rvs))
    rf.set_tran(scipy.stats.multivariate_normal, mean, C, **kw)
    pos = 0
    for rep in range(4):
      keys = names if tsteps is None else names[pos:pos + tsteps]
      if tsteps is not None:
        pos = pos + tsteps if pos + tsteps < n else 0
      succ = dict(cur)
      for k in keys:
        i = names.index(k)
        o = [j for j in range(n) if j != i]
        A = np.linalg.solve(C[np.ix_(o, o)], C[o, i])
        mu = mean[i] + A @ (np.array([succ[names[j]] for j in o]) - mean[o])
        sd = math.sqrt(C[i, i] - A @ C[o, i])
        lo, hi = [cdf((b - mu) / sd) if math.isfinite(b) else float(b > 0) for b in bounds]
        succ[k] = float(scipy.stats.norm.ppf(lo + u * (hi - lo), mu, sd))
      with Scripted([u]):
        s = rf.step(dict(reversed(list(cur.items()))) if rep % 2 else dict(cur), {0}) if rep < 3 else rf.step(dict(cur))
      judge(s, names, cur, succ, None, '{} step {}'.format(base, rep), ctx)
      if math.isfinite(bounds[0]):
        check(all(bounds[0] - 1e-9 <= float(s[k + "'"]) <= bounds[1] + 1e-9 for k in names), '{}: {} out of limits', base, dict(s))
      cur = succ
  ctx.outcome((n, cov, lims, tsteps))
  ctx.trace()
  ctx.sample(base)


TAILS = {'negative': ((0., 10.), [[1., -.95], [-.95, 1.]], [0., 0.], [(1., 3.), (9.5, 9.), (.01, .02)]),
         'steep': ((-1.5, 2.), [[9., 2.95], [2.95, 1.]], [0., 0.], [(0., 2.), (1., -1.5), (-1.4, 1.9)]),
         'above': ((5., np.inf), [[1., .5], [.5, 1.]], [-5., -5.], [(6., 5.5), (5.25, 7.)]),
         'below': ((-np.inf, -5.), [[1., .5], [.5, 1.]], [5., 5.], [(-6., -5.5), (-5.25, -7.)])}


def mills(lo, hi, mu, sd, x):
  """ Portion of a truncated normal law below x, by high-precision arithmetic """
  import mpmath
  with mpmath.workdps(400):
    z = [(mpmath.mpf(v) - mpmath.mpf(mu)) / mpmath.mpf(sd) for v in (lo, hi, x)]
    a, b, c = [mpmath.erfc(-v / mpmath.sqrt(2)) for v in z]
    return float((c - a) / (b - a))


def run_tails(root, ctx):
  """Conditionals far from the limits of the variables remain laws within the limits."""
  import probayes as pb
  import scipy.stats
  kind, u, holder = root
  lims, cov, mean, starts = TAILS[kind]
  names = NAMES[:2]
  rvs = [pb.RV(k, vtype=float, vset=lims) for k in names]
  base = 'conditional sampling in tails {} at {}'.format(kind, u)
  for start in starts:
    rf = pb.RF(*rvs) if holder == 'field' else pb.SP(pb.RF(*rvs))
    rf.set_tran(scipy.stats.multivariate_normal, mean, np.array(cov))
    cur = dict(zip(names, start))
    for rep in range(3):
      with Scripted([u]):
        s = rf.step(dict(cur), {0})
      succ = dict(cur)
      for i, k in enumerate(names):
        o = 1 - i
        got = float(s[k + "'"])
        check(np.isfinite(got) and lims[0] - 1e-9 <= got <= lims[1] + 1e-9, '{}: {} drawn as {} outside {}', base, k, got, lims)
        mu = mean[i] + cov[i][o] / cov[o][o] * (succ[names[o]] - mean[o])
        sd = math.sqrt(cov[i][i] - cov[i][o] ** 2 / cov[o][o])
        f = mills(lims[0], lims[1], mu, sd, got)
        # rounding of values in units of the scale on which the law decays
        check(abs(f - u) <= 1e-6, '{}: {} drawn as {}, which is at {} of its conditional and not {}', base, k, got, f, u)
        succ[k] = got
      judge(s, names, cur, succ, None, base, ctx)
      cur = succ
  ctx.outcome((kind, holder))
  ctx.trace()
  ctx.sample(base)


def run_interp(root, ctx):
  """Sets of values of one variable given the others: grids and random draws by its conditional."""
  import scipy.stats
  from probayes.cond_cov import CondCov
  n, cov, lims, unknown, request, density = root
  C = np.array(COVS[cov])[:n, :n]
  mean = np.array([.5, -.5, .25])[:n]
  bounds = np.array([[-50., 50.], [-1.5, 2.], [-3., 2.5]])[:n] if lims == 'mixed' else np.array([[-1.5, 2.]] * n)
  keep = C.copy(), mean.copy(), bounds.copy()
  obj = CondCov(mean, C, bounds)
  base = '{} of variable {} of {} by {} within {}'.format(request, unknown, n, cov, lims)
  script = [.2, .7, .45]
  for start in PREDS:
    at = [start[k] for k in NAMES[:n]]
    o = [j for j in range(n) if j != unknown]
    A = np.linalg.solve(C[np.ix_(o, o)], C[o, unknown])
    mu = mean[unknown] + A @ (np.array([at[j] for j in o]) - mean[o])
    sd = math.sqrt(C[unknown, unknown] - A @ C[o, unknown])
    lo, hi = [cdf((b - mu) / sd) for b in bounds[unknown]]
    us = {0: script[:1], 3: [0., .5, 1.], 1: [.5], -3: script}[request]
    want = [float(bounds[unknown, int(w)]) if w in (0., 1.) else scipy.stats.norm.ppf(lo + w * (hi - lo), mu, sd) for w in us]
    args = list(at)
    args[unknown] = {request}
    with Scripted(list(script)):
      got = obj.interp(*args, cond_pdf=True)[0] if density else obj.interp(*args)
    check(np.shape(got) == (() if request == 0 else (len(us),)), '{}: shape {}', base, np.shape(got))
    check(np.allclose(np.ravel(got), want, 1e-7, 1e-9), '{}: {} and not {}', base, got, want)
    check(all(np.array_equal(a, b) for a, b in zip(keep, (C, mean, bounds))), '{}: parameters modified', base)
    ctx.state()
    ctx.step()
  ctx.outcome((n, cov, request))
  ctx.trace()
  ctx.sample(base)


def run_custom(root, ctx):
  """Conditional sampling functions: called once per variable, in order, with the latest values."""
  import probayes as pb
  n, tsteps, holder, passing = root
  names = NAMES[:n]
  rvs = [pb.RV(k, vtype=float, vset=[-100., 100.]) for k in names]
  base = 'conditional functions of {} in steps of {} for {} {}'.format(n, tsteps, holder, passing)
  calls = []
  data = np.array([.5, 1.5])

  def cond(unknown=None, x=0., y=0., z=0., extra=0., d=None):
    v = {'x': x, 'y': y, 'z': z}
    calls.append((unknown, tuple(v[k] for k in names), extra))
    return rule(unknown, v, extra)

  def rule(unknown, v, extra):
    return extra + sum((.1 + .2 * j) * v[k] for j, k in enumerate(names) if k != unknown) + .3 * (names.index(unknown) + 1)
  kw = {} if tsteps is None else {'tsteps': tsteps}
  ex = 0.
  if passing == 'keyword':
    kw['extra'], ex = .7, .7
  args, skw = [], {}
  if holder == 'dependence':
    paras = pb.RF(*rvs)
    w = pb.RV('w', vtype=float, vset=(-np.inf, np.inf))
    sp = pb.SP(pb.RF(w), paras)
    sp.set_prob(lambda **v: np.exp(-(v['w'] - sum(v[k] for k in names)) ** 2 / 50.), pscale=1.)
    paras.set_tfun(cond, **kw)
    sp.set_tfun(paras)
    args, skw = [{'w': data}], {'iid': True}
  else:
    sp = pb.SP(pb.RF(*rvs)) if holder == 'process' else pb.RF(*rvs)
    sp.set_tfun(cond, **kw)
    if holder == 'process':
      sp.set_prob(lambda **v: 1. / (1. + sum(v[k] ** 2 for k in names)), pscale=1.)
  start = {k: PREDS[0][k] for k in names}
  cur, pos = dict(start), 0
  gen = sp.sampler(dict(start), *args, **skw) if holder != 'field' else None
  if holder != 'field':
    sp.set_scores('gibbs')
  for rep in range(2 * n + 1):
    keys = names if tsteps is None else names[pos:pos + tsteps]
    if tsteps is not None:
      pos = pos + tsteps if pos + tsteps < n else 0
    succ, want = dict(cur), []
    for k in keys:
      want.append((k, tuple(succ[j] for j in names), ex))
      succ[k] = rule(k, succ, ex)
    del calls[:]
    if holder == 'field':
      step = sp.step(dict(cur), {0}) if rep % 2 else sp.step(dict(cur))
    else:
      got = next(gen)
      step = got.q
      for k in names:
        check(T.close(float(got.p[k]), succ[k], 1e-9, 1e-12), '{}: {} is {} and not {}', base, k, got.p[k], succ[k])
      if holder == 'dependence':
        pw = math.prod(math.exp(-(dv - sum(succ[k] for k in names)) ** 2 / 50.) for dv in data)
        check(T.close(float(got.p.prob), pw, 1e-8), '{}: probability {} and not {}', base, got.p.prob, pw)
      else:
        check(T.close(float(got.p.prob), 1. / (1. + sum(succ[k] ** 2 for k in names)), 1e-8), '{}: probability {}', base, got.p.prob)
      check(got.u is True and got.v is got.p, '{}: update {}', base, got.u)
    judge(step, names, cur, succ, None, '{} at {}'.format(base, rep), ctx)
    check([c[0] for c in calls] == [c[0] for c in want] and
          all(np.allclose(a[1], b[1]) and a[2] == b[2] for a, b in zip(calls, want)), '{}: called {} and not {}', base, calls, want)
    cur = succ
  ctx.outcome((n, tsteps, holder))
  ctx.trace()
  ctx.sample(base)


def run_inherited(root, ctx):
  """Fields of one variable step by the transition of the variable, on their own scale."""
  import probayes as pb
  kind, form, vscale, fscale, holder = root
  k = {'pscale': SCALES[vscale] or 1.}
  if kind == 'ints':
    rv = pb.RV('x', vtype=int, vset=[1, 4, 6], **k)
    values = [1, 4, 6]
  else:
    rv = pb.RV('x', vtype=float, vset=[-10., 10.], **k)
    values = [-.75, 1., 2.5]
  m = np.array([[.2, .5, .25], [.3, .1, .65], [.5, .4, .1]])
  r = np.array([[.6, .3, .2], [.15, .5, .1], [.25, .2, .7]])
  f = lambda a, b, rev=False: float(law({'x': a, "x'": b}, ['x'], rev))
  if form == 'matrix':
    rv.set_tran(scaled(m, vscale))
    f = lambda a, b, rev=False: m[values.index(b), values.index(a)]
  elif form == 'matrices':
    rv.set_tran((scaled(m, vscale), scaled(r, vscale)))
    f = lambda a, b, rev=False: (r if rev else m)[values.index(b), values.index(a)]
  elif form == 'constant':
    rv.set_tran(float(scaled(.35, vscale)))
    f = lambda a, b, rev=False: .35
  elif form == 'constants':
    rv.set_tran((float(scaled(.35, vscale)), float(scaled(.15, vscale))))
    f = lambda a, b, rev=False: .15 if rev else .35
  elif form == 'single':
    rv.set_tran(lambda **v: scaled(law(v, ['x']), vscale))
  elif form == 'pair':
    rv.set_tran((lambda **v: scaled(law(v, ['x']), vscale), lambda **v: scaled(law(v, ['x'], True), vscale)))
    f = lambda a, b, rev=False: float(law({'x': a, "x'": b}, ['x'], rev))
  rf = pb.RF(rv) if holder == 'field' else (pb.SD(pb.RF(rv)) if holder == 'dependence' else pb.SP(pb.RF(rv)))
  rf.set_prob(lambda x: scaled(.1 + .01 * x * x, fscale), pscale=SCALES[fscale] or 1.)
  base = '{} of a variable with {} {} on {}, on {}'.format(holder, kind, form, vscale, fscale)
  for a, b in itertools.product(values, repeat=2):
    judge(rf.step({'x': a}, {'x': b}), ['x'], {'x': a}, {'x': b}, f(a, b), base, ctx)
    if form in ('matrices', 'pair', 'constants'):
      judge(rf.step({'x': a}, {'x': b}, reverse=True), ['x'], {'x': a}, {'x': b}, f(a, b, True), base + ' in reverse', ctx)
      d = rf.reval_tran(rf.step({'x': a}, {'x': b}))
      check(set(d.marg) == {'x'} and set(d.cond) == {"x'"}, "{}: reverse is p({}|{})", base, list(d.marg), list(d.cond))
      check(T.close(T.to_linear(float(d.prob), d.pscale), f(a, b, True), 1e-8, 1e-12), '{}: reverse probability {}', base, d)
  if form in ('matrix', 'matrices'):
    for a in values:
      i = values.index(a)
      for u in (.1, .35, .58, .8, .93):
        for rev in (False, True)[:1 + (form == 'matrices')]:
          c = np.cumsum((r if rev else m)[:, i])
          b = values[int(np.sum(u >= c))]
          with Scripted([u]):
            s = rf.step({'x': a}, {0}, reverse=rev)
          judge(s, ['x'], {'x': a}, {'x': b}, f(a, b, rev), '{} drawn by {}'.format(base, u), ctx)
  ctx.outcome((kind, form))
  ctx.trace()
  ctx.sample(base)


def spaces(tier):
  full = tier != 'quick'
  forms = ('single', 'pair', 'order', 'rename', 'delta', 'extra', 'scalar', 'scalars')
  pr = [(n, f, s, h) for n in (1, 2, 3) for f in forms for s in SCALES for h in ('field', 'process', 'dependence')
        if full or h != 'dependence' or s in ('one', 'log')]
  cv = [(n, c, f, h, w) for n in (1, 2, 3) for c in COVS for f in ('fixed', 'scalar', 'callable', 'random') for h in ('field', 'process')
        for w in ('covariance', 'lower', 'upper')]
  us = [.02, .3, .5, .71, .97] + ([.001, .11, .6, .85, .999] if full else [])
  ga = [(n, c, l, t, u, h) for n in (2, 3) for c in COVS for l in ('wide', 'tight', 'inf', 'half', 'tight-neg', 'tight-affine-all', 'half-neg-all', 'tight-cube')
        for t in (None, 1, 2, 3)[:n + 1]
        for u in us for h in (('field', 'process') if full or u == .3 else ('field',))]
  cu = [(n, t, h, p) for n in (2, 3) for t in (None, 1, 2, 3)[:n + 1] for h in ('field', 'process', 'dependence') for p in ('plain', 'keyword')]
  inh = [(kf[0], kf[1], v, f, h) for kf in (('ints', 'matrix'), ('ints', 'matrices'), ('ints', 'constant'), ('ints', 'constants'), ('ints', 'single'),
                                            ('ints', 'pair'), ('float', 'constant'), ('float', 'constants'), ('float', 'single'), ('float', 'pair'))
         for v in SCALES for f in SCALES for h in ('field', 'dependence', 'process')]
  un = [(k, s, h) for k in (('flat', 'flat'), ('bool', 'ints'), ('flat', 'ints'), ('even', 'bool', 'flat'))
        for s in itertools.product(('one', 'log', 'half', 'offs'), repeat=len(k)) if full or len(k) < 3 or len(set(s)) < 2
        for h in ('field', 'process', 'dependence')]
  return [Space('unspecified', un, run_unspecified, 'all pairs of values of fields without transition functions x scales'),
          Space('inherited', inh, run_inherited, 'all transitions of one variable on all pairs of scales of variable and field'),
          Space('probabilities', pr, run_prob, 'all forms x scales x requests for fields of 1-3 variables'),
          Space('covariances', cv, run_cov, 'all delta forms for covariances and triangular factors of 1-3 variables'),
          Space('conditionals', ga, run_gauss, 'all covariances x limits x step sizes x draws, four steps each'),
          Space('tails', [(k, u, h) for k in TAILS for u in us for h in ('field', 'process')], run_tails,
                'all truncated laws with conditionals far outside the limits x draws, three steps each'),
          Space('sets', [(n, c, l, i, r, d) for n in (2, 3) for c in COVS for l in ('mixed', 'tight') for i in range(n)
                         for r in (0, 1, 3, -3) for d in (False, True)], run_interp,
                'all requests of values of one variable given the others'),
          Space('functions', cu, run_custom, 'all step sizes of conditional functions of 2-3 variables, two cycles and more')]
