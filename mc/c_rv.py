"""Random variables: the probability of every value, and sampling by it."""
import itertools
import math

import numpy as np

from mc.core import Space, check
from mc import table as T
from mc.rng import Scripted
from mc.c_var import UFUNS, set_ufun, vset_of, grid

PROPERTY = 'P11'
ASSUMPTIONS = ['random draws are answered by every script of a finite set',
               'densities agree to 1e-8']

SCALES = {'one': None, 'log': 'log', 'half': .5, 'four': 4., 'offs': complex(2.5, 0.), 'noffs': complex(1.5, 1.)}


def pscale(name):
  return SCALES[name]


def on_scale(p, name):
  """The number that stands for probability p on a scale."""
  s = SCALES[name]
  if s is None:
    return p
  if s == 'log':
    return math.log(p) if p > 0 else -1.7976931348623157e308
  if isinstance(s, complex):
    off = s.real if s.imag == 0 else -s.real
    return math.log(p) - off if p > 0 else -1.7976931348623157e308
  return p / s


def kw(name):
  return {} if SCALES[name] is None else {'pscale': SCALES[name]}


def judge(dist, name, want, what, ctx):
  """dist is p(name) with `want` = list of (value, probability) or one pair."""
  tb = T.of_pd(dist, what)
  check(tb.marg == [name] and not tb.cond, '{}: variables {}|{}', what, tb.marg, tb.cond)
  vals = dist[name]
  scalar = not isinstance(want, list)
  pairs = [want] if scalar else want
  check((np.ndim(vals) == 0) == scalar, '{}: values {} of dimension {}', what, vals, np.ndim(vals))
  got = [T.py(v) for v in np.ravel(vals)]
  check(len(got) == len(pairs) and all(T.same_value(a, b) for a, (b, _) in zip(got, pairs)),
        '{}: values {} and not {}', what, got, [b for b, _ in pairs])
  prob = dist.prob
  ps = [T.to_linear(p, dist.pscale) for p in np.ravel(prob)]
  check(len(ps) == len(pairs) and np.shape(prob) == np.shape(vals), '{}: probabilities of shape {} for values of shape {}',
        what, np.shape(prob), np.shape(vals))
  for (v, w), p in zip(pairs, ps):
    check(T.close(p, w, 1e-8, 1e-12), '{}: probability of {} is {} and not {}', what, v, p, w)
    ctx.state()
    ctx.outcome((what[:40], round(p, 9)))
  ctx.step()


def queries(rv, name, pmf, values, outside, what, ctx, whole=None, serial=True):
  """Asks for the probability of scalars, arrays, mixtures and dictionaries."""
  for v in values + outside:
    judge(rv(v), name, (v, pmf(v)), '{} at {}'.format(what, v), ctx)
    judge(rv({name: v}), name, (v, pmf(v)), '{} at dict {}'.format(what, v), ctx)
  mix = values + outside + values[::-1]
  arr = np.array(mix)
  keep = arr.copy()
  judge(rv(arr), name, [(v, pmf(v)) for v in mix], '{} of an array'.format(what), ctx)
  judge(rv({rv: arr}), name, [(v, pmf(v)) for v in mix], '{} of an array by variable'.format(what), ctx)
  check(np.array_equal(arr, keep), '{}: values were modified', what)
  judge(rv(arr[:1]), name, [(mix[0], pmf(mix[0]))], '{} of one-element array'.format(what), ctx)
  if whole is not None:
    judge(rv(), name, [(v, pmf(v)) for v in whole], '{} of the whole set'.format(what), ctx)
    for n in (1, 2, len(whole) + 1) if serial else ():
      seq = [whole[i % len(whole)] for i in range(n)]
      judge(rv({n}), name, [(v, pmf(v)) for v in seq], '{} of {} values'.format(what, n), ctx)


INTS = {'01': [0, 1], '205': [2, 0, 5], '7': [7], 'r4': [0, 1, 2, 3], 'neg': [-2, 3], 'many': [9, -4, 30, 2, 0, 17, -12, 6, 1, 25, 3, -20, 8]}


def run_discrete(root, ctx):
  import probayes as pb
  import scipy.stats
  import sympy
  vname, form, scale, how = root
  isbool = vname == 'bool'
  vals = [False, True] if isbool else INTS[vname]
  n = len(vals)
  ps = T.generic_probs(n)
  tot = sum(ps)
  ps = [p / tot for p in ps]
  table = dict(zip(vals, ps))
  args, kwds = (), kw(scale)
  outside = [] if isbool else [11, -9, 4]
  log = SCALES[scale] is not None and (SCALES[scale] == 'log' or isinstance(SCALES[scale], complex))
  if form == 'default':
    prob = None
    pmf = lambda v: 1. / n if v in vals else 0.
  elif form == 'scalar':
    b = .3 if isbool else .125
    prob = on_scale(b, scale)
    pmf = (lambda v: b if v else 1 - b) if isbool else (lambda v: b if v in vals else 0.)
  elif form == 'scalar-half':
    prob = on_scale(.5, scale)
    pmf = lambda v: .5 if v in vals else 0.
  elif form == 'array':
    prob = np.array([on_scale(p, scale) for p in ps])
    pmf = lambda v: table.get(v, 0.)
  elif form == 'function':
    def prob(x):
      p = (np.asarray(x, dtype=float) % 7 + 1.) / 64.
      return np.log(p) - (0 if scale == 'log' else _offs(scale)) if log else p / (1. if scale == 'one' else SCALES[scale])
    pmf = lambda v: (v % 7 + 1.) / 64.
  elif form == 'function-args':
    def prob(x, a, b=1.):
      p = (a * np.asarray(x, dtype=float) % 7 + b) / 64.
      return np.log(p) - (0 if scale == 'log' else _offs(scale)) if log else p / (1. if scale == 'one' else SCALES[scale])
    args, kwds = (2.,), dict(kwds, b=3.)
    pmf = lambda v: (2. * v % 7 + 3.) / 64.
  elif form == 'scipy':
    if isbool:
      prob = scipy.stats.bernoulli
      kwds = dict(kwds, p=.3)
      pmf = lambda v: .3 if v else .7
    else:
      prob = scipy.stats.binom
      kwds = dict(kwds, n=5, p=.25)
      pmf = lambda v: math.comb(5, v) * .25 ** v * .75 ** (5 - v) if 0 <= v <= 5 else 0.
  elif form == 'symbolic':
    prob = 'symbolic'
    pmf = lambda v: (v * v + 1.) / 128.
  what = '{} {} {} {}'.format(vname, form, scale, how)
  sets = {} if isbool else {'vset': list(vals)}
  vt = bool if isbool else int
  if prob == 'symbolic' if isinstance(prob, str) else False:
    rv = pb.RV('k', vtype=vt, **sets, **kwds)
    e = (rv[:] + 1) / 128 if isbool else (rv[:] ** 2 + 1) / 128
    rv.set_prob(sympy.log(e) - (0 if scale == 'log' else _offs(scale)) if log else
                e / (1. if scale == 'one' else SCALES[scale]), **kwds)
  elif how == 'constructor':
    rv = pb.RV('k', vtype=vt, **sets, prob=prob, **kwds) if not args else pb.RV('k', sets.get('vset'), vt, prob, *args, **kwds)
  else:
    rv = pb.RV('k', vtype=vt, **sets)
    rv.set_prob(prob, *args, **kwds)
  queries(rv, 'k', pmf, vals, outside, what, ctx, whole=vals, serial=form != 'scipy')
  if form in ('default', 'array', 'scalar-half') and (form != 'scalar-half' or isbool):
    tot = sum(T.to_linear(p, rv.pscale) for p in np.ravel(rv().prob))
    check(T.close(tot, 1., 1e-9), '{}: probabilities sum to {}', what, tot)
  # random values always belong to the set, and carry their own probability
  for us in itertools.product((.02, .4, .97), repeat=2):
    for m in (0, -1, -4):
      with Scripted(us):
        if form == 'scipy':
          continue
        d = rv({m})
      got = [T.py(v) for v in np.ravel(d['k'])]
      check(all(v in vals for v in got) and len(got) == max(1, -m), '{}: random values {}', what, got)
      judge(d, 'k', [(v, pmf(v)) for v in got] if m else (got[0], pmf(got[0])), what + ' random', ctx)
  # booleans are drawn according to their bias
  if isbool and form == 'scalar':
    us = [(i + .5) / 20 for i in range(20)]
    with Scripted(us):
      d = rv({-20})
    check(int(np.sum(d['k'])) == 6, '{}: {} of 20 equally spaced draws are true', what, np.sum(d['k']))
    hits = 0
    for u in us:
      with Scripted([u]):
        hits += bool(rv({0})['k'])
    check(hits == 6, '{}: {} of 20 scalar draws are true', what, hits)
  ctx.trace()
  ctx.sample(what)


def _offs(scale):
  s = SCALES[scale]
  return s.real if s.imag == 0 else -s.real


def run_misfit(root, ctx):
  """Arrays without one probability for every value of the set are refused."""
  import probayes as pb
  vname, n, scale, how = root
  vals = [False, True] if vname == 'bool' else INTS[vname]
  prob = np.array([on_scale(1. / max(1, n), scale)] * n)
  vt, sets = (bool, {}) if vname == 'bool' else (int, {'vset': list(vals)})
  rv = pb.RV('k', vtype=vt, **sets)
  if how == 'again':
    rv.set_prob(np.array([on_scale(1. / len(vals), scale)] * len(vals)), **kw(scale))
  try:
    if how == 'constructor':
      rv = pb.RV('k', vtype=vt, **sets, prob=prob, **kw(scale))
    else:
      rv.set_prob(prob, **kw(scale))
  except Exception:
    ctx.step()
    ctx.state()
    ctx.trace()
    return
  check(False, '{} probabilities are taken for {} values', n, len(vals))


def run_flat(root, ctx):
  """Flat densities over (transformed) intervals."""
  import probayes as pb
  lo, hi, o0, o1, uname, scale, form = root
  fwd, inv = UFUNS[uname]
  u0, u1 = fwd(lo), fwd(hi)
  kwds = kw(scale)
  d = 1. / abs(u1 - u0)
  if form == 'scalar':
    d = .375
    rv = pb.RV('x', vtype=float, vset=vset_of(lo, hi, o0, o1, 'list'), prob=on_scale(d, scale), **kwds)
  elif form == 'later':
    rv = pb.RV('x', vtype=float, **kwds)
    rv.vset = vset_of(lo, hi, o0, o1, 'list')
  else:
    rv = pb.RV('x', vset=vset_of(lo, hi, o0, o1, 'list'), **kwds)
  if uname is not None:
    set_ufun(rv, uname)
  what = 'flat on {} open {} ufun {} scale {} {}'.format((lo, hi), (o0, o1), uname, scale, form)
  pmf = lambda v: d if (lo < v < hi or v == lo and not o0 or v == hi and not o1) else 0.
  vals = [lo, hi, (lo + hi) / 2, lo + .001 * (hi - lo), hi - .001 * (hi - lo)]
  queries(rv, 'x', pmf, vals, [lo - .01, hi + .01, hi + 50.], what, ctx)
  for n in (1, 2, 4):
    g = [inv(t) for t in grid(u0, u1, n, o0, o1)]
    out = rv({n})
    got = [float(v) for v in out['x']]
    check(len(got) == n and all(T.close(a, b, 1e-9, 1e-9) for a, b in zip(got, g)), '{}: grid {} and not {}', what, got, g)
    ps = [T.to_linear(p, out.pscale) for p in np.ravel(out.prob)]
    for v, p in zip(got, ps):
      edge = min(abs(v - lo), abs(v - hi)) < 1e-9 * max(1., abs(v))
      check(T.close(p, d, 1e-8) or edge and p == 0., '{}: density {} at {}', what, p, v)
    ctx.state(n)
  for us in ((.25,), (.5, .75)):
    for m in (0, -2):
      with Scripted(us):
        out = rv({m})
      for v, p in zip(np.ravel(out['x']), np.ravel(out.prob)):
        f = (fwd(float(v)) - u0) / (u1 - u0)
        check(any(T.close(f, w, 1e-9, 1e-9) for u in us for w in (u, 1 - u)), '{}: draws {} give {}', what, us, v)
        check(T.close(T.to_linear(p, out.pscale), d, 1e-8), '{}: random value has density {}', what, p)
        ctx.state()
  ctx.trace()


def dists():
  import scipy.stats as ss
  import sympy.stats as sy
  nrm = lambda m, s: (lambda x: math.exp(-.5 * ((x - m) / s) ** 2) / (s * math.sqrt(2 * math.pi)))
  ncdf = lambda m, s: (lambda x: .5 * (1 + math.erf((x - m) / (s * math.sqrt(2)))))
  return {
      'norm': (lambda pb, k, lims: pb.RV('x', vtype=float, vset=lims, prob=ss.norm, **k), nrm(0, 1), ncdf(0, 1)),
      'norm-kw': (lambda pb, k, lims: pb.RV('x', vtype=float, vset=lims, prob=ss.norm, loc=1., scale=2., **k),
                  nrm(1., 2.), ncdf(1., 2.)),
      'norm-set': (lambda pb, k, lims: _set(pb.RV('x', vset=lims, **k), ss.norm, loc=.25, scale=1.5),
                   nrm(.25, 1.5), ncdf(.25, 1.5)),
      'expon': (lambda pb, k, lims: pb.RV('x', vtype=float, vset=lims, prob=ss.expon, loc=-3., scale=2., **k),
                lambda x: math.exp(-(x + 3.) / 2.) / 2. if x >= -3. else 0.,
                lambda x: 1 - math.exp(-(x + 3.) / 2.) if x >= -3 else 0.),
      'uniform': (lambda pb, k, lims: pb.RV('x', vtype=float, vset=lims, prob=ss.uniform, loc=-4., scale=8., **k),
                  lambda x: .125, lambda x: (x + 4.) / 8.),
      'sy-normal': (lambda pb, k, lims: _sym(pb, lims, lambda s: sy.Normal(s, 1, 2), k), nrm(1., 2.), ncdf(1., 2.)),
      'sy-logistic': (lambda pb, k, lims: _sym(pb, lims, lambda s: sy.Logistic(s, 0, 1), k),
                      lambda x: math.exp(-x) / (1 + math.exp(-x)) ** 2, lambda x: 1 / (1 + math.exp(-x))),
      'user-pfun': (lambda pb, k, lims: _pfun(pb, lims, k), lambda x: math.exp(-x) / (1 + math.exp(-x)) ** 2,
                    lambda x: 1 / (1 + math.exp(-x))),
  }


def _set(rv, *args, **kwds):
  rv.set_prob(*args, **kwds)
  return rv


def _sym(pb, lims, make, k):
  rv = pb.RV('x', vtype=float, vset=lims, **k)
  rv.set_prob(make(rv[:]), **k)
  return rv


def _pfun(pb, lims, k):
  pdf = lambda x: np.exp(-x) / (1 + np.exp(-x)) ** 2
  rv = pb.RV('x', vtype=float, vset=lims, prob=(lambda x: np.log(pdf(x))) if k else pdf, **k)
  rv.set_pfun((lambda x: 1 / (1 + np.exp(-np.asarray(x, dtype=float))), lambda p: np.log(p / (1 - p))))
  return rv


def run_density(root, ctx):
  """Densities of distributions, and values spaced by cumulative probability."""
  import probayes as pb
  dname, scale, lo, hi, o0, o1 = root
  make, pdf, cdf = dists()[dname]
  rv = make(pb, kw(scale), vset_of(lo, hi, o0, o1, 'list'))
  what = '{} scale {} on {} open {}'.format(dname, scale, (lo, hi), (o0, o1))
  pts = [lo, lo + .3 * (hi - lo), (lo + hi) / 2, hi]
  for v in pts:
    judge(rv(v), 'x', (v, pdf(v)), '{} at {}'.format(what, v), ctx)
  judge(rv(np.array(pts)), 'x', [(v, pdf(v)) for v in pts], what, ctx)
  c0, c1 = cdf(lo), cdf(hi)
  for n in (1, 2, 3, 5):
    out = rv({n})
    got = [float(v) for v in out['x']]
    want = grid(c0, c1, n, o0, o1)
    check(len(got) == n and all(T.close(cdf(v), c, 1e-7, 1e-9) for v, c in zip(got, want)),
          '{}: {} values {} have cumulative probabilities {} and not {}', what, n, got, [cdf(v) for v in got], want)
    judge(out, 'x', [(v, pdf(v)) for v in got], what + ' spaced', ctx)
  for us in ((.5,), (.1,), (.3, .8)):
    for m in (0, -1, -2):
      with Scripted(us):
        out = rv({m})
      got = [float(v) for v in np.ravel(out['x'])]
      for v in got:
        f = (cdf(v) - c0) / (c1 - c0)
        check(any(T.close(f, w, 1e-7, 1e-9) for u in us for w in (u, 1 - u)), '{}: draws {} give {} ({})', what, us, v, f)
        check(lo - 1e-9 <= v <= hi + 1e-9, '{}: random value {} outside', what, v)
      judge(out, 'x', [(v, pdf(v)) for v in got] if m else (got[0], pdf(got[0])), what + ' random', ctx)
  ctx.trace()


IMPLICIT = {
    'exp': (lambda s: s.exp, math.exp, math.exp),
    'exp-': (lambda s: lambda x: s.exp(-x), lambda v: math.exp(-v), lambda v: math.exp(-v)),
    'log': (lambda s: s.log, math.log, lambda v: 1. / v),
    'recip': (lambda s: lambda x: 1 / x, lambda v: 1. / v, lambda v: 1. / v ** 2),
    'affine': (lambda s: lambda x: 2 * x + 1, lambda v: 2 * v + 1, lambda v: 2.),
    'neg': (lambda s: lambda x: -x, lambda v: -v, lambda v: 1.),
    'arcsine': (lambda s: lambda x: s.asin(s.sqrt(x / 10)), lambda v: math.asin(math.sqrt(v / 10.)),
                lambda v: .5 / math.sqrt(v * (10. - v))),
}


def run_implicit(root, ctx):
  """Densities implied by a transformation without change of variables."""
  import probayes as pb
  import sympy
  for o0, o1, before in itertools.product((False, True), (False, True), (None, 'exp')):
    implicit(pb, sympy, root, o0, o1, before, ctx)


def implicit(pb, sympy, root, o0, o1, before, ctx):
  uname, lo, hi, scale = root
  make, num, der = IMPLICIT[uname]
  rv = pb.RV('x', vtype=float, vset=vset_of(lo, hi, o0, o1, 'list'), **kw(scale))
  if before:
    rv.set_ufun(IMPLICIT[before][0](sympy)(rv[:]), no_ucov=True)
  rv.set_ufun(make(sympy)(rv[:]), no_ucov=True)
  pdf = lambda v: abs(der(v)) / abs(num(hi) - num(lo))
  what = 'implied by {} on {} open {} scale {}'.format(uname, (lo, hi), (o0, o1), scale)
  pts = [lo + .01, lo + .3 * (hi - lo), (lo + hi) / 2, hi - .01]
  for v in pts:
    judge(rv(v), 'x', (v, pdf(v)), '{} at {}'.format(what, v), ctx)
  judge(rv(np.array(pts)), 'x', [(v, pdf(v)) for v in pts], what, ctx)
  for n in (1, 2, 5):
    out = rv({n})
    got = [float(v) for v in out['x']]
    want = grid(lo, hi, n, o0, o1)
    check(len(got) == n and all(T.close(a, b, 1e-9, 1e-9) for a, b in zip(got, want)),
          '{}: grid {} and not {}', what, got, want)
    judge(out, 'x', [(v, pdf(v)) for v in got], what + ' on a grid', ctx)
  rv.set_ufun(None)
  flat = 1. / (hi - lo)
  judge(rv((lo + hi) / 2), 'x', ((lo + hi) / 2, flat), what + ' after removal', ctx)
  ctx.trace()


def run_prob(root, ctx):
  """Prob objects without variables, evaluated on any requested scale."""
  import probayes as pb
  import scipy.stats as ss
  import sympy
  import sympy.stats as sy
  form, scale, ask = root
  log = SCALES[scale] == 'log' or isinstance(SCALES[scale], complex)
  pdf = lambda x: math.exp(-.5 * ((x - 1.) / 2.) ** 2) / (2. * math.sqrt(2 * math.pi))
  if form == 'scipy':
    pr = pb.Prob(ss.norm, loc=1., scale=2., **kw(scale))
  elif form == 'sympy':
    pr = pb.Prob(sy.Normal(sympy.Symbol('x'), 1, 2), **kw(scale))
  else:
    base = lambda x: np.exp(-.5 * ((np.asarray(x) - 1.) / 2.) ** 2) / (2. * math.sqrt(2 * math.pi))
    off = _offs(scale) if isinstance(SCALES[scale], complex) else 0.
    if log:
      pr = pb.Prob(lambda x: np.log(base(x)) - off, **kw(scale))
    else:
      pr = pb.Prob(lambda x: base(x) / (SCALES[scale] or 1.), **kw(scale))
  for v in (0., 1., -2.5, np.array([0., 1., 3.]), np.array([[1.], [2.]])):
    k = {} if ask is None else {'pscale': SCALES[ask]} if SCALES[ask] is not None else {'pscale': 1.}
    out = pr(v, **k)
    ctx.step()
    ps = pr.pscale if ask is None else (1. if SCALES[ask] is None else 0.j if SCALES[ask] == 'log' else SCALES[ask])
    check(np.shape(out) == np.shape(v), 'shape {} for {}', np.shape(out), v)
    for x, p in zip(np.ravel(v), np.ravel(out)):
      lin = T.to_linear(float(p), ps)
      check(T.close(lin, pdf(float(x)), 1e-8), '{} on {} asked on {}: {} and not {}', form, scale, ask, lin, pdf(float(x)))
      ctx.state()
      ctx.outcome((form, scale, ask, round(lin, 9)))
  ctx.trace()


MEMBERS = {
    # name: (symbolic distribution, same by scipy, points, whether SymPy inverts its cumulative function)
    'normal': (lambda y, s: y.Normal(s, 1, 2), lambda ss: ss.norm(1, 2), (-2., .5, 1., 4.), True),
    'logistic': (lambda y, s: y.Logistic(s, 0, 1), lambda ss: ss.logistic(), (-2., 0., .5), True),
    'exponential': (lambda y, s: y.Exponential(s, 2), lambda ss: ss.expon(scale=.5), (.1, .5, 3.), True),
    'uniform': (lambda y, s: y.Uniform(s, -1, 3), lambda ss: ss.uniform(-1, 4), (-.5, 0., 2.5), True),
    'laplace': (lambda y, s: y.Laplace(s, 0, 2), lambda ss: ss.laplace(0, 2), (-3., 0., .25, 4.), True),
    'cauchy': (lambda y, s: y.Cauchy(s, 0, 2), lambda ss: ss.cauchy(0, 2), (-3., 0., .25), True),
    'rayleigh': (lambda y, s: y.Rayleigh(s, 2), lambda ss: ss.rayleigh(scale=2), (.5, 1., 4.), True),
    'gumbel': (lambda y, s: y.Gumbel(s, 2, 1), lambda ss: ss.gumbel_r(1, 2), (-1., 0., 3.), True),
    'lognormal': (lambda y, s: y.LogNormal(s, 0, 1), lambda ss: ss.lognorm(1), (.25, 1., 3.), True),
    'pareto': (lambda y, s: y.Pareto(s, 1, 3), lambda ss: ss.pareto(3), (1.5, 2., 5.), True),
    'gamma': (lambda y, s: y.Gamma(s, 2, .5), lambda ss: ss.gamma(2, scale=.5), (.25, 1., 3.), None),
    'student': (lambda y, s: y.StudentT(s, 5), lambda ss: ss.t(5), (-1., 0., 2.), None),
    'chi': (lambda y, s: y.ChiSquared(s, 3), lambda ss: ss.chi2(3), (.5, 1., 4.), None),
    'beta': (lambda y, s: y.Beta(s, 2, 3), lambda ss: ss.beta(2, 3), (.25, .5, .9), None),
    'poisson': (lambda y, s: y.Poisson(s, 2.5), lambda ss: ss.poisson(2.5), (0, 1, 2, 5), None),
    'geometric': (lambda y, s: y.Geometric(s, .3), lambda ss: ss.geom(.3), (1, 2, 5), None),
}


def run_members(root, ctx):
  """Every member of symbolic and numeric distributions, alone, as probabilities and as those of variables."""
  import probayes as pb
  import scipy.stats as ss
  import sympy
  import sympy.stats as sy
  name, holder, scale = root
  make, other, pts, invertible = MEMBERS[name]
  ref = other(ss)
  disc = isinstance(pts[0], int)
  want = {'prob': ref.pmf if disc else ref.pdf, 'logp': ref.logpmf if disc else ref.logpdf, 'cdf': ref.cdf, 'icdf': ref.ppf}
  what = '{} as {} on {}'.format(name, holder, scale)
  if holder == 'rv':
    first = int(ref.support()[0]) if disc else 0
    rv = pb.RV('x', vtype=int, vset=list(range(first, 8)), **kw(scale)) if disc else \
        pb.RV('x', vtype=float, vset=[min(pts), max(pts)], **kw(scale))
    rv.set_prob(make(sy, rv[:]), **kw(scale))
    for v in pts:
      judge(rv(v), 'x', (v, float(want['prob'](v))), '{} at {}'.format(what, v), ctx)
    judge(rv(np.array(pts)), 'x', [(v, float(want['prob'](v))) for v in pts], what, ctx)
    for req in ({1}, {3}, {4}, {-2}, {0}) if not disc else (None,):
      if req is None:
        out = rv()
        got = list(range(first, 8))
      else:
        with Scripted((.4, .7)):
          out = rv(req)
        got = [float(v) for v in np.ravel(out['x'])]
        n = abs(list(req)[0]) or 1
        check(len(got) == n and all(min(pts) - 1e-9 <= v <= max(pts) + 1e-9 for v in got), '{} for {}: values {}', what, req, got)
        if invertible and list(req)[0] > 0:
          c0, c1 = float(ref.cdf(min(pts))), float(ref.cdf(max(pts)))
          for v, c in zip(got, grid(c0, c1, n, False, False)):
            check(T.close(float(ref.cdf(v)), c, 1e-6, 1e-8), '{} for {}: {} has cumulative probability {} and not {}', what, req,
                  v, float(ref.cdf(v)), c)
      pairs = [(v, float(want['prob'](v))) for v in got]
      judge(out, 'x', pairs if np.ndim(out['x']) else pairs[0], '{} for {}'.format(what, req), ctx)
    ctx.trace()
    return
  d = make(sy, sympy.Symbol('x'))
  if holder == 'plain':
    obj = pb.SympyProb(d)
    check(obj[[]] is d and obj[None] is obj[:], '{}: members', what)
  else:
    obj = pb.Prob(d, **kw(scale))
    check(obj[set()] is d, '{}: members', what)
    log = obj.pscale.__class__ is complex
    for v in pts:
      got = T.to_linear(float(obj(v)), obj.pscale)
      check(T.close(got, float(want['prob'](v)), 1e-8), '{}: {} at {} and not {}', what, got, v, float(want['prob'](v)))
      got = float(obj.pr(v))
      w = float(want['logp' if log else 'prob'](v))
      check(T.close(got, w, 1e-7, 1e-9), '{}: expression {} at {} and not {}', what, got, v, w)
      ctx.state()
  keys = list(obj[''])
  check('prob' in keys and 'logp' in keys, '{}: members {}', what, keys)
  check(not invertible or 'icdf' in keys, '{}: members {}', what, keys)
  for key in keys:
    if key not in want:
      continue
    at = (.05, .1, .25, .5, .6, .9, .99) if key == 'icdf' else pts
    w = [float(want[key](v)) for v in at]
    for got in ([float(obj[key](v)) for v in at], np.asarray(obj[key](np.array(at)), dtype=float).tolist(),
                [float(obj[key](x=v)) for v in at] if key != 'icdf' else w):
      check(all(T.close(a, b, 1e-6, 1e-8) for a, b in zip(got, w)) and len(got) == len(w), '{}: {} of {} is {} and not {}',
            what, key, at, got, w)
      ctx.step()
    ctx.outcome((name, key))
  lo, hi = ref.support()
  if 'sfun' in keys and name != 'logistic':  # SymPy itself cannot draw from this one
    for size in (None, 1, 3):
      got = obj['sfun']() if size is None else obj['sfun'](size=size)
      check(np.shape(got) == (() if size is None else (size,)) or (size and len(got) == size), '{}: draws {} for {}', what, got, size)
      check(all(lo - 1e-9 <= float(v) <= hi + 1e-9 for v in np.ravel(got)), '{}: draws {} outside ({}, {})', what, got, lo, hi)
      ctx.step()
  ctx.trace()


NUMERIC = {
    'norm': (dict(loc=1., scale=2.), (-1., 0., 3.)), 'expon': (dict(scale=.5), (.1, 1., 2.)), 'beta': (dict(a=2., b=3.), (.2, .5, .7)),
    'poisson': (dict(mu=2.5), (0, 1, 4)), 'geom': (dict(p=.3), (1, 2, 6)), 't': (dict(df=5.), (-1., 0., 2.)),
}


def run_numeric(root, ctx):
  """Every member of a SciPy distribution, bound to its parameters."""
  import probayes as pb
  import scipy.stats as ss
  name, scale = root
  params, pts = NUMERIC[name]
  ref = getattr(ss, name)(**params)
  obj = pb.Prob(getattr(ss, name), **params, **kw(scale))
  disc = isinstance(pts[0], int)
  names = {'prob': 'pmf' if disc else 'pdf', 'logp': 'logpmf' if disc else 'logpdf'}
  for key in ('prob', 'logp', 'pmf', 'pdf', 'logpmf', 'logpdf', 'cdf', 'logcdf', 'sf', 'logsf', 'ppf', 'isf'):
    if key in ('pdf', 'logpdf') and disc or key in ('pmf', 'logpmf') and not disc:
      continue
    f = getattr(ref, names.get(key, key))
    at = (.1, .5, .9) if key in ('ppf', 'isf') else pts
    for got, want in [([float(obj[key](v)) for v in at], [float(f(v)) for v in at]),
                      (np.asarray(obj[key](np.array(at))).tolist(), f(np.array(at)).tolist())]:
      check(np.allclose(got, want), '{} on {}: {} of {} is {} and not {}', name, scale, key, at, got, want)
      ctx.step()
      ctx.state()
    ctx.outcome((name, key))
  for v in pts:
    got = T.to_linear(float(obj(v)), obj.pscale)
    check(T.close(got, float(getattr(ref, names['prob'])(v)), 1e-8), '{} on {} at {}: {}', name, scale, v, got)
  for key, v in (('mean', ref.mean()), ('var', ref.var()), ('std', ref.std()), ('median', ref.median())):
    if key in obj.keys:
      check(T.close(float(obj[key]()), float(v)), '{}: {} is {} and not {}', name, key, obj[key](), v)
  ctx.trace()


def spaces(tier):
  full = tier != 'quick'
  disc = []
  for v in ['bool'] + list(INTS):
    for form in ('default', 'scalar', 'scalar-half', 'array', 'function', 'function-args', 'scipy', 'symbolic'):
      for s in SCALES:
        if form == 'scipy' and s not in ('one', 'log'):
          continue
        for how in ('constructor', 'set_prob'):
          disc.append((v, form, s, how))
  flat = []
  for lo, hi in ((1., 2.), (.5, 8.)) + (((.01, 40.),) if full else ()):
    for o0, o1 in itertools.product((False, True), repeat=2):
      for u in (None, 'log', 'neg', 'affine', 'cube', 'sym-log'):
        for s in SCALES:
          for form in ('default', 'later') + (('scalar',) if u is None else ()):
            flat.append((lo, hi, o0, o1, u, s, form))
  for o0, o1 in itertools.product((False, True), repeat=2):
    for s in SCALES:
      for u in (None, 'neg', 'affine'):
        flat.append((-3., -1., o0, o1, u, s, 'default'))
        flat.append((-1., 2., o0, o1, u, s, 'default'))
      flat.append((-3., -1., o0, o1, 'sym-sq-', s, 'default'))
      flat.append((-2., .5, o0, o1, 'sym-miss-', s, 'later'))
  dens = [(d, s, lo, hi, o0, o1) for d in dists() for s in ('one', 'log')
          for lo, hi in ((-2., 2.), (-1., 3.5)) + (((0., .5),) if full else ())
          for o0, o1 in itertools.product((False, True), repeat=2)]
  prob = [(f, s, a) for f in ('scipy', 'sympy', 'function') for s in SCALES for a in [None] + list(SCALES)
          if f == 'function' or s in ('one', 'log')]
  mf = [(v, k, s, h) for v in ['bool'] + list(INTS) for n in [2 if v == 'bool' else len(INTS[v])] for k in (0, 1, n - 1, n + 1, 2 * n)
        if k != n for s in SCALES for h in ('constructor', 'set', 'again')]
  return [Space('misfits', mf, run_misfit, 'arrays of every size around that of the set'),
          Space('discrete', disc, run_discrete, 'all sets x probability forms x scales x constructors; every value, '
                'outside values, arrays, draws'),
          Space('flat', flat, run_flat, 'all intervals x openness x transformations x scales'),
          Space('densities', dens, run_density, 'all distributions x scales x limits x openness'),
          Space('implied', [(u, lo, hi, s) for u in IMPLICIT for lo, hi in ((1., 2.), (.5, 8.))
                            for s in (SCALES if full else ('one', 'log') if lo == 1. else ('half', 'noffs'))],
                run_implicit, 'transformations without change of variables x intervals x openness x scales'),
          Space('members', [(n, h, sc) for n in MEMBERS for h in ('plain', 'prob', 'rv') for sc in ('one', 'log')
                            if (sc == 'one' if h == 'plain' else full or sc == ('log' if h == 'prob' else 'one'))], run_members, 'every member of symbolic distributions'),
          Space('numeric', [(n, sc) for n in NUMERIC for sc in ('one', 'log')], run_numeric,
                'every member of SciPy distributions'),
          Space('prob', prob, run_prob, 'all forms x own scale x requested scale')]
