"""Conditioning: conditionalise, division by a marginal and Bayes' rule."""
import itertools
import math

import numpy as np

from mc.core import Space, Violation, check
from mc import table as T
from mc.c_sum import subsets

PROPERTY = 'P04'
ASSUMPTIONS = ['no scalar marginal is left unconditioned when normalising',
               'a conditional slice whose total is zero yields zeros']


def run(root, ctx):
  import probayes as pb
  layout, ncond, pscale, zeros, reverse = root
  pd, tab, ps = T.build_pd(pb, layout, ncond, pscale, zeros, reverse)
  before = T.frozen(pd)
  groups = [set(g[0]) for g in tab.groups]
  scal = {k for k in tab.marg if k in tab.scal}
  for keys in subsets(tab.marg):
    ks = set(keys)
    left = [k for k in tab.marg if k not in ks]
    if not all(g <= ks or not (g & ks) for g in groups):
      continue
    if not scal <= ks or not left:
      continue
    # keys on one axis must lie on one side of the bar
    cond_after = set(tab.cond) | ks
    if any((g & cond_after) and not g <= cond_after for g in groups):
      continue
    for arg in [list(keys), set(keys), tuple(reversed(keys))] + \
        ([keys[0]] if len(keys) == 1 else []):
      what = 'conditionalise {!r}'.format(arg)
      out = pd.conditionalise(arg)
      ctx.step()
      want = tab.conditionalise(keys)
      got = T.of_pd(out, what)
      T.compare(got, want, what)
      check(out.pscale == ps, '{}: scale {} became {}', what, ps, out.pscale)
      check(T.frozen(pd) == before, '{} modified its operand', what)
      # normalisation: every conditional slice sums to one (or is empty)
      tot = got.marginalise([k for k in got.marg if k not in got.scal])
      for idx, v in tot.p.items():
        check(T.close(v, 1.) or v == 0., '{}: a conditional slice sums to {}', what, v)
      ctx.state()
    ctx.outcome(tuple(np.ravel(out.prob)))

    # chain rule: p(A|K) p(K) = p(A,K) whenever K is not scalar and nothing else given
    if not tab.cond and not scal:
      back = out * pd.marginal(list(keys))
      ctx.step(2)
      T.compare(T.of_pd(back), tab, 'p(A|K)p(K) with K={}'.format(keys))
      # division by the marginal agrees with conditionalise
  # division
  for keys in subsets(tab.marg):
    ks = set(keys)
    if not all(g <= ks or not (g & ks) for g in groups) or ks == set(tab.marg):
      continue
    if not scal <= ks:
      continue
    if any((g & (set(tab.cond) | ks)) and not g <= (set(tab.cond) | ks) for g in groups):
      continue
    den = pd.marginal(list(keys))
    if den.issingleton and scal != ks:
      continue
    if den.ndim and den.ndim > 1:   # the same divisor with its axes the other way round
      flip = pb.PD(den.name, dict(den), dims={k: None if d is None else den.ndim - 1 - d
                                              for k, d in den.dims.items()},
                   prob=np.transpose(den.prob).copy(), pscale=den.pscale)
      T.compare(T.of_pd(pd / flip), tab.conditionalise(keys), 'division by transposed marginal')
      ctx.step()
    frozen = T.frozen(den)
    quo = pd / den
    ctx.step(2)
    what = 'p({})/p({})'.format(pd.name, den.name)
    T.compare(T.of_pd(quo, what), tab.conditionalise(keys), what)
    check(T.frozen(den) == frozen and T.frozen(pd) == before, '{} modified an operand', what)
    check(quo.pscale == ps, '{}: scale {} became {}', what, ps, quo.pscale)
    ctx.state()
  for k in tab.cond:
    try:
      pd.conditionalise(k)
    except Exception:
      ctx.state()
    else:
      raise Violation('conditionalise over the conditional {} was answered'.format(k))
  ctx.trace()
  ctx.sample('{} conditional={} scale={}'.format(layout, ncond, pscale))


def run_bayes(root, ctx):
  """prior * likelihood -> posterior, for all scales and layouts of both."""
  import probayes as pb
  nx, ny, ps_prior, ps_like, order, zeros, form = root
  prior_p = T.generic_probs(nx)
  tot = sum(prior_p)
  prior_p = [p / tot for p in prior_p]
  like_p = T.generic_probs(nx * ny, zeros)
  like = {(j, i): like_p[j * nx + i] for i in range(nx) for j in range(ny)}
  for i in range(nx):
    s = sum(like[j, i] for j in range(ny))
    for j in range(ny):
      like[j, i] = like[j, i] / s if s else 0.
  sp, sl = T.PSCALES[ps_prior], T.PSCALES[ps_like]

  def raw(p, s):
    c = T.coef_log(s)
    if T.is_log(s):
      return -1.7976931348623157e308 if p == 0. else math.log(p) - c
    return p / s
  xs, ys = T.value_rows('w', nx), T.value_rows('u', ny)
  pw = pb.PD('w', {'w': np.array(xs)}, prob=np.array([raw(p, sp) for p in prior_p]), pscale=sp)
  arr = np.array([[raw(like[j, i], sl) for i in range(nx)] for j in range(ny)])
  dims = {'u': 0, 'w': 1}
  if order:
    arr, dims = arr.T.copy(), {'w': 0, 'u': 1}
  pl = pb.PD('u|w', {'u': np.array(ys), 'w': np.array(xs)}, dims=dims, prob=arr, pscale=sl)
  frozen = T.frozen(pw), T.frozen(pl)
  joint = pw * pl if form else pl * pw
  ctx.step()
  for j in range(ny):
    ev = sum(like[j, i] * prior_p[i] for i in range(nx))
    if ev == 0.:
      continue
    want = T.Table(['w'], ['u'], {'u': ys[j]}, [(('w',), [(x,) for x in xs])],
                   {(i,): like[j, i] * prior_p[i] / ev for i in range(nx)})
    post1 = joint.conditionalise('u')({'u': ys[j]})
    post2 = joint({'u': ys[j]}).conditionalise('u')
    post3 = joint({'u': ys[j]}) / joint.marginal('u')({'u': ys[j]})
    post4 = (joint / joint.marginal('u'))({'u': ys[j]})
    ctx.step(8)
    for n, post in enumerate((post1, post2, post3, post4)):
      T.compare(T.of_pd(post), want, 'posterior (route {}) given u={}'.format(n, ys[j]))
      ctx.state()
  check((T.frozen(pw), T.frozen(pl)) == frozen, 'Bayes rule modified an operand')
  ctx.trace()


def run_div(root, ctx):
  """div_prob on every pair of scales."""
  from probayes import pscales as P
  a, b, s1, s2, out = root
  S = dict(T.PSCALES, none=None)
  p1, p2, po = S[s1], S[s2], S[out]

  def raw(p, s):
    s = 1. if s is None else s
    c = T.coef_log(s)
    return (math.log(p) - c if p > 0. else -1.7976931348623157e308) if T.is_log(s) else p / s
  for arr in (False, True):
    x, y = raw(a, p1), raw(b, p2)
    if arr:
      x, y = np.array([x, raw(0.5, p1)]), np.array([y, raw(0.25, p2)])
    bx, by = np.array(x), np.array(y)
    if s1 == 'none':
      got = P.div_prob(x, y) if out == 'none' else P.div_prob(x, y, pscale=po)
      dst = 1. if out == 'none' else po
    else:
      got = P.div_prob(x, y, p1, p2) if out == 'none' else P.div_prob(x, y, p1, p2, pscale=po)
      dst = p1 if out == 'none' else po
    ctx.step()
    check(np.array_equal(bx, x) and np.array_equal(by, y), 'div_prob modified an operand')
    wants = [a / b if b > 0. else (0. if a == 0. else None)] + ([2.] if arr else [])
    for w, g in zip(wants, np.ravel(got)):
      if w is None:
        check(g > 1e200 or (T.is_log(dst) and g > 500), 'x/0 = {}', g)
        continue
      if T.is_log(dst):
        check(g < -1e300 if w == 0. else T.close(float(g) + T.coef_log(dst), math.log(w)),
              'div_prob({}, {}) {} = {} where log {} was due', a, b, root, g, w)
      else:
        check(T.close(float(g) * dst, w), 'div_prob({}, {}) {} = {} where {} was due',
              a, b, root, g, w)
      ctx.state()


def run_deep(root, ctx):
  """Conditionals of log-scale joints far outside the linear double range."""
  import probayes as pb
  layout, offs, spread = root
  pd, tab, ps = T.build_pd(pb, layout, 0, 'log')
  prob = np.array(pd.prob) + offs
  # a different offset per position of the last axis: no single rescaling helps
  shape = [1] * prob.ndim
  shape[-1] = prob.shape[-1]
  ramp = np.arange(prob.shape[-1]).reshape(shape) * spread
  deep = pb.PD(pd.name, dict(pd), dims=pd.dims, prob=prob + ramp, pscale=0j)
  last = [k for k, a in layout if a == prob.ndim - 1]
  if set(last) == set(tab.marg):
    return
  out = deep.conditionalise(last)
  ctx.step()
  T.compare(T.of_pd(out), tab.conditionalise(last), 'conditionalise {} at log {}'.format(last, offs))
  quo = deep / deep.marginal(last)
  ctx.step(2)
  T.compare(T.of_pd(quo), tab.conditionalise(last), 'division by p({}) at log {}'.format(last, offs))
  ctx.state(2)


def operand(pb, marg, cond, lay, sc, lin, differ=None):
  """A distribution over keys with two values each (so that transposed axes go unnoticed unless the numbers tell)."""
  ps = T.PSCALES[sc]
  axes = {k: a for k, a in lay if a is not None}
  n = len(set(axes.values()))
  vals = {}
  for k in marg + cond:
    rows = T.value_rows(k, 2)
    if k == differ:
      rows = [T.value_rows(k, 3)[2]] * 2 if k not in axes else T.value_rows(k, 3)[1:]
    vals[k] = np.array(rows) if k in axes else rows[1]
  raw = [(math.log(v) - T.coef_log(ps)) if T.is_log(ps) else v / ps for v in lin[:2 ** n]]
  return pb.PD(','.join(marg) + ('|' + ','.join(cond) if cond else ''), vals, dims={k: axes.get(k) for k in vals} if n else None,
               prob=np.array(raw).reshape([2] * n) if n else raw[0], pscale=ps)


def run_quotients(root, ctx):
  """Quotients of distributions that may match in the variables they share, or not."""
  import probayes as pb
  marg, cond, lay, scales = root
  lin = T.generic_probs(16)
  pd = operand(pb, list(marg), list(cond), lay, scales[0], lin)
  tab = T.of_pd(pd)
  frozen = T.frozen(pd)
  axes = dict(lay)
  scal = {k for k in marg if axes[k] is None}

  def kind(of, keys):
    return tuple((k, of[k] is None, tuple(j for j in keys if of[j] is not None and of[j] == of[k])) for k in keys)
  for r in range(1, len(marg) + 1):
    for keys in itertools.combinations(marg, r):
      mine = list(keys) + list(cond)
      for other in T.layouts(mine):
        for differ in [None] + mine:
          den = operand(pb, list(keys), list(cond), other, scales[1], lin[8:] + lin[:8], differ)
          seen = T.frozen(den)
          ctx.step()
          fit = not differ and kind(axes, mine) == kind(dict(other), mine)
          # a shared axis may not be split by the divisor
          fit = fit and not any(axes[k] is not None and axes[k] == axes[j] for k in mine for j in marg if j not in keys)
          try:
            out = pd / den
          except Exception as exc:
            check(not fit or r == len(marg) or (den.issingleton and set(keys) != scal), 'p({}) / p({}) was refused: {!r}', pd.name, den.name, exc)
            out = None
          check(T.frozen(pd) == frozen and T.frozen(den) == seen, 'p({}) / p({}) modified an operand', pd.name, den.name)
          ctx.state()
          if out is None:
            continue
          if not fit and not differ and kind(axes, mine) == kind(dict(other), mine):
            continue  # a divisor that splits an axis has no meaning; whatever was answered is not judged
          check(fit, '{}: p({}) with {} was divided by p({}) with {}', root, pd.name, dict(pd), den.name, dict(den))
          down = T.of_pd(den)
          want = T.Table([k for k in marg if k not in keys], list(cond) + list(keys), tab.scal, tab.groups,
                         {idx: p / down.p[tuple(idx[[g[0] for g in tab.groups].index(h[0])] for h in down.groups)] for idx, p in tab.p.items()})
          T.compare(T.of_pd(out), want, '{}: p({}) / p({})'.format(root, pd.name, den.name))
  ctx.trace()


def run_steep(root, ctx):
  """Conditionals of log-scale distributions whose probabilities span more than doubles can hold."""
  import probayes as pb
  layout, nc, zeros, slopes = root
  pd, tab, ps = T.build_pd(pb, layout, nc, 'off' if sum(s != 0. for s in slopes) == 1 else 'log', zeros)
  deep, tab = T.steep(pb, pd, tab, slopes[:pd.ndim])
  before = T.frozen(deep)
  scal = {k for k in tab.marg if k in tab.scal}
  for r in range(1, len(tab.marg) + 1):
    for keys in itertools.combinations(tab.marg, r):
      ks = set(keys)
      if any(set(g[0]) & ks and set(g[0]) & set(tab.marg) - ks for g in tab.groups):
        continue
      if not scal <= ks or ks == set(tab.marg):
        continue
      what = 'conditionalise {} at slopes {}'.format(keys, slopes)
      want = tab.conditionalise(keys)
      if any(set(g[0]) & set(want.marg) and set(g[0]) & set(want.cond) for g in tab.groups):
        continue
      out = deep.conditionalise(list(keys))
      T.compare_big(T.of_pd_big(pb, out, what), want, what)
      ctx.step()
      if not scal and not any(set(g[0]) & set(keys) and set(g[0]) & set(tab.cond) for g in tab.groups):
        marg = deep.marginal(list(keys))
        quo = deep / marg
        T.compare_big(T.of_pd_big(pb, quo, what), want, what + ' by division')
        back = quo * marg
        T.compare_big(T.of_pd_big(pb, back, what), tab, what + ' multiplied back')
        ctx.step(3)
      check(T.frozen(deep) == before, '{}: operand modified', what)
      ctx.state()
  ctx.trace()


def spaces(tier):
  keys3, keys4 = ['y', 'z', 'x'], ['y', 'x', 'w', 'z']
  roots = []
  for n in (2, 3):
    for lay in T.layouts(keys3[:n]):
      for nc in range(n - 1):
        for ps in T.PSCALES:
          for zeros in (False, True):
            for rev in (False, True):
              roots.append((lay, nc, ps, zeros, rev))
  for lay in T.layouts(keys4):
    for nc in (0, 1, 2):
      for ps in (('lin', 'log') if tier == 'quick' else T.PSCALES):
        roots.append((lay, nc, ps, nc == 1, ps == 'log'))
  if tier != 'quick':
    for lay in T.layouts(['y', 'x', 'w', 'z', 'u'], scalars=False, shared=False):
      for nc in (0, 1, 2):
        roots.append((lay, nc, 'lin', False, bool(nc)))
  names = list(T.PSCALES)
  bayes = [(nx, ny, a, b, o, z, f) for nx in (2, 3) for ny in (2, 4) for a in names
           for b in names for o in (0, 1) for z in (False, True) for f in (0, 1)]
  div = [(a, b, s1, s2, o) for a in (0., 0.3, 1., 40.) for b in (0., 1e-9, 0.3, 2.)
         for s1 in names + ['none'] for s2 in names for o in names + ['none']
         if s1 != 'none' or s2 == 'lin']
  deep = [(lay, o, s) for lay in T.layouts(keys3, scalars=False) for o in (-1200., 900.)
          for s in (0., -1000.)]
  quo = [(m, c, lay, sc) for m, c in (('xy', ''), ('x', ''), ('xy', 'w'), ('xyw', ''), ('x', 'w'), ('xy', 'wz') if tier != 'quick' else ('x', 'wz'))
         for lay in T.layouts(m + c) for sc in (('lin', 'lin'), ('lin', 'off'), ('log', 'log'), ('noff', 'coef'))]
  steeps = [(lay, nc, z, sl) for k in (2, 3) for lay in T.layouts(['y', 'z', 'x'][:k]) for nc in (0, 1) for z in (False, True)
            for n in [1 + max([a for _, a in lay if a is not None], default=-1)] if n
            for sl in itertools.product((0., 450., -1300.), repeat=n)]
  wide = [(lay, nc, ps, z, False) for lay in T.large() if len(lay) > 1 for nc in range(min(3, len(lay) - 1))
          for ps in T.PSCALES for z in (False, True)]
  from mc.c_prod import run_misfit
  return [Space('misfits', [(n, ps, 'quotient') for n in (2, 3, 5, 8) for ps in T.PSCALES], run_misfit,
                'all single changes and exchanges of values of sets of up to 8'),
          Space('larger', wide, run, 'sets of up to 12 values and up to 6 variables; all conditioning key sets'),
          Space('steep', steeps, run_steep, 'all layouts of 2 and 3 variables, slopes 0, 450 and -1300 of the log along every axis'),
          Space('quotients', quo, run_quotients, 'all dividends of up to 3 (4) variables by divisors of all layouts, matching or not'),
          Space('layouts', roots, run, 'all layouts of <=3 keys (4 with reduced options), all '
                'conditional splits, scales, zero patterns; all conditioning key sets'),
          Space('bayes', bayes, run_bayes, 'prior/likelihood sizes x scales x axis orders x '
                'operand orders x zeros; four routes to each posterior'),
          Space('div', div, run_div, 'all operand/output scale triples'),
          Space('deep-log', deep, run_deep, 'log offsets -1200, 900 with spread 0, 1000')]
