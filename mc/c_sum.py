"""Sum rule: marginals of every small distribution layout."""
import itertools

import numpy as np

from mc.core import Space, Violation, check
from mc import table as T

PROPERTY = 'P03'
ASSUMPTIONS = ['values along an axis are distinct; keys sharing an axis are summed together',
               'linear probabilities agree to 1e-9 relative']


def subsets(items):
  items = list(items)
  return [c for r in range(1, len(items) + 1) for c in itertools.combinations(items, r)]


def judge(pd, tab, ps, out, want, what, before):
  got = T.of_pd(out, what)
  T.compare(got, want, what, order=True)
  check(out.pscale == ps and isinstance(out.pscale, complex) == isinstance(ps, complex),
        '{}: scale {} became {}', what, ps, out.pscale)
  check(T.frozen(pd) == before, '{} modified its operand', what)


def run(root, ctx):
  import probayes as pb
  layout, ncond, pscale, zeros, reverse = root
  pd, tab, ps = T.build_pd(pb, layout, ncond, pscale, zeros, reverse)
  before = T.frozen(pd)
  groups = [set(g[0]) for g in tab.groups]
  for keys in subsets(tab.marg):
    ks = set(keys)
    whole = all(g <= ks or not (g & ks) for g in groups)
    arr = all(tab.group_of(k) is not None for k in keys)
    if whole and arr and len(ks) < len(layout):
      for arg in ([list(keys), tuple(keys), set(keys), list(reversed(keys))] +
                  ([keys[0]] if len(keys) == 1 else [])):
        out = pd.marginalise(arg)
        ctx.step()
        judge(pd, tab, ps, out, tab.marginalise(keys), 'marginalise {!r}'.format(arg), before)
        ctx.state()
      ctx.outcome(tuple(np.ravel(out.prob)))
    # marginal(keys): the scalar marginals must be among those kept
    scal = {k for k in tab.marg if k in tab.scal}
    rest = [k for k in tab.marg if k not in ks and k not in tab.scal]
    if whole and scal <= ks and all(
        g <= set(rest) or not (g & set(rest)) for g in groups):
      out = pd.marginal(list(keys))
      ctx.step()
      want = tab.marginalise(rest) if rest else tab
      judge(pd, tab, ps, out, want, 'marginal {!r}'.format(keys), before)
      ctx.state()
    elif not scal <= ks or not whole:
      # a scalar (or a variable tied to the same axis) cannot be summed out alone
      try:
        out = pd.marginal(list(keys))
      except Exception:
        ctx.state()
      else:
        check(set(out.marg.keys()) == ks, 'marginal {!r} answered with {}', keys, out.name)
  # not a marginal variable: must be refused, not answered
  for k in tab.cond:
    for op in ('marginalise', 'marginal'):
      try:
        getattr(pd, op)(k)
      except Exception:
        ctx.state()
      else:
        raise Violation('{} over conditional {} was answered'.format(op, k))
  for k in tab.scal:
    if k in tab.marg:
      try:
        pd.marginalise(k)
      except Exception:
        ctx.state()
      else:
        raise Violation('marginalise over scalar {} was answered'.format(k))
  ctx.trace()
  ctx.sample('{} conditional={} scale={}'.format(layout, ncond, pscale))


def run_order(root, ctx):
  """Summing out variables one at a time in any order gives the same result."""
  import probayes as pb
  layout, ncond, pscale = root
  pd, tab, ps = T.build_pd(pb, layout, ncond, pscale)
  marg_groups = [tuple(g[0]) for g in tab.groups if set(g[0]) <= set(tab.marg)]
  for order in itertools.permutations(marg_groups):
    cur, want = pd, tab
    for g in order:
      if len([k for k in want.marg]) == len(g) and not want.cond and not want.scal:
        break
      cur, want = cur.marginalise(g), want.marginalise(g)
      ctx.step()
      T.compare(T.of_pd(cur), want, 'after summing {} of {}'.format(g, order))
      ctx.state()
    ctx.trace()


def run_deep(root, ctx):
  """Log-scale distributions far below the range of linear doubles."""
  import probayes as pb
  layout, offs, imag = root
  pd, tab, ps = T.build_pd(pb, layout, 0, 'log')
  deep = pb.PD(pd.name, dict(pd), dims=pd.dims, prob=np.array(pd.prob) + offs, pscale=0j)
  for keys in subsets(tab.marg):
    ks = set(keys)
    if not all(set(g[0]) <= ks or not (set(g[0]) & ks) for g in tab.groups):
      continue
    if ks == set(tab.marg):
      continue
    out = deep.marginalise(keys)
    ctx.step()
    back = pb.PD(out.name, dict(out), dims=out.dims, prob=np.asarray(out.prob) - offs, pscale=0j)
    T.compare(T.of_pd(back), tab.marginalise(keys), 'marginalise {} at log {}'.format(keys, offs))
    ctx.state()


def run_steep(root, ctx):
  """Log-scale distributions whose probabilities span more than doubles can hold."""
  import probayes as pb
  layout, nc, zeros, slopes = root
  pd, tab, ps = T.build_pd(pb, layout, nc, 'off' if sum(s != 0. for s in slopes) == 1 else 'log', zeros)
  deep, tab = T.steep(pb, pd, tab, slopes[:pd.ndim])
  scal = set(tab.scal)
  for keys in subsets(tab.marg):
    ks = set(keys)
    if ks & scal or not all(set(g[0]) <= ks or not (set(g[0]) & ks) for g in tab.groups):
      continue
    what = 'marginalise {} at slopes {}'.format(keys, slopes)
    want = tab.marginalise(keys)
    if ks != set(tab.marg):
      T.compare_big(T.of_pd_big(pb, deep.marginalise(keys), what), want, what)
      rest = [k for k in tab.marg if k not in ks]
      if not any(set(g[0]) & set(rest) and set(g[0]) & set(tab.cond) for g in tab.groups):
        T.compare_big(T.of_pd_big(pb, deep.marginal(rest), what), want, what + ' (marginal)')
      ctx.step(2)
      ctx.state(2)
  ctx.trace()


SLOPES = (0., 450., -1300.)


def spaces(tier):
  keys3, keys4 = ['y', 'z', 'x'], ['y', 'x', 'w', 'z']
  roots = []
  for n in (1, 2, 3):
    for lay in T.layouts(keys3[:n]):
      for nc in range(n):
        for ps in T.PSCALES:
          for zeros in (False, True):
            for rev in (False, True):
              roots.append((lay, nc, ps, zeros, rev))
  for lay in T.layouts(keys4):
    for nc in (0, 1, 2):
      for ps in (('lin', 'log') if tier == 'quick' else T.PSCALES):
        roots.append((lay, nc, ps, nc == 1, ps == 'log'))
  if tier != 'quick':
    for lay in T.layouts(['y', 'x', 'w', 'z', 'u'], scalars=False):
      for nc in (0, 2):
        roots.append((lay, nc, 'lin', False, bool(nc)))
  orders = [(lay, nc, ps) for lay in T.layouts(keys4) for nc in (0, 1) for ps in ('lin', 'log')]
  deep = [(lay, o, 0) for lay in T.layouts(keys3, scalars=False) for o in (-1200., 900.)]
  steeps = [(lay, nc, z, sl) for lay in list(T.layouts(keys3)) + list(T.layouts(keys3[:2])) for nc in (0, 1) for z in (False, True)
            for n in [1 + max([a for _, a in lay if a is not None], default=-1)] if n
            for sl in itertools.product(SLOPES, repeat=n)]
  wide = [(lay, nc, ps, z, False) for lay in T.large() for nc in range(min(3, len(lay))) for ps in T.PSCALES for z in (False, True)]
  return [Space('larger', wide, run, 'sets of up to 12 values and up to 6 variables; all key subsets'),
          Space('steep', steeps, run_steep, 'all layouts of 2 and 3 variables, slopes 0, 450 and -1300 of the log along every axis'),
          Space('layouts', roots, run,
                'all layouts of <=3 keys (<=4 keys on reduced options) x conditional split x '
                'scale x zeros x key order; all key subsets'),
          Space('orders', orders, run_order, 'all elimination orders, <=4 keys'),
          Space('deep-log', deep, run_deep, 'log offsets -1200, 900 on all 3-key layouts')]
