"""Every sequence of distribution operations agrees with the reference table."""
import itertools
import math

import numpy as np

from mc.core import Space, Violation, check
from mc import table as T
from mc.c_sum import subsets
from mc.c_layout import slice_table

PROPERTY = 'P05'
ASSUMPTIONS = ['operations are applied within their documented domain: variables sharing an axis '
               'stay on one side of the bar, scalar marginals are conditioned together']


def ops_of(tab, depth_left, lean):
  """Every operation applicable to a distribution with this table."""
  groups = [set(g[0]) for g in tab.groups]
  scal = {k for k in tab.marg if k in tab.scal}
  out = []
  for keys in subsets(tab.marg):
    ks = set(keys)
    whole = all(g <= ks or not g & ks for g in groups)
    arr = not ks & scal
    if not whole:
      continue
    left = [k for k in tab.marg if k not in ks]
    if arr and left:
      out.append(('sum', keys))
    rest = [k for k in left if k not in tab.scal]
    if scal <= ks and all(g <= set(rest) or not g & set(rest) for g in groups):
      out.append(('keep', keys))
      if left and all(g <= set(tab.cond) | ks or not g & (set(tab.cond) | ks) for g in groups):
        out.append(('cond', keys))
        if not (arr is False and rest and ks - scal):
          out.append(('div', keys))
        if not scal:
          out.append(('bayes', keys))
  for keys, rows in tab.groups:
    for k in keys:
      col = [r[keys.index(k)] for r in rows]
      out.append(('at', k, col[-1]))
      if not lean:
        out.append(('at', k, col[0]))
    out.append(('sort', keys[0]))
  n = len(tab.groups)
  if n > 1:
    out.append(('flip',))
  out.append(('swap',) if len(tab.marg) + len(tab.cond) > 1 else ('name',))
  out += [('scale', s) for s in (('coef', 'noff') if lean else T.PSCALES)]
  return out


def apply(pd, tab, op, pb):
  """Runs one operation on the library and on the reference."""
  kind = op[0]
  if kind == 'sum':
    return pd.marginalise(list(op[1])), tab.marginalise(op[1])
  if kind == 'keep':
    rest = [k for k in tab.marg if k not in op[1] and k not in tab.scal]
    return pd.marginal(list(op[1])), (tab.marginalise(rest) if rest else tab)
  if kind == 'cond':
    return pd.conditionalise(list(op[1])), tab.conditionalise(op[1])
  if kind == 'div':
    return pd / pd.marginal(list(op[1])), tab.conditionalise(op[1])
  if kind == 'bayes':
    c = pd.conditionalise(list(op[1]))
    m = pd.marginal(list(op[1]))
    cond, marg = tab.conditionalise(op[1]), tab.marginalise(
        [k for k in tab.marg if k not in op[1]])
    return c * m, T.product([cond, marg], cond.marg + marg.marg, tab.cond)
  if kind == 'at':
    return pd({op[1]: op[2]}), slice_table(tab, {op[1]: op[2]}, False)
  if kind == 'sort':
    k = op[1]
    want = tab.copy()
    g = tab.group_of(k)
    keys, rows = tab.groups[g]
    order = sorted(range(len(rows)), key=lambda i: rows[i][keys.index(k)])
    want.groups[g] = (keys, [rows[i] for i in order])
    inv = {o: n for n, o in enumerate(order)}
    want.p = {tuple(inv[i] if h == g else i for h, i in enumerate(idx)): v
              for idx, v in tab.p.items()}
    return pd.sorted(k), want
  if kind == 'flip':
    n = pd.ndim
    return pd.redim({k: None if d is None else n - 1 - d for k, d in pd.dims.items()}), tab
  if kind in ('swap', 'name'):
    ks = tab.marg + tab.cond
    m = {ks[0]: ks[-1], ks[-1]: ks[0]} if kind == 'swap' else {ks[0]: ks[0] + 'q'}
    f = lambda k: m.get(k, k)
    return pd.rekey(dict(m)), T.Table(
        [f(k) for k in tab.marg], [f(k) for k in tab.cond],
        {f(k): v for k, v in tab.scal.items()},
        [(tuple(f(k) for k in ks), rows) for ks, rows in tab.groups], tab.p)
  if kind == 'scale':
    return pd.rescaled(T.PSCALES[op[1]]), tab
  raise AssertionError(op)


def run(root, ctx):
  import probayes as pb
  layout, ncond, pscale, depth, lean, first = root
  pd0, tab0, _ = T.build_pd(pb, layout, ncond, pscale.split('-')[-1])
  if '-' in pscale:
    # whole numbers stand for the probabilities, as counts do
    dtype = np.dtype(pscale.split('-')[0])
    nums = np.ravel(np.round(np.asarray(pd0.prob, dtype=float) * (1. if T.is_log(pd0.pscale) else 50.))).astype(dtype).reshape(np.shape(pd0.prob))
    pd0 = pb.PD(pd0.name, dict(pd0), dims=pd0.dims, prob=nums if nums.ndim else nums[()], pscale=pd0.pscale)
    tab0 = T.of_pd(pd0)
  stack = [(pd0, T.frozen(pd0))]   # every distribution of the history so far

  def explore(pd, tab, ops, left):
    for op in ops:
      path.append(op)
      what = 'after {}'.format(path)
      out, want = apply(pd, tab, op, pb)
      ctx.step()
      got = T.of_pd(out, what)
      T.compare(got, want, what)
      if op[0] == 'scale':
        check(out.pscale == T.PSCALES[op[1]], '{}: scale is {}', what, out.pscale)
      for old, snap in stack:
        check(T.frozen(old) == snap, '{}: an earlier distribution changed', what)
      ctx.state()
      if left > 1:
        # continue from the library's own table order: names and values verified above
        cont = T.Table(got.marg, got.cond, want.scal, want.groups, want.p)
        stack.append((out, T.frozen(out)))
        explore(out, cont, ops_of(cont, left - 1, lean), left - 1)
        stack.pop()
      else:
        ctx.trace()
      path.pop()
  path = []
  firsts = ops_of(tab0, depth, lean)
  ops = firsts if first is None else firsts[first:first + 1]
  explore(pd0, tab0, ops, depth)
  ctx.outcome((layout, ncond, pscale, first))
  ctx.sample('{} conditional={} scale={} depth {}'.format(layout, ncond, pscale, depth))


def bases(keys):
  return list(T.layouts(keys))


def nfirst(layout, ncond, lean):
  """Number of first operations (computed from the reference only)."""
  keys = [k for k, _ in layout]
  naxes = 1 + max([a for _, a in layout if a is not None], default=-1)
  groups = []
  for a in range(naxes):
    mem = tuple(k for k, b in layout if b == a)
    groups.append((mem, [tuple(T.value_rows(k, 2)[i] for k in mem) for i in range(2)]))
  tab = T.Table(keys[:len(keys) - ncond], keys[len(keys) - ncond:],
                {k: 1 for k, a in layout if a is None}, groups, {})
  return len(ops_of(tab, 1, lean))


def spaces(tier):
  out = []
  d2 = [(lay, nc, ps, 2, False, None) for n in (2, 3) for lay in T.layouts(['y', 'z', 'x'][:n])
        for nc in range(n) for ps in (('lin', 'off') if tier == 'quick' else T.PSCALES)]
  out.append(Space('depth2', d2, run, 'all operation sequences of length <=2 from every layout '
                   'of 2 or 3 variables'))
  wide = [(lay, nc, ps, 1, False, None) for lay in T.large() for nc in range(min(3, len(lay))) for ps in T.PSCALES]
  out.append(Space('larger', wide, run, 'all single operations on sets of up to 12 values and up to 6 variables'))
  whole = [(lay, nc, dt + '-' + ps, 2 if tier != 'quick' else 1, False, None) for n in (1, 2, 3) for lay in T.layouts(['y', 'z', 'x'][:n]) for nc in range(n)
           for dt in ('int64', 'int32', 'uint16', 'bool') for ps in ('lin', 'coef', 'log') if (ps != 'log' or dt[:3] == 'int') and (dt != 'bool' or ps == 'lin')]
  out.append(Space('counts', whole, run, 'all single operations on whole-number probabilities'))
  picks = [((('w', 1), ('y', 0), ('x', 2)), 0, 'off'), ((('w', 0), ('y', 1), ('x', 0)), 0, 'coef'),
           ((('w', 1), ('y', 0), ('x', None)), 0, 'log'), ((('y', 0), ('w', 1), ('x', 2)), 1, 'noff')]
  d = 3 if tier == 'quick' else 4
  deep = [(lay, nc, ps, d, True, i) for lay, nc, ps in picks
          for i in range(nfirst(lay, nc, True))]
  out.append(Space('deep', deep, run, 'all operation sequences of length {} from four '
                   'three-variable distributions'.format(d)))
  return out
