"""Expectations, quantiles, i.i.d. products, remarginalisation, concatenation."""
import itertools
import math

import numpy as np

from mc.core import Space, Violation, check
from mc import table as T
from mc.c_sum import subsets
from mc.c_prod import raw

PROPERTY = 'P07'
ASSUMPTIONS = ['expectations: 1e-9 relative', 'quantiles are judged by the pair of neighbouring '
               'values whose cumulative probabilities bracket the level',
               'remarginalisation maps onto ascending edges']


def run_expect(root, ctx):
  import probayes as pb
  layout, ncond, pscale, reverse, deep = root
  pd, tab, ps = T.build_pd(pb, layout, ncond, pscale, False, reverse)
  if deep:
    pd = pb.PD(pd.name, dict(pd), dims=pd.dims, prob=pd.prob + deep, pscale=ps)
  before = T.frozen(pd)
  groups = [set(g[0]) for g in tab.groups]
  if any(g & set(tab.cond) and g & set(tab.marg) for g in groups):
    return
  args = [(None, tab.marg)] + [(list(k), k) for k in subsets(tab.marg)] + \
      [(k, (k,)) for k in tab.marg]
  for (arg, keys), exponent in itertools.product(args, (None, 0, 1, 2, 3)):
    kw = {} if exponent is None else {'exponent': exponent}
    out = pd.expectation(arg, **kw) if arg is not None else pd.expectation(**kw)
    ctx.step()
    what = 'expectation({!r}, {})'.format(arg, kw)
    check(set(out) == set(keys) | set(tab.cond), '{} answered for {}', what, list(out))
    gs = {tab.group_of(k) for k in keys if tab.group_of(k) is not None}
    keep = [g for g in range(len(tab.groups)) if g not in gs]
    # the axes left come in the order of the distribution's own axes
    keep.sort(key=lambda g: pd.dims[tab.groups[g][0][0]])
    for k in keys:
      e = 1 if exponent is None else exponent
      g = tab.group_of(k)
      if g is None:
        check(T.close(float(out[k]), float(tab.scal[k]) ** e), '{}: scalar {} -> {}', what, k, out[k])
        continue
      pos = tab.groups[g][0].index(k)
      num, den = {}, {}
      for idx, p in tab.p.items():
        at = tuple(idx[h] for h in keep)
        num[at] = num.get(at, 0.) + p * float(tab.groups[g][1][idx[g]][pos]) ** e
        den[at] = den.get(at, 0.) + p
      got = np.asarray(out[k], dtype=float)
      shape = tuple(len(tab.groups[h][1]) for h in keep)
      check(got.shape == shape, '{}: expectation of {} has shape {} not {}', what, k, got.shape, shape)
      for at in num:
        check(T.close(float(got[at]), num[at] / den[at]), '{}: E[{}^{}] at {} is {} not {}', what, k,
              e, at, got[at], num[at] / den[at])
      ctx.state()
    for k in tab.cond:
      a, b = out[k], pd[k]
      check(np.array_equal(np.ravel(a), np.ravel(b)), '{}: conditional {} changed', what, k)
    check(T.frozen(pd) == before, '{} modified its operand', what)
  for k in tab.cond:
    try:
      pd.expectation(k)
    except Exception:
      ctx.state()
    else:
      raise Violation('expectation of the conditional {} was answered'.format(k))
  ctx.trace()


LEVELS = [0.0137, 0.1071, 0.2533, 0.4129, 0.5003, 0.6117, 0.7559, 0.9071, 0.9917]


def run_quant(root, ctx):
  """1-D quantiles for every weight pattern, either direction, every scale."""
  import probayes as pb
  weights, descending, pscale, norm, offs, second = root
  ps = T.PSCALES[pscale]
  tot = float(sum(weights)) if norm else 1.
  lin = [w / tot for w in weights]
  vals = [1., 2., 4., 8., 16., 17., 18.5, 20., 30., 31., 50., 100.][:len(lin)]
  if descending:
    vals = vals[::-1]
  arr = np.array([raw(p, ps) for p in lin])
  if offs and T.is_log(ps):
    arr = arr + offs
  d = {'x': np.array(vals)}
  dims = {'x': 0}
  if second == 'scalar':
    d['s'] = 3
  elif second == 'shared':
    d['s'] = np.array([10. * v for v in vals])
    dims['s'] = 0
  pd = pb.PD(','.join(d), d, dims=dims, prob=arr, pscale=ps)
  before = T.frozen(pd)
  cum = np.cumsum(lin) / sum(lin)
  multi = pd.quantile(list(LEVELS))
  ctx.step()
  check(len(multi) == len(LEVELS), 'quantile of a list has length {}', len(multi))
  last = None
  for q, m in zip(LEVELS, multi):
    out = pd.quantile(q)
    ctx.step()
    what = 'quantile {} of weights {} over {}'.format(q, weights, vals)
    check(set(out) == set(d), '{} answered for {}', what, list(out))
    check(all(T.close(float(out[k]), float(m[k])) for k in d), '{}: list and scalar levels disagree', what)
    if second == 'scalar':
      check(out['s'] == 3, '{}: scalar became {}', what, out['s'])
    # positions i with cum[i] <= q < cum[i+1]; allow ties within rounding
    ok = set()
    for eps in (-1e-9, 0., 1e-9):
      i = max(0, int(np.searchsorted(cum, q + eps, side='right')) - 1)
      ok |= {i, min(i + 1, len(vals) - 1)}
    lo, hi = min(vals[i] for i in ok), max(vals[i] for i in ok)
    x = float(out['x'])
    check(lo - 1e-9 <= x <= hi + 1e-9, '{} is {} outside [{}, {}]', what, x, lo, hi)
    if second == 'shared':
      check(10. * lo - 1e-9 <= float(out['s']) <= 10. * hi + 1e-9, '{}: {}', what, out['s'])
    ctx.state()
    ctx.outcome((x,))
  check(T.frozen(pd) == before, 'quantile modified its operand')
  # representation does not matter
  ref = pb.PD(','.join(d), d, dims=dims, prob=np.array([w / float(sum(weights)) for w in weights]))
  for q, m, r in zip(LEVELS, multi, ref.quantile(list(LEVELS))):
    if min(abs(c - q) for c in cum) > 1e-9:
      check(T.close(float(m['x']), float(r['x']), 1e-6), 'quantile {} depends on scale or '
            'normalisation: {} vs {}', q, m['x'], r['x'])
      ctx.state()
  ctx.trace()


def run_single(root, ctx):
  """Degenerate cases: scalars only, and a point mass on a single-value axis."""
  import probayes as pb
  kind, ps = root
  s = T.PSCALES[ps]
  if kind == 'scalars':
    pd = pb.PD('x,y', {'x': 2, 'y': 0.5}, prob=raw(.25, s), pscale=s)
    for q in (.1, .5, .9):
      out = pd.quantile(q)
      check(out['x'] == 2 and out['y'] == .5, 'quantile of scalars: {}', out)
    check(len(pd.quantile([.1, .9])) == 2, 'quantile list of scalars')
    e = pd.expectation()
    check(e['x'] == 2 and e['y'] == .5, 'expectation of scalars: {}', e)
  else:
    pd = pb.PD('x', {'x': np.array([7.])}, prob=np.array([raw(1., s)]), pscale=s)
    for q in (.1, .5, .9):
      check(float(pd.quantile(q)['x']) == 7., 'quantile of a point mass')
    check(T.close(float(pd.expectation()['x']), 7.), 'expectation of a point mass')
  ctx.step(4)
  ctx.state(4)
  ctx.trace()


def run_prod(root, ctx):
  """Independent repetitions: products along one or more axes."""
  import probayes as pb
  layout, ncond, pscale, reverse, deep = root
  pd, tab, ps = T.build_pd(pb, layout, ncond, pscale, False, reverse)
  if deep:
    pd = pb.PD(pd.name, dict(pd), dims=pd.dims, prob=pd.prob + deep, pscale=ps)
  before = T.frozen(pd)
  groups = [set(g[0]) for g in tab.groups]
  for keys in subsets(tab.marg):
    ks = set(keys)
    if not all(g <= ks or not g & ks for g in groups) or ks & set(tab.scal):
      continue
    gs = {tab.group_of(k) for k in keys}
    keep = [g for g in range(len(tab.groups)) if g not in gs]
    p = {}
    for idx, v in tab.p.items():
      at = tuple(idx[g] for g in keep)
      p[at] = p.get(at, 1.) * v
    scal = dict(tab.scal)
    for k in keys:
      scal[k] = ('set', len(tab.groups[tab.group_of(k)][1]))
    want = T.Table(tab.marg, tab.cond, scal, [tab.groups[g] for g in keep], p)
    for arg in [list(keys), set(keys)] + ([keys[0]] if len(keys) == 1 else []):
      out = pd.prod(arg)
      ctx.step()
      what = 'prod {!r}'.format(arg)
      if deep:
        n = np.prod([len(tab.groups[g][1]) for g in gs])
        out = pb.PD(out.name, dict(out), dims=out.dims, prob=np.asarray(out.prob)[()] - deep * n, pscale=out.pscale)
      T.compare(T.of_pd(out, what), want, what)
      check(T.frozen(pd) == before, '{} modified its operand', what)
      check(T.is_log(out.pscale) == T.is_log(ps), '{}: {} became {}', what, ps, out.pscale)
      ctx.state()
    ctx.outcome(tuple(np.ravel(out.prob)))
  for k in tab.marg + tab.cond:
    if k in tab.cond or k in tab.scal:
      try:
        pd.prod(k)
      except Exception:
        ctx.state()
      else:
        raise Violation('prod over {} was answered'.format(k))
  ctx.trace()


def bin_of(v, edges):
  n = sum(1 for e in edges if e <= v)
  return max(0, min(len(edges) - 1, n - 1))


def run_remarg(root, ctx):
  """Mass lands in the bin of each mapped value, conditionals stay as they are."""
  import probayes as pb
  order, pscale, cond, mapping, nbins, offs = root
  ps = T.PSCALES[pscale]
  xs, ys, cs = [0., 1., 2.], [-1., 1.], [5, 6]
  names = ['x', 'y'] + (['c'] if cond else [])
  sizes = {'x': 3, 'y': 2, 'c': 2}
  arrs = names if cond != 'scalar' else ['x', 'y']
  perm = list(itertools.permutations(range(len(arrs))))[order]
  dims = dict(zip(arrs, perm))
  shape = [0] * len(arrs)
  for k in arrs:
    shape[dims[k]] = sizes[k]
  lin = np.array(T.generic_probs(int(np.prod(shape)))).reshape(shape)
  vals = {'x': np.array(xs), 'y': np.array(ys)}
  if cond:
    vals['c'] = np.array(cs) if cond == 'array' else 5
  arr = np.array([raw(p, ps) for p in np.ravel(lin)]).reshape(shape) + offs
  pd = pb.PD('x,y' + ('|c' if cond else ''), vals, dims=dims, prob=arr, pscale=ps)
  before = T.frozen(pd)
  zeros = np.zeros(shape)
  X, Y = pd['x'] + zeros, pd['y'] + zeros
  F = {'sum': lambda x, y: x + y, 'dif': lambda x, y: x - y, 'x': lambda x, y: x,
       'prod': lambda x, y: x * y}
  outk = mapping
  edges = {k: [(-3.5 + 1.5 * i * (j + 1)) for i in range(nbins)] for j, k in enumerate(outk)}
  dist = pb.Distribution(','.join(outk), {k: np.array(edges[k]) for k in outk})
  m = {k: F[k](X, Y) for k in outk}
  ways = [lambda: pd.remarginalise(dist, dict(m)), lambda: pd.remarginalise(dist, **m)]
  groups = [((k,), [(e,) for e in edges[k]]) for k in outk]
  if cond == 'array':
    groups.append((('c',), [(c,) for c in cs]))
  p = {i: 0. for i in itertools.product(*[range(len(g[1])) for g in groups])}
  for idx in np.ndindex(*shape):
    x, y = xs[idx[dims['x']]], ys[idx[dims['y']]]
    at = tuple(bin_of(F[k](x, y), edges[k]) for k in outk)
    if cond == 'array':
      at += (idx[dims['c']],)
    p[at] += lin[idx]
  want = T.Table(list(outk), ['c'] if cond else [], {'c': 5} if cond == 'scalar' else {}, groups, p)
  for way in ways:
    out = way()
    ctx.step()
    if offs:
      out = pb.PD(out.name, dict(out), dims=out.dims, prob=out.prob - offs, pscale=out.pscale)
    T.compare(T.of_pd(out, 'remarginalise'), want, 'remarginalise onto {}'.format(outk))
    check(out.pscale == ps and T.frozen(pd) == before, 'remarginalise changed scale or operand')
    ctx.state()
  ctx.outcome(tuple(np.ravel(out.prob)))
  ctx.trace()


def run_concat(root, ctx):
  """Sums (concatenations): scalar samples, and arrays differing on one axis."""
  import probayes as pb
  kind, n, pscale, ncond, axis, sizes = root
  ps = T.PSCALES[pscale]
  if kind == 'scalars':
    keys = ['x', 'y', 'w'][:2 + (ncond > 1)]
    marg, cond = keys[:len(keys) - ncond], keys[len(keys) - ncond:]
    name = ','.join(marg) + ('|' + ','.join(cond) if cond else '')
    pds, rows = [], []
    for i in range(n):
      row = tuple(T.VALUES[k][(i * i + j) % 4] for j, k in enumerate(keys))
      rows.append((row, T.generic_probs(n)[i]))
      pds.append(pb.PD(name, dict(zip(keys, row)), prob=raw(rows[-1][1], ps), pscale=ps))
    snap = [T.frozen(p) for p in pds]
    outs = [pb.summate(*pds)] + ([pds[0] + pds[1]] if n == 2 else [])
    ctx.step(len(outs))
    want = T.Table(marg, cond, {}, [(tuple(keys), [r for r, _ in rows])],
                   {(i,): p for i, (_, p) in enumerate(rows)})
    for out in outs:
      T.compare(T.of_pd(out), want, 'sum of {} samples'.format(n), order=True)
      check(out.pscale == ps, 'sum changed scale')
      ctx.state()
    check([T.frozen(p) for p in pds] == snap, 'sum modified an operand')
    # a repetition count is added up rather than listed
    sets = [pb.PD('x,y', {'x': {i + 1}, 'y': i}, prob=raw(.5, ps), pscale=ps) for i in range(n)]
    out = pb.summate(*sets)
    check(out['x'] == {sum(i + 1 for i in range(n))}, 'repetition counts: {}', out['x'])
    check(list(np.ravel(out['y'])) == list(range(n)), 'values next to repetition counts')
    ctx.step()
    ctx.trace()
    return
  # arrays
  keys = ['x', 'y', 'w']
  dims = dict(zip(keys, list(itertools.permutations(range(3)))[n]))
  if kind == 'shared':
    dims = {'x': 0, 'y': 0, 'w': 1} if n % 2 else {'x': 1, 'y': 1, 'w': 0}
  ndim = max(dims.values()) + 1
  marg, cond = keys[:3 - ncond], keys[3 - ncond:]
  name = ','.join(marg) + ('|' + ','.join(cond) if cond else '')
  base = {d: 2 + d for d in range(ndim)}
  pds, cursor, chunks, starts = [], 0, [], []
  for size in sizes:
    starts += [0 if kind == 'overlap' and not i else i + cursor for i in range(size)]
    shape = [base[d] for d in range(ndim)]
    shape[axis % ndim] = size
    vals = {}
    for k in keys:
      start = cursor if dims[k] == axis % ndim else 0
      vals[k] = np.arange(start, start + shape[dims[k]], dtype=float) * (1. + keys.index(k))
      if dims[k] == axis % ndim and kind == 'overlap':    # every chunk begins with the same value
        vals[k][0] = 0.
    lin = np.array(T.generic_probs(int(np.prod(shape)) + cursor)[cursor:]).reshape(shape)
    chunks.append(lin)
    pds.append(pb.PD(name, vals, dims=dims, prob=np.array([raw(p, ps) for p in np.ravel(lin)])
                     .reshape(shape), pscale=ps))
    cursor += size
  snap = [T.frozen(p) for p in pds]
  out = pb.summate(*pds)
  ctx.step()
  lin = np.concatenate(chunks, axis=axis % ndim)
  groups = []
  for d in range(ndim):
    ks = tuple(k for k in keys if dims[k] == d)
    groups.append((ks, [tuple(float(i) * (1. + keys.index(k)) for k in ks)
                        for i in (starts if d == axis % ndim else range(lin.shape[d]))]))
  want = T.Table(marg, cond, {}, groups, {i: float(lin[i]) for i in np.ndindex(*lin.shape)})
  T.compare(T.of_pd(out), want, 'sum along axis {}'.format(axis % ndim))
  check([T.frozen(p) for p in pds] == snap, 'sum modified an operand')
  ctx.state()
  ctx.trace()


def run_unlike(root, ctx):
  """Sums of two distributions of any layouts: concatenated along the one axis where they differ, or refused."""
  import probayes as pb
  ncond, lays, scales, differ = root
  keys = [k for k, _ in lays[0]]
  marg, cond = keys[:len(keys) - ncond], keys[len(keys) - ncond:]
  ops, tabs = [], []
  for i, (lay, sc) in enumerate(zip(lays, scales)):
    ps = T.PSCALES[sc]
    axes = {k: a for k, a in lay if a is not None}
    n = len(set(axes.values()))
    vals = {}
    for k in keys:
      rows = T.value_rows(k, 4)[2:] if i and k in differ else T.value_rows(k, 2)
      vals[k] = np.array(rows) if k in axes else rows[1]
    lin = T.generic_probs(16)[8 * i:8 * i + 2 ** n]
    ops.append(pb.PD(','.join(marg) + ('|' + ','.join(cond) if cond else ''), vals, dims={k: axes.get(k) for k in vals} if n else None,
                     prob=np.array([raw(p, ps) for p in lin]).reshape([2] * n) if n else raw(lin[0], ps), pscale=ps))
    tabs.append(T.of_pd(ops[-1]))
  snap = [T.frozen(p) for p in ops]
  axes = dict(lays[0])
  same = lays[0] == lays[1] and scales[0] == scales[1]
  used = sorted({a for a in axes.values() if a is not None})
  moved = {axes[k] for k in differ}
  if same and len(used) == 1:
    moved |= set(used)
  ctx.step()
  try:
    out = ops[0] + ops[1]
  except Exception as exc:
    check(not same or (used and (len(moved) != 1 or None in moved)), '{}: the sum of {} was refused: {!r}', root, [dict(p) for p in ops], exc)
    out = None
  check([T.frozen(p) for p in ops] == snap, '{}: the sum modified an operand', root)
  ctx.state()
  ctx.trace()
  if out is None:
    return
  if used:
    check(same and len(moved) == 1 and None not in moved, '{}: {} and {} were summed to {}', root, dict(ops[0]), dict(ops[1]), dict(out))
    at = list(moved)[0]
    g = [i for i, (ks, _) in enumerate(tabs[0].groups) if axes[ks[0]] == at][0]
    groups = [(ks, rows + tabs[1].groups[i][1] if i == g else rows) for i, (ks, rows) in enumerate(tabs[0].groups)]
    p = dict(tabs[0].p)
    p.update({tuple(v + 2 * (i == g) for i, v in enumerate(idx)): q for idx, q in tabs[1].p.items()})
    want = T.Table(marg, cond, tabs[0].scal, groups, p)
  else:
    check(scales[0] == scales[1], '{}: different scales were summed', root)
    want = T.Table(marg, cond, {}, [(tuple(keys), [tuple(t.scal[k] for k in keys) for t in tabs])], {(i,): t.p[()] for i, t in enumerate(tabs)})
  T.compare(T.of_pd(out), want, '{}: sum'.format(root))


def run_steep(root, ctx):
  """Expectations and remarginalised masses where log probabilities span more than doubles can hold."""
  import probayes as pb
  layout, nc, zeros, slopes = root
  pd, tab, ps = T.build_pd(pb, layout, nc, 'log', zeros)
  deep, tab = T.steep(pb, pd, tab, slopes[:pd.ndim])
  before = T.frozen(deep)
  if any(set(g[0]) & set(tab.cond) and set(g[0]) & set(tab.marg) for g in tab.groups):
    return
  for keys in subsets(tab.marg):
    out = deep.expectation(list(keys))
    ctx.step()
    gs = {tab.group_of(k) for k in keys if tab.group_of(k) is not None}
    keep = sorted((g for g in range(len(tab.groups)) if g not in gs), key=lambda g: deep.dims[tab.groups[g][0][0]])
    for k in keys:
      g = tab.group_of(k)
      if g is None:
        check(out[k] == tab.scal[k], '{}: scalar {} -> {}', root, k, out[k])
        continue
      pos = tab.groups[g][0].index(k)
      num, den = {}, {}
      for idx, p in tab.p.items():
        at = tuple(idx[h] for h in keep)
        num[at] = num.get(at, 0) + p * float(tab.groups[g][1][idx[g]][pos])
        den[at] = den.get(at, 0) + p
      got = np.asarray(out[k], dtype=float)
      for at in num:
        want = float(num[at] / den[at]) if den[at] else 0.
        check(T.close(float(got[at]), want, 1e-9, 1e-12), 'expectation({}) at slopes {}: E[{}] at {} is {} and not {}', keys, slopes, k,
              at, got[at], want)
      ctx.state()
  # all marginal variables moved onto the bins of one of them
  numeric = [k for k in tab.marg if tab.group_of(k) is not None and k != 'z']
  if not any(k in tab.scal for k in tab.marg) and numeric and deep.ndim:
    k = numeric[0]
    vals = deep[k] + np.zeros(deep.shape)
    edges = sorted(set(np.ravel(vals).tolist()))
    dist = pb.Distribution(k, {k: np.array(edges)})
    out = deep.remarginalise(dist, {k: vals})
    gs = [g for g in range(len(tab.groups)) if not set(tab.groups[g][0]) & set(tab.cond)]
    keep = [g for g in range(len(tab.groups)) if g not in gs]
    g0 = tab.group_of(k)
    p = {(b,) + tuple(idx): 0 for b in range(len(edges)) for idx in itertools.product(*[range(len(tab.groups[g][1])) for g in keep])}
    for idx, v in tab.p.items():
      p[(edges.index(float(tab.groups[g0][1][idx[g0]][tab.groups[g0][0].index(k)])),) + tuple(idx[g] for g in keep)] += v
    want = T.Table([k], tab.cond, {c: tab.scal[c] for c in tab.cond if c in tab.scal},
                   [((k,), [(e,) for e in edges])] + [tab.groups[g] for g in keep], p)
    T.compare_big(T.of_pd_big(pb, out), want, 'remarginalise onto {} at slopes {}'.format(k, slopes))
    ctx.step()
    ctx.state()
  check(T.frozen(deep) == before, '{}: operand modified', root)
  ctx.trace()


def spaces(tier):
  full = tier != 'quick'
  keys3 = ['y', 'z', 'x']
  ex = [(lay, nc, ps, rev, 0.) for n in (1, 2, 3) for lay in T.layouts(keys3[:n]) for nc in range(n)
        for ps in T.PSCALES for rev in (False, True)]
  ex += [(lay, nc, 'log', False, o) for lay in T.layouts(keys3) for nc in (0, 1) for o in (-1200., 800.)]
  if full:
    ex += [(lay, nc, ps, False, 0.) for lay in T.layouts(['y', 'x', 'w', 'z']) for nc in (0, 1, 2)
           for ps in ('lin', 'off')]
  W = (0.05, 1., 3.)
  qs = [(w, d, ps, nm, 0., sec) for n in (2, 3, 4) for w in itertools.product(W, repeat=n)
        for d in (False, True) for ps in (('lin', 'off') if not full else T.PSCALES)
        for nm in (True, False) for sec in (None, 'scalar', 'shared')]
  qs += [(tuple(W[(i * j + k) % 3] for i in range(n)), d, ps, nm, 0., sec) for n in (7, 12) for j in (0, 1, 2, 5) for k in (0, 1, 2)
         for d in (False, True) for ps in T.PSCALES for nm in (True, False) for sec in (None, 'scalar', 'shared')]
  qs += [(w, False, 'log', True, o, None) for w in itertools.product(W, repeat=3)
         for o in (-1200., 800.)]
  single = [(k, ps) for k in ('scalars', 'point') for ps in T.PSCALES]
  pr = [(lay, nc, ps, rev, 0.) for n in (1, 2, 3) for lay in T.layouts(keys3[:n]) for nc in range(n)
        for ps in T.PSCALES for rev in (False, True)]
  pr += [(lay, nc, 'log', False, o) for lay in T.layouts(keys3) for nc in (0, 1) for o in (-500., 300.)]
  maps = [('sum',), ('dif',), ('sum', 'dif'), ('prod', 'x')]
  rm = [(o, ps, c, m, nb, 0.) for c in (None, 'scalar', 'array') for o in range(6 if c == 'array' else 2)
        for ps in T.PSCALES for m in maps for nb in (2, 4)]
  rm += [(0, 'log', c, m, 4, o) for c in (None, 'array') for m in maps for o in (-1200.,)]
  cc = [('scalars', n, ps, nc, 0, ()) for n in (2, 3, 4, 7, 12) for ps in T.PSCALES for nc in (0, 1)]
  cc += [(kind, n, ps, nc, ax, sz) for kind in ('arrays', 'shared', 'overlap') for n in range(6)
         for ps in ('lin', 'off') for nc in (0, 1) for ax in range(3)
         for sz in ((2, 3), (3, 3), (1, 2, 3), (2, 1, 1))]
  un = [(nc, lays, sc, differ) for keys in (['x'], ['x', 'y'], ['x', 'y', 'w']) for nc in range(len(keys))
        for lays in itertools.product(list(T.layouts(keys)), repeat=2) if len(keys) < 3 or full or lays[0] == lays[1]
        for sc in (('lin', 'lin'), ('off', 'off'), ('lin', 'off')) if sc[0] == sc[1] or lays[0] == lays[1]
        for r in range(len(keys) + 1) for differ in itertools.combinations(keys, r)]
  steeps = [(lay, nc, z, sl) for k in (1, 2, 3) for lay in T.layouts(['y', 'z', 'x'][:k]) for nc in range(k) for z in (False, True)
            for n in [1 + max([a for _, a in lay if a is not None], default=-1)] if n
            for sl in itertools.product((0., 450., -1300.), repeat=n)]
  wide = [(lay, nc, ps, ps == 'off', 0.) for lay in T.large() for nc in range(min(3, len(lay))) for ps in ('lin', 'coef', 'log', 'off')]
  return [Space('larger', wide, run_expect, 'expectations over sets of up to 12 values and up to 6 variables'),
          Space('larger-products', wide, run_prod, 'products over sets of up to 12 values and up to 6 variables'),
          Space('steep', steeps, run_steep, 'all layouts of up to 3 variables, slopes 0, 450 and -1300 of the log along every axis'),
          Space('unlike', un, run_unlike, 'sums of all pairs of layouts of up to 3 variables, differing in any of them'),
          Space('expectation', ex, run_expect, 'all layouts of <=3 variables, scales, key subsets, '
                'exponents 0..3; log offsets -1200, 800'),
          Space('quantile', qs, run_quant, 'all weight patterns of length 2..4 over 3 weights, both '
                'directions, scales, nine levels'),
          Space('degenerate', single, run_single, 'scalars and point masses at every scale'),
          Space('iid-product', pr, run_prod, 'all layouts of <=3 variables, scales, key sets'),
          Space('remarginal', rm, run_remarg, 'all axis orders x scales x conditionals x maps'),
          Space('concatenate', cc, run_concat, 'all axis orders x concatenation axes x chunk sizes')]
