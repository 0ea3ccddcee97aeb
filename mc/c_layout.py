"""Slicing, lookup, sorting, renaming and re-ordering preserve the table."""
import itertools

import numpy as np

from mc.core import Space, Violation, check
from mc import table as T

PROPERTY = 'P06'
ASSUMPTIONS = ['queried values are scalars', 'axis values may repeat in the repeat space only']


def slice_table(tab, at, keepdims):
  """Reference slice: rows of each group matching all the requested values."""
  sel, scal = [], dict(tab.scal)
  for keys, rows in tab.groups:
    want = {k: at[k] for k in keys if k in at}
    if not want:
      sel.append(list(range(len(rows))))
      continue
    sel.append([i for i, r in enumerate(rows)
                if all(r[keys.index(k)] == v for k, v in want.items())])
  groups, drop = [], []
  for g, (keys, rows) in enumerate(tab.groups):
    if any(k in at for k in keys) and len(sel[g]) == 1 and not keepdims:
      drop.append(g)
      scal.update(zip(keys, rows[sel[g][0]]))
    else:
      groups.append((keys, [rows[i] for i in sel[g]]))
  p = {}
  for idx in itertools.product(*[range(len(s)) for s in sel]):
    src = tuple(sel[g][i] for g, i in enumerate(idx))
    p[tuple(i for g, i in enumerate(idx) if g not in drop)] = tab.p[src]
  return T.Table(tab.marg, tab.cond, scal, groups, p)


def queries(tab):
  """Every subset of array keys x every row value (and one absent value)."""
  arr = [k for keys, _ in tab.groups for k in keys]
  for r in range(1, len(arr) + 1):
    for ks in itertools.combinations(arr, r):
      doms = []
      for k in ks:
        g = tab.group_of(k)
        keys, rows = tab.groups[g]
        dom = []
        for row in rows:
          v = row[keys.index(k)]
          if v not in dom:
            dom.append(v)
        doms.append(dom)
      for vs in itertools.product(*doms):
        yield dict(zip(ks, vs))


def check_meta(pd, tab, ctx):
  """Shape bookkeeping of the distribution itself."""
  n = len(tab.groups)
  check(pd.issingleton == (n == 0), 'issingleton is {} with {} axes', pd.issingleton, n)
  check(list(pd.keylist) == list(pd.keys()) and pd.keyset == frozenset(pd.keys()),
        'keylist/keyset {} {}', pd.keylist, pd.keyset)
  for i, k in enumerate(pd.keylist):
    check(bool(pd.aresingleton[i]) == (tab.group_of(k) is None), 'aresingleton of {}', k)
    check(bool(pd.singleton(k)) == (tab.group_of(k) is None), 'singleton({!r}) is {}', k,
          pd.singleton(k))
    check(bool(pd.singleton(i)) == (tab.group_of(k) is None), 'singleton({}) is {}', i,
          pd.singleton(i))
  check(bool(pd.singleton()) == (n == 0), 'singleton() is {}', pd.singleton())
  if n:
    check(pd.ndim == n and list(pd.shape) == list(pd.prob.shape) and
          pd.size == pd.prob.size, 'ndim/shape/size {} {} {}', pd.ndim, pd.shape, pd.size)
    check(list(pd.sizes) == [pd[k].size for k in pd.keylist if pd.dims[k] is not None],
          'sizes {}', pd.sizes)
  ctx.state()


def run(root, ctx):
  import probayes as pb
  layout, ncond, pscale, reverse = root
  pd, tab, ps = T.build_pd(pb, layout, ncond, pscale, False, reverse)
  before = T.frozen(pd)
  T.compare(T.of_pd(pd), tab, 'construction', order=True)
  check_meta(pd, tab, ctx)

  # slicing
  for at in queries(tab):
    for keep in (False, True):
      out = pd(dict(at), keepdims=keep) if keep else pd(dict(at))
      ctx.step()
      what = 'slice {} keepdims={}'.format(at, keep)
      want = slice_table(tab, at, keep)
      if all(len(r) for _, r in want.groups):
        T.compare(T.of_pd(out, what), want, what, order=True)
        check_meta(out, want, ctx)
      else:
        check(out.size == 0, '{}: nothing matches but the result has size {}', what, out.size)
      check(out.pscale == ps, '{}: scale changed', what)
      check(T.frozen(pd) == before, '{} modified its operand', what)
      ctx.state()
      ctx.outcome(tuple(np.ravel(out.prob)))
  arr = [k for keys, _ in tab.groups for k in keys]
  for k in arr:
    out = pd({k: -77})
    check(out.size == 0, 'slice at an absent value of {} has size {}', k, out.size)
    ctx.step()
  for k, v in tab.scal.items():
    for at in [{k: pd[k]}] + [{k: pd[k], a: np.ravel(pd[a])[0].item()} for a in arr]:
      what = 'slice {}'.format(at)
      want = slice_table(tab, {a: w for a, w in at.items() if a != k}, False)
      T.compare(T.of_pd(pd(dict(at)), what), want, what, order=True)
      ctx.step()
  try:
    pd({'absent_key': 1})
  except Exception:
    pass
  else:
    raise Violation('slice by an unknown variable was answered')

  # lookup of marginals / conditionals / any key subset
  def judge_lookup(got, keys, what):
    seen = set()
    for k, v in got.items():
      parts = k.split(',')
      cols = v if len(parts) > 1 else (v,)
      check(len(cols) == len(parts), '{}: {} has {} columns', what, k, len(cols))
      for part, col in zip(parts, cols):
        seen.add(part)
        if part in tab.scal:
          w = tab.scal[part]
          c = ('set', list(col)[0]) if isinstance(col, set) else T.py(col)
          check(T.same_value(c, w), '{}: {} is {}', what, part, col)
        else:
          g = tab.group_of(part)
          ks, rows = tab.groups[g]
          check([T.py(c) for c in np.ravel(col)] == [r[ks.index(part)] for r in rows],
                '{}: values of {} are {}', what, part, col)
          if len(parts) > 1:
            check(set(parts) <= set(ks), '{}: {} do not share an axis', what, parts)
          check(set(parts) == set(ks) & set(keys), '{}: {} came without others of their axis', what, parts)
    check(seen == set(keys), '{}: keys {} where {} were due', what, seen, keys)
    ctx.state()

  ctx.step(2)
  if tab.marg:
    judge_lookup(pd('marg'), tab.marg, "lookup of marginals")
  judge_lookup(pd('cond'), tab.cond, "lookup of conditionals")
  allk = list(pd.keys())
  for r in range(1, len(allk) + 1):
    for ks in itertools.combinations(allk, r):
      judge_lookup(pd.lookup(list(ks)), ks, 'lookup {}'.format(ks))
      ctx.step()
      sub = pd.lookup(list(ks), as_dist=True)
      ctx.step()
      check(set(sub.keys()) == set(ks), 'lookup as distribution {}', ks)
      axes = sorted({pd.dims[k] for k in ks if pd.dims[k] is not None})
      for k in ks:
        if pd.dims[k] is None:
          check(sub.dims[k] is None and sub[k] == pd[k], 'lookup as distribution: {} is {}', k, sub[k])
          continue
        check(np.array_equal(np.ravel(sub[k]), np.ravel(pd[k])), 'lookup as distribution: values of {}', k)
        check(sub.dims[k] == axes.index(pd.dims[k]), 'lookup as distribution: axis of {}', k)

  # sorting
  for k in allk:
    out = pd.sorted(k)
    ctx.step()
    what = 'sorted by {}'.format(k)
    want = tab.copy()
    g = tab.group_of(k)
    if g is not None:
      keys, rows = tab.groups[g]
      order = sorted(range(len(rows)), key=lambda i: rows[i][keys.index(k)])
      want.groups[g] = (keys, [rows[i] for i in order])
      inv = {o: n for n, o in enumerate(order)}
      want.p = {tuple(inv[i] if h == g else i for h, i in enumerate(idx)): v
                for idx, v in tab.p.items()}
    T.compare(T.of_pd(out, what), want, what, order=True)
    check(out.pscale == ps and T.frozen(pd) == before, '{} changed scale or operand', what)
    ctx.state()

  # renaming: every injective map over up to two keys, swaps included
  maps = [{a: 'n' + a} for a in allk]
  maps += [{a: 'n' + a, b: 'n' + b} for a, b in itertools.combinations(allk, 2)]
  maps += [{a: b, b: a} for a, b in itertools.combinations(allk, 2)]
  maps += [dict(zip(allk, allk[1:] + allk[:1]))] if len(allk) > 2 else []
  for m in maps:
    out = pd.rekey(dict(m))
    ctx.step()
    f = lambda k: m.get(k, k)
    want = T.Table([f(k) for k in tab.marg], [f(k) for k in tab.cond],
                   {f(k): v for k, v in tab.scal.items()},
                   [(tuple(f(k) for k in ks), rows) for ks, rows in tab.groups], tab.p)
    what = 'rekey {}'.format(m)
    T.compare(T.of_pd(out, what), want, what, order=True)
    check(out.pscale == ps and T.frozen(pd) == before, '{} changed scale or operand', what)
    ctx.state()
  for a, b in itertools.permutations(allk, 2):
    try:
      out = pd.rekey({a: b})
    except Exception:
      ctx.state()
    else:
      raise Violation('rekey {} onto the existing variable {} was answered: {}'.format(a, b, out))

  # re-ordering of axes: every permutation
  n = len(tab.groups)
  for perm in itertools.permutations(range(n)):
    dims = {k: (None if d is None else perm[d]) for k, d in pd.dims.items()}
    for full in (True, False):
      req = dims if full else {k: d for k, d in dims.items() if d is not None}
      if not req:
        continue
      out = pd.redim(dict(req))
      ctx.step()
      what = 'redim {}'.format(req)
      T.compare(T.of_pd(out, what), tab, what, order=True)
      check(all(out.dims[k] == d for k, d in dims.items()), '{} gave axes {}', what, out.dims)
      check(out.pscale == ps and T.frozen(pd) == before, '{} changed scale or operand', what)
      ctx.state()
  ctx.trace()
  ctx.sample('{} conditional={} scale={}'.format(layout, ncond, pscale))


def run_repeat(root, ctx):
  """Axes with repeated values: a slice keeps every matching position."""
  import probayes as pb
  xs, ys, order, pscale, shared = root
  s = T.PSCALES[pscale]
  from mc.c_prod import raw
  if shared:
    lin = T.generic_probs(len(xs) * 2)
    vals = {'x': np.array(xs), 'y': np.array(ys), 'z': np.array([False, True])}
    dims = {'x': order, 'y': order, 'z': 1 - order}
    shape = [2, 2]
    shape[order] = len(xs)
    groups = [(('x', 'y'), list(zip(xs, ys))), (('z',), [(False,), (True,)])]
    name = 'x,y,z'
  else:
    lin = T.generic_probs(len(xs) * len(ys))
    vals = {'x': np.array(xs), 'y': np.array(ys)}
    dims = {'x': order, 'y': 1 - order}
    shape = [0, 0]
    shape[order], shape[1 - order] = len(xs), len(ys)
    groups = [(('x',), [(v,) for v in xs]), (('y',), [(v,) for v in ys])]
    name = 'x,y'
  arr = np.array([raw(p, s) for p in lin]).reshape(shape)
  pd = pb.PD(name, vals, dims=dims, prob=arr, pscale=s)
  p = {}
  for i, j in itertools.product(range(len(groups[0][1])), range(len(groups[1][1]))):
    at = (i, j) if order == 0 else (j, i)
    p[i, j] = lin[int(np.ravel_multi_index(at, shape))]
  tab = T.Table(name.split(','), [], {}, groups, p)
  T.compare(T.of_pd(pd), tab, 'construction')
  for at in queries(tab):
    for keep in (False, True):
      out = pd(dict(at), keepdims=keep)
      ctx.step()
      want = slice_table(tab, at, keep)
      if not all(len(r) for _, r in want.groups):
        check(out.size == 0, 'empty slice {} has size {}', at, out.size)
      else:
        T.compare(T.of_pd(out), want, 'slice {} keepdims={}'.format(at, keep), order=True)
      ctx.state()
      ctx.outcome(tuple(np.ravel(out.prob)))
  ctx.trace()


def run_names(root, ctx):
  """However the name is written, the same variables are marginal and conditional."""
  import probayes as pb
  nmarg, ncond, scal, wrap, ps = root
  keys = ['x', 'y', 'w'][:nmarg + ncond]
  vals = {k: (T.value_rows(k, 2)[1] if k in scal else np.array(T.value_rows(k, 2 + i))) for i, k in enumerate(keys)}
  shape = [np.size(vals[k]) for k in keys if k not in scal]
  lin = T.generic_probs(int(np.prod(shape)) if shape else 1)
  from mc.c_prod import raw
  s = T.PSCALES[ps]
  prob = np.array([raw(p, s) for p in lin]).reshape(shape) if shape else raw(lin[0], s)
  forms = [[k + f for f in (('', '={}'.format(vals[k])) if k in scal else ('', '=[]'))] for k in keys]
  want = None
  for form in itertools.product(*forms):
    body = ','.join(form[:nmarg]) + ('|' + ','.join(form[nmarg:]) if ncond else '')
    name = wrap.format(body)
    pd = pb.PD(name, dict(vals), prob=prob, pscale=s)
    ctx.step()
    check(list(pd.marg) == keys[:nmarg] and list(pd.cond) == keys[nmarg:], '{}: marginals {} and conditionals {}', name,
          list(pd.marg), list(pd.cond))
    tab = T.of_pd(pd, name)
    if want is None:
      want = tab
    T.compare(tab, want, 'named {}'.format(name))
    for k in keys:
      if k in scal:
        check('{}={}'.format(k, vals[k]) in pd.name, '{} became {}', name, pd.name)
    check(not set('()') & set(pd.name), '{} became {}', name, pd.name)
    if nmarg > 1 and keys[0] not in scal:
      out = pd.marginalise(keys[0])
      check(list(out.marg) == keys[1:nmarg] and list(out.cond) == keys[nmarg:], '{}: marginalised to {}', name, out.name)
      ctx.step()
    ctx.state()
  ctx.trace()


def spaces(tier):
  keys3, keys4 = ['w', 'z', 'y'], ['y', 'x', 'w', 'z']
  roots = [(lay, nc, ps, rev) for n in (1, 2, 3) for lay in T.layouts(keys3[:n])
           for nc in range(n) for ps in T.PSCALES for rev in (False, True)]
  for lay in T.layouts(keys4):
    for nc in ((1,) if tier == 'quick' else (0, 1, 2, 3)):
      for ps in (('log',) if tier == 'quick' else ('lin', 'off')):
        roots.append((lay, nc, ps, False))
  dom = [0, 1]
  rep = [(xs, ys, o, ps, False) for xs in itertools.product(dom, repeat=3)
         for ys in ([5, 5], [5, 6], [5, 6, 5]) for o in (0, 1) for ps in ('lin', 'off')]
  rep += [(xs, ys, o, ps, True) for xs in itertools.product(dom, repeat=3)
          for ys in itertools.product([5, 6], repeat=3) for o in (0, 1) for ps in ('lin', 'log')]
  nam = [(m, c, sc, w, ps) for m in (1, 2, 3) for c in range(4 - m) for r in range(m + c + 1)
         for sc in itertools.combinations(['x', 'y', 'w'][:m + c], r) for w in ('{}', '({})', 'p({})', 'logp({})') for ps in ('lin', 'log')]
  wide = [(lay, nc, ps, ps == 'off') for lay in T.large() for nc in range(min(3, len(lay))) for ps in ('lin', 'off')]
  return [Space('larger', wide, run, 'sets of up to 12 values and up to 6 variables'),
          Space('names', nam, run_names, 'all ways of writing the name of up to three variables'),
          Space('layouts', roots, run, 'all layouts of <=4 keys; all slices, lookups, sorts, '
                'renamings, axis permutations'),
          Space('repeats', rep, run_repeat, 'all value patterns of length 3 over 2 values')]
