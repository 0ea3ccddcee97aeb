"""Product rule: joints of every small family of compatible distributions."""
import itertools
import math

import numpy as np

from mc.core import Space, Violation, check
from mc import table as T

PROPERTY = 'P02'
ASSUMPTIONS = ['operands agree on the values of the variables they share',
               'linear probabilities agree to 1e-9 relative']

# Bayesian-network shapes: each operand is (marginal keys, conditional keys)
FAMILIES = {
    'chain2': [('y', 'x'), ('x', '')],
    'indep2': [('x', ''), ('y', '')],
    'indep3': [('x', ''), ('y', ''), ('w', '')],
    'chain3': [('w', 'y'), ('y', 'x'), ('x', '')],
    'fork': [('y', 'x'), ('w', 'x'), ('x', '')],
    'collider': [('w', 'xy'), ('x', ''), ('y', '')],
    'joint-cond': [('wy', 'x'), ('x', '')],
    'joint-marg': [('w', 'xy'), ('xy', '')],
    'given': [('y', 'wx'), ('x', 'w')],
    'common': [('y', 'w'), ('x', 'w')],
    'single': [('xy', 'w')],
}

LARGER = {
    'wide2': [('v', 't'), ('t', '')],
    'wide3': [('v', 's'), ('s', 't'), ('t', '')],
    'pairs': [('y', 'xw'), ('xw', 'uz'), ('uz', '')],
    'long': [('y', 'x'), ('x', 'w'), ('w', 'u'), ('u', 'z'), ('z', '')],
    'apart': [('x', ''), ('y', ''), ('u', ''), ('z', '')],
    'tree': [('y', 'x'), ('w', 'x'), ('u', 'x'), ('x', 'z'), ('z', '')],
}


def raw(p, s):
  c = T.coef_log(s)
  if T.is_log(s):
    return -1.7976931348623157e308 if p == 0. else math.log(p) - c
  return p / s


def make(pb, marg, cond, scalars, order, ps, seed, zeros, together=()):
  """One operand; order: axis permutation index; together: keys sharing an axis."""
  keys = list(marg) + list(cond)
  arr = [k for k in keys if k not in scalars]
  axes, sizes = {}, {}
  for k in arr:
    if k in together and any(j in axes for j in together):
      axes[k] = next(axes[j] for j in together if j in axes)
    else:
      axes[k] = len(set(axes.values()))
  n = len(set(axes.values()))
  perm = list(itertools.permutations(range(n)))[order % math.factorial(n)] if n else ()
  axes = {k: perm[a] for k, a in axes.items()}
  size = {'x': 3, 'y': 2, 'w': 4, 'u': 2, 'z': 2, **{k: len(v) for k, v in T.LARGE.items()}}
  tog = min([size[k] for k in together] or [0])
  shape = [0] * n
  for k, a in axes.items():
    shape[a] = tog if k in together else size[k]
  total = int(np.prod(shape)) if n else 1
  lin = T.generic_probs(total + seed, zeros)[seed:]
  vals = {k: (np.array(T.value_rows(k, tog if k in together else size[k])) if k in axes
              else T.value_rows(k, 2)[1]) for k in keys}
  flat = [raw(p, ps) for p in lin]
  prob = flat[0] if not n else np.array(flat).reshape(shape)
  name = ','.join(marg) + ('|' + ','.join(cond) if cond else '')
  pd = pb.PD(name, vals, dims=axes or None, prob=prob, pscale=ps)
  groups = []
  for a in range(n):
    ks = tuple(k for k in axes if axes[k] == a)
    groups.append((ks, [tuple(T.value_rows(k, shape[a])[i] for k in ks)
                        for i in range(shape[a])]))
  p = {idx: lin[i] for i, idx in enumerate(itertools.product(*map(range, shape)))}
  tab = T.Table(list(marg), list(cond), {k: T.value_rows(k, 2)[1] for k in scalars
                                         if k in keys}, groups, p)
  return pd, tab


def run(root, ctx):
  import probayes as pb
  fam, scalars, orders, scales, zeros, together = root
  ops = FAMILIES[fam] if fam in FAMILIES else LARGER[fam]
  made = [make(pb, m, c, scalars, o, T.PSCALES[s], 3 * i, zeros, together)
          for i, ((m, c), o, s) in enumerate(zip(ops, orders, scales))]
  marg = [k for m, _ in ops for k in m]
  cond = []
  for _, c in ops:
    cond += [k for k in c if k not in marg and k not in cond]
  want = T.product([t for _, t in made], marg, cond)
  for perm in itertools.permutations(range(len(ops))):
    pds = [made[i][0] for i in perm]
    before = [T.frozen(pd) for pd in pds]
    out = pb.product(*pds)
    ctx.step()
    what = 'product {} of {}'.format([pd.name for pd in pds], fam)
    got = T.of_pd(out, what)
    T.compare(got, want, what)
    check(got.marg == [k for i in perm for k in ops[i][0]],
          '{}: marginals are ordered {}', what, got.marg)
    check([T.frozen(pd) for pd in pds] == before, '{} modified an operand', what)
    check(T.is_log(out.pscale) == any(T.is_log(pd.pscale) for pd in pds),
          '{}: scale of the result is {}', what, out.pscale)
    ctx.state()
    if len(pds) == 2:
      T.compare(T.of_pd(pds[0] * pds[1]), want, what + ' (operator)')
      ctx.step()
    elif len(pds) == 3:
      # pairwise grouping agrees wherever the intermediate product is defined
      for grouped in (lambda: (pds[0] * pds[1]) * pds[2], lambda: pds[0] * (pds[1] * pds[2])):
        if fam in ('indep3', 'chain3'):
          T.compare(T.of_pd(grouped()), want, what + ' (grouped)')
          ctx.step(2)
          ctx.state()
    ctx.outcome(tuple(np.ravel(out.prob)))
  ctx.trace()
  ctx.sample('{} scalars={} axis orders={} scales={}'.format(fam, scalars, orders, scales))


def run_deep(root, ctx):
  """Operands far outside the range of linear doubles, on logarithmic scales."""
  import probayes as pb
  fam, order, scales, offs = root
  ops = FAMILIES[fam]
  made = [make(pb, m, c, (), order, T.PSCALES[s], 3 * i, False) for i, ((m, c), s) in enumerate(zip(ops, scales))]
  marg = [k for m, _ in ops for k in m]
  cond = []
  for _, c in ops:
    cond += [k for k in c if k not in marg and k not in cond]
  want = T.product([t for _, t in made], marg, cond)
  pds = [pb.PD(pd.name, dict(pd), dims=pd.dims, prob=np.asarray(pd.prob) + (o if T.is_log(pd.pscale) else 0.), pscale=pd.pscale)
         for (pd, _), o in zip(made, offs)]
  total = sum(o for (pd, _), o in zip(made, offs) if T.is_log(pd.pscale))
  for perm in itertools.permutations(range(len(ops))):
    out = pb.product(*[pds[i] for i in perm])
    check(T.is_log(out.pscale), 'product of {} came at scale {}', [pd.name for pd in pds], out.pscale)
    back = pb.PD(out.name, dict(out), dims=out.dims, prob=np.asarray(out.prob) - total, pscale=out.pscale)
    T.compare(T.of_pd(back), want, 'product {} at log {}'.format([pds[i].name for i in perm], offs))
    ctx.step()
    ctx.state()
  ctx.trace()


def run_names(root, ctx):
  """Display names (x, x=[]) do not decide whether variables are the same."""
  import probayes as pb
  n1, n2, n3, ps = root
  s = T.PSCALES[ps]
  lx, ly = T.generic_probs(3), T.generic_probs(9)[3:]
  xs, ys = [0, 1, 2], [-1.5, .25]
  px = pb.PD(n1, {'x': np.array(xs)}, prob=np.array([raw(p, s) for p in lx]), pscale=s)
  pyx = pb.PD('|'.join([n2, n3]), {'y': np.array(ys), 'x': np.array(xs)}, dims={'y': 0, 'x': 1},
              prob=np.array([raw(p, s) for p in ly]).reshape(2, 3), pscale=s)
  want = T.Table(['x', 'y'], [], {}, [(('x',), [(x,) for x in xs]), (('y',), [(y,) for y in ys])],
                 {(i, j): lx[i] * ly[3 * j + i] for i in range(3) for j in range(2)})
  for args in ((px, pyx), (pyx, px)):
    T.compare(T.of_pd(pb.product(*args)), want, 'product of {}'.format([a.name for a in args]))
    ctx.step()
    ctx.state()


def run_scale(root, ctx):
  """A requested output scale changes the representation, never the product."""
  import probayes as pb
  fam, scalars, scales, req = root
  ops = FAMILIES[fam]
  made = [make(pb, m, c, scalars, 0, T.PSCALES[s], 3 * i, False)
          for i, ((m, c), s) in enumerate(zip(ops, scales))]
  marg = [k for m, _ in ops for k in m]
  cond = []
  for _, c in ops:
    cond += [k for k in c if k not in marg and k not in cond]
  want = T.product([t for _, t in made], marg, cond)
  rq = {'log-name': 'log'}.get(req, T.PSCALES.get(req))
  out = pb.product(*[p for p, _ in made], pscale=rq)
  ctx.step()
  T.compare(T.of_pd(out), want, 'product at scale {}'.format(req))
  check(T.is_log(out.pscale) == (req not in ('lin', 'coef')),
        'product asked at scale {} came at {}', req, out.pscale)
  ctx.state()


def run_rule(root, ctx):
  """prod_rule / prod_pscale on raw arrays."""
  from probayes import pscales as P
  scales, req, logp = root
  ps = [T.PSCALES[s] for s in scales]
  lins = [np.array(T.generic_probs(6 + i)[i:]).reshape(2, 3)[:, :3 if i < 2 else 1]
          for i in range(len(ps))]
  vals = [np.vectorize(lambda p, s=s: raw(p, s))(l) for l, s in zip(lins, ps)]
  before = [v.copy() for v in vals]
  kw = {'pscales': ps}
  if req:
    kw['pscale'] = T.PSCALES[req]
  if logp is not None:
    kw['use_logp'] = logp
  prob, pscale = P.prod_rule(*vals, **kw)
  ctx.step()
  want = lins[0]
  for l in lins[1:]:
    want = want * l
  check(all(np.array_equal(a, b) for a, b in zip(before, vals)), 'prod_rule modified an operand')
  check(np.shape(prob) == want.shape, 'prod_rule shape {}', np.shape(prob))
  for g, w in zip(np.ravel(prob), np.ravel(want)):
    check(T.close(T.to_linear(g, pscale), w), 'prod_rule {}: {} at {} where {} was due',
          root, g, pscale, w)
  if req:
    check(pscale == T.PSCALES[req], 'prod_rule scale {} where {} was due', pscale, req)
  pp = P.prod_pscale(ps) if logp is None else P.prod_pscale(ps, logp)
  tot = sum(T.coef_log(s) for s in ps)
  check(T.close(T.coef_log(pp), tot), 'prod_pscale({}) = {}', ps, pp)
  check(T.is_log(pp) == (any(map(T.is_log, ps)) if logp is None else logp),
        'prod_pscale({}) = {}', ps, pp)
  ctx.state()
  ctx.trace()


def run_refuse(root, ctx):
  """Incompatible operands are refused."""
  import probayes as pb
  kind, ps = root
  s = T.PSCALES[ps]
  v = lambda p: np.array([raw(q, s) for q in p])
  px = pb.PD('x', {'x': np.arange(2)}, prob=v([.25, .75]), pscale=s)
  py = pb.PD('y', {'y': np.arange(2)}, prob=v([.5, .5]), pscale=s)
  pyx = pb.PD('y|x', {'y': np.arange(2), 'x': np.arange(2)}, dims={'y': 0, 'x': 1},
              prob=v([.1, .2, .9, .8]).reshape(2, 2), pscale=s)
  pyx2 = pb.PD('y|x', {'y': np.arange(2), 'x': np.array([5., 6.])}, dims={'y': 0, 'x': 1},
               prob=v([.1, .2, .9, .8]).reshape(2, 2), pscale=s)
  pw = pb.PD('w|u', {'w': np.arange(2), 'u': np.arange(2)}, dims={'w': 0, 'u': 1},
             prob=v([.1, .2, .9, .8]).reshape(2, 2), pscale=s)
  pnt = pb.PD('n={},x', {'n': {2}, 'x': np.arange(2)}, dims={'n': None, 'x': 0}, prob=v([.25, .75]), pscale=s)
  args = {'same marginal': (px, px), 'same marginal with a set': (pnt, pnt), 'same marginal of conditional': (pyx, py),
          'values disagree': (pyx2, px), 'different conditions': (pyx, pw)}[kind]
  ctx.step()
  try:
    out = pb.product(*args)
  except Exception:
    ctx.state()
    return
  raise Violation('product of {} ({}) was answered: {}'.format(
      [a.name for a in args], kind, out))


def misfits(n):
  """Sets of n values unlike 0..n-1 in one member, in their order or in number."""
  base = [float(i) for i in range(n)]
  out = [base[:i] + [base[i] + d] + base[i + 1:] for i in range(n) for d in (.25, -1., 100.)]
  out += [base[:i] + [base[j]] + base[i + 1:j] + [base[i]] + base[j + 1:] for i in range(n) for j in range(i + 1, n)]
  out += [base[::-1], base[1:] + base[:1], base[:-1], base + [float(n)], base[1:], [-v for v in base]]
  return [o for o in out if o != base]


def run_misfit(root, ctx):
  """Distributions over sets that differ anywhere are neither multiplied nor divided."""
  import probayes as pb
  n, ps, kind = root
  s = T.PSCALES[ps]
  lin = T.generic_probs(2 * n + 2)
  v = lambda p: np.array([raw(q, s) for q in p])
  base = np.arange(n, dtype=float)
  for vals in [list(base)] + misfits(n):
    m = len(vals)
    if kind == 'condition':
      a = pb.PD('y|x', {'y': np.arange(2), 'x': base}, dims={'y': 0, 'x': 1}, prob=v(lin[:2 * n]).reshape(2, n), pscale=s)
      b = pb.PD('x', {'x': np.array(vals)}, prob=v(lin[:m]), pscale=s)
    elif kind == 'shared condition':
      a = pb.PD('y|x', {'y': np.arange(2), 'x': base}, dims={'y': 0, 'x': 1}, prob=v(lin[:2 * n]).reshape(2, n), pscale=s)
      b = pb.PD('w|x', {'w': 3, 'x': np.array(vals)}, dims={'w': None, 'x': 0}, prob=v(lin[:m]), pscale=s)
    elif kind == 'set':
      a = pb.PD('n={}|x', {'n': {2}, 'x': base}, dims={'n': None, 'x': 0}, prob=v(lin[:n]), pscale=s)
      b = pb.PD('n={}|x', {'n': {3}, 'x': np.array(vals)}, dims={'n': None, 'x': 0}, prob=v(lin[:m]), pscale=s)
    else:
      a = pb.PD('y,x', {'y': np.arange(2), 'x': base}, dims={'y': 0, 'x': 1}, prob=v(lin[:2 * n]).reshape(2, n), pscale=s)
      b = pb.PD('x', {'x': np.array(vals)}, prob=v(lin[:m]), pscale=s)
    for flip in (False, True):
      if kind == 'quotient' and flip:
        continue
      ctx.step()
      ctx.state()
      try:
        out = a / b if kind == 'quotient' else b * a if flip else a * b
      except Exception as exc:
        check(vals != list(base), '{} of matching operands was refused: {!r}', kind, exc)
        continue
      check(vals == list(base), '{}: values {} and {} were combined into {}', kind, base, vals, out)
  ctx.trace()


def run_sets(root, ctx):
  """Products over unspecified sets of observations accumulate their sizes."""
  import probayes as pb
  n1, n2, nm, ps1, ps2, arr, req = root
  s1, s2 = T.PSCALES[ps1], T.PSCALES[ps2]
  if arr:
    vals = {'x': {n1}, 'w': np.array([5, 3, 9])}
    l1, l2 = T.generic_probs(3), T.generic_probs(6)[3:]
    p1 = pb.PD('x={}|w', dict(vals), dims={'w': 0}, prob=np.array([raw(p, s1) for p in l1]), pscale=s1)
    p2 = pb.PD('x={}|w', dict(vals, x={n2}), dims={'w': 0},
               prob=np.array([raw(p, s2) for p in l2]), pscale=s2)
    want = T.Table(['x'], ['w'], {'x': ('set', n1 + n2)}, [(('w',), [(5,), (3,), (9,)])],
                   {(i,): l1[i] * l2[i] for i in range(3)})
  else:
    p1 = pb.PD('x={}', {'x': {n1}}, prob=raw(.3, s1), pscale=s1)
    p2 = pb.PD('x={}', {'x': {n2}}, prob=raw(.7, s2), pscale=s2)
    want = T.Table(['x'], [], {'x': ('set', n1 + n2)}, [], {(): .21})
  b = T.frozen(p1), T.frozen(p2)
  out = pb.product(p1, p2)
  ctx.step()
  T.compare(T.of_pd(out), want, 'product over observation sets')
  check(b == (T.frozen(p1), T.frozen(p2)), 'product over sets modified an operand')
  ctx.state()


def run_mixed(root, ctx):
  """Products of operands each with a layout of its own."""
  import probayes as pb
  fam, lays, scales, differ = root
  ops, tabs, axes = [], [], []
  seed = 0
  for i, ((marg, cond), lay, sc) in enumerate(zip(FAMILIES[fam], lays, scales)):
    ps = T.PSCALES[sc]
    own = {k: a for k, a in lay if a is not None}
    n = len(set(own.values()))
    vals = {}
    for k in marg + cond:
      rows = T.value_rows(k, 3)[1:] if differ == (i, k) else T.value_rows(k, 2)
      vals[k] = np.array(rows) if k in own else rows[1]
    lin = T.generic_probs(seed + 2 ** n)[seed:]
    seed += 5
    pd = pb.PD(','.join(marg) + ('|' + ','.join(cond) if cond else ''), vals,
               dims={k: own.get(k) for k in vals} if n else None,
               prob=np.array([raw(p, ps) for p in lin]).reshape([2] * n) if n else raw(lin[0], ps), pscale=ps)
    ops.append(pd)
    tabs.append(T.of_pd(pd))
    axes.append(own)
  keys = sorted({k for m, c in FAMILIES[fam] for k in m + c})
  # variables that go together in any operand go together in the product
  root_of = {k: k for k in keys}

  def find(k):
    while root_of[k] != k:
      k = root_of[k]
    return k
  for own in axes:
    for j, k in itertools.combinations(own, 2):
      if own[j] == own[k]:
        root_of[find(j)] = find(k)
  fit = not differ
  for k in keys:
    kinds = {k in own for own, (m, c) in zip(axes, FAMILIES[fam]) if k in m + c}
    fit = fit and len(kinds) == 1
  for own in axes:  # but not if they vary separately in another
    fit = fit and not any(own[j] != own[k] and find(j) == find(k) for j, k in itertools.combinations(own, 2))
  # chains of variables that go together two by two are not said to be supported
  sure = fit and all(any({k for k in keys if any(k in o for o in axes) and find(k) == g} <= {k for k in own if own[k] == a} for own in axes for a in own.values())
                     for g in {find(k) for k in keys if any(k in o for o in axes)})
  for perm in itertools.permutations(range(len(ops))):
    ctx.step()
    frozen = [T.frozen(o) for o in ops]
    try:
      out = pb.product(*[ops[i] for i in perm])
    except Exception as exc:
      check(not sure, 'the product of {} was refused: {!r}', [(ops[i].name, dict(ops[i].dims)) for i in perm], exc)
      out = None
    check([T.frozen(o) for o in ops] == frozen, '{}: the product modified an operand', root)
    ctx.state()
    if out is None:
      continue
    check(fit, '{}: operands that do not match were multiplied into {}', root, out)
    array = [k for k in keys if any(k in o for o in axes)]
    groups = []
    for g in sorted({find(k) for k in array}):
      members = tuple(k for k in array if find(k) == g)
      groups.append((members, [tuple(T.value_rows(k, 2)[i] for k in members) for i in range(2)]))
    scal = {k: T.value_rows(k, 2)[1] for k in keys if k not in array}
    p = {}
    for idx in itertools.product(range(2), repeat=len(groups)):
      at = {k: i for (members, _), i in zip(groups, idx) for k in members}
      p[idx] = math.prod(t.p[tuple(at[m[0]] for m, _ in t.groups)] for t in tabs)
    marg = [k for k in keys if any(k in m for m, _ in FAMILIES[fam])]
    T.compare(T.of_pd(out), T.Table(marg, [k for k in keys if k not in marg], scal, groups, p), '{}: product'.format(root))
  ctx.trace()


def run_repeats(root, ctx):
  """Products of likelihoods of several observations of the same variables, given the same ones."""
  import probayes as pb
  sets, keys, lays, scales, differ = root
  rows = {'w': [5, 3], 'u': [.5, .125]}
  names = '{}|{}' if keys else '{}{}'
  ops, tabs = [], []
  for i, (lay, sc) in enumerate(zip(lays, scales)):
    ps = T.PSCALES[sc]
    axes = {k: a for k, a in lay if a is not None}
    n = len(set(axes.values()))
    vals = {k: {i + 2} for k in sets}
    for k in keys:
      own = list(rows[k])
      if differ == (i, k):
        own = [v + 1 for v in own]
      vals[k] = np.array(own) if k in axes else own[0]
    lin = T.generic_probs(4 * len(lays) + 4)[4 * i:4 * i + 2 ** n]
    prob = np.array([raw(p, ps) for p in lin]).reshape([2] * n) if n else raw(lin[0], ps)
    pd = pb.PD(names.format(','.join('{}={{}}'.format(k) for k in sets), ','.join(keys)), vals,
               dims={k: axes.get(k) for k in vals} if n else None, prob=prob, pscale=ps)
    ops.append(pd)
    tabs.append(T.of_pd(pd))
  frozen = [T.frozen(o) for o in ops]

  def kind(lay):
    axes = dict(lay)
    return tuple((k, axes[k] is None, tuple(j for j in keys if axes[j] is not None and axes[j] == axes[k])) for k in keys)
  fit = not differ and len({kind(lay) for lay in lays}) == 1
  for perm in itertools.permutations(range(len(ops))):
    ctx.step()
    try:
      out = pb.product(*[ops[i] for i in perm])
    except Exception as exc:
      check(not fit, 'the product of {} was refused: {!r}', [ops[i].name for i in perm], exc)
      out = None
    check([T.frozen(o) for o in ops] == frozen, '{}: the product modified an operand', root)
    ctx.state()
    if out is None:
      continue
    check(fit, '{}: operands that do not match were multiplied into {}', root, out)
    first = tabs[0]
    want = T.Table(sets, keys, dict({k: v for k, v in first.scal.items() if k not in sets},
                                    **{k: ('set', sum(range(2, 2 + len(ops)))) for k in sets}),
                   first.groups, {idx: math.prod(t.p[idx] for t in tabs) for idx in first.p})
    T.compare(T.of_pd(out), want, '{}: product of repeated observations'.format(root))
  ctx.trace()


def spaces(tier):
  names = list(T.PSCALES)
  roots = []
  for fam, ops in FAMILIES.items():
    keys = sorted({k for m, c in ops for k in m + c})
    scal_sets = [s for r in range(len(keys) + 1) for s in itertools.combinations(keys, r)]
    togs = [()]
    if fam in ('joint-marg', 'joint-cond', 'single'):
      togs += [('x', 'y')] if fam != 'joint-cond' else [('w', 'y')]
    for tog in togs:
      for sc in scal_sets:
        if set(sc) & set(tog):
          continue
        nord = []
        for m, c in ops:
          n = len([k for k in m + c if k not in sc])
          n -= 1 if tog and set(tog) <= set(m + c) else 0
          nord.append(range(math.factorial(max(n, 0))))
        scales = itertools.product(names, repeat=len(ops)) if len(ops) <= 2 or tier != 'quick' \
            else [(a, a, a) for a in names] + list(itertools.permutations(['lin', 'log', 'off'])) + \
                 [('coef', 'noff', 'off'), ('coef', 'coef', 'log')]
        for s in scales:
          for o in itertools.product(*nord):
            if sum(o) and len(set(s)) > 1 and tier == 'quick' and s[0] != 'log':
              continue
            roots.append((fam, sc, o, s, len(set(s)) == 1 and not sum(o), tog))
  scale_roots = [(fam, sc, s, r) for fam in ('chain2', 'indep2', 'given', 'single')
                 for sc in ((), ('x',), ('x', 'y', 'w'))
                 for s in itertools.product(names, repeat=len(FAMILIES[fam]))
                 for r in names + ['log-name']]
  rule = [(s, r, l) for n in (1, 2, 3) for s in itertools.product(names, repeat=n)
          for r in [None] + names for l in (None, True, False)]
  sets = [(a, b, 0, s1, s2, arr, None) for a in (1, 2, 5) for b in (1, 4)
          for s1 in names for s2 in names for arr in (False, True)]
  mixed = []
  for fam, ops in FAMILIES.items():
    if fam == 'single' or len(ops) > 2 and fam != 'collider' and tier == 'quick':
      continue
    for lay in itertools.product(*[list(T.layouts(m + c)) for m, c in ops]):
      for sc in (('lin', 'coef', 'lin'), ('lin', 'noff', 'log')):
        mixed.append((fam, lay, sc, None))
      if tier != 'quick' or len(ops) < 3:
        for i, (m, c) in enumerate(ops):
          for k in m + c:
            if any(k in m2 + c2 for j, (m2, c2) in enumerate(ops) if j != i):
              mixed.append((fam, lay, ('lin', 'log', 'coef'), (i, k)))
  reps = []
  for sets_ in (('x',), ('x', 'z')):
    for keys in ((), ('w',), ('w', 'u')):
      lays = list(T.layouts(keys))
      for n in (2, 3):
        for lay in itertools.product(lays, repeat=n):
          if n > 2 and len({tuple(a is None for _, a in l) for l in lay}) > 1 and tier == 'quick':
            continue
          for sc in itertools.product(('lin', 'coef', 'off') if n < 3 else ('lin', 'noff'), repeat=n):
            for differ in [None] + ([(i, k) for i in range(n) for k in keys] if len(set(lay)) == 1 and len(set(sc)) == 1 else []):
              reps.append((sets_, keys, lay, sc, differ))
  refuse = [(k, s) for k in ('same marginal', 'same marginal with a set', 'same marginal of conditional', 'values disagree',
                             'different conditions') for s in names]
  logs = [n for n in names if T.is_log(T.PSCALES[n])]
  deep = [(fam, o, s, offs) for fam, ops in FAMILIES.items() for o in (0, 1) for offs in ((-1200., 0., 0.), (-400., -500., -600.), (900., -300., 400.),
                                                                                        (0., 800., 0.))
          for s in itertools.product(['lin'] + logs, repeat=len(ops)) if any(n in logs for n in s) and (tier != 'quick' or len(set(s)) > 1 or s[0] == 'log')]
  wide = [(fam, sc, tuple((o + i) % 2 for i in range(len(ops))), s, False, ()) for fam, ops in LARGER.items() for o in (0, 1)
          for sc in [()] + [(k,) for k in sorted({k for m, c in ops for k in m + c})]
          for s in [(n,) * len(ops) for n in names] + [(('lin', 'off', 'log') * 2)[:len(ops)], (('noff', 'coef', 'off') * 2)[:len(ops)]]]
  return [Space('larger', wide, run, 'sets of up to 12 values and up to 5 operands x scalars x scales; all operand orders'),
          Space('deep-log', deep, run_deep, 'operands at log offsets beyond the linear range, in all orders'),
          Space('families', roots, run, '11 dependence shapes x scalar subsets x axis orders x '
                'scale assignments; all operand orders and groupings'),
          Space('requested-scale', scale_roots, run_scale, 'all scale combinations x requested scales'),
          Space('rule', rule, run_rule, '1-3 raw operands x scales x requested scale x log flag'),
          Space('sets', sets, run_sets, 'observation-set products'),
          Space('mixed', mixed, run_mixed, 'all layouts of each operand of products of 2-3 distributions'),
          Space('repeats', reps, run_repeats, 'all pairs and triples of layouts of repeated observations, matching or not'),
          Space('names', itertools.product(('x', 'x=[]'), ('y', 'y=[]'), ('x', 'x=[]'), names),
                run_names, 'all display-name variants x scales'),
          Space('misfits', [(n, ps, k) for n in (2, 3, 5, 8) for ps in names for k in ('condition', 'shared condition', 'set')],
                run_misfit, 'all single changes and exchanges of values of sets of up to 8'),
          Space('refusals', refuse, run_refuse, 'incompatible operand kinds')]
