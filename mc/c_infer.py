"""Inference: every route from the parts of a model to a posterior gives the exact one."""
import itertools
import math

import numpy as np

from mc.core import Space, check
from mc import table as T

PROPERTY = 'P24'
CHUNK = 16
ASSUMPTIONS = ['factors give every value a positive probability unless the zeros are part of the model',
               'independent observations are given as arrays']

DOMAIN = {'a': [0, 1, 2], 'b': [False, True], 'c': [3, 5], 'd': [False, True], 'x': [0, 1, 2], 'y': [False, True]}
NETS = {'pair': ('a', 'b|a'), 'chain': ('a', 'b|a', 'c|b'), 'fork': ('a', 'b|a', 'c|a'), 'collider': ('a', 'b', 'c|a,b'),
        'leafs': ('a', 'b,c|a'), 'roots': ('b,c', 'a|c,b'), 'full': ('a', 'b|a', 'c|a,b'), 'diamond': ('a', 'b|a', 'c|a', 'd|b,c')}
SCALE = {'one': 1., 'log': 'log', 'two': 2.}


def parse(factor):
  leafs, _, roots = factor.partition('|')
  return tuple(leafs.split(',')), tuple(r for r in roots.split(',') if r)


def numbers(factor, salt, zeros):
  """The conditional law of a factor: {root values: {leaf values: probability}}."""
  leafs, roots = parse(factor)
  law = {}
  rows = list(itertools.product(*[DOMAIN[k] for k in leafs]))
  for j, given in enumerate(itertools.product(*[DOMAIN[k] for k in roots])):
    w = [((7 * (i + 1) * (j + 2) + 13 * salt + 5 * i * i) % 11) + 1. for i in range(len(rows))]
    if zeros:
      w[(j + salt) % len(rows)] = 0.
    for r, v in zip(rows, w):
      law[given + r] = v / sum(w)
  return law


def object_of(factor, law, form, scale, rvs):
  """The random variable, field or dependence of a factor."""
  import probayes as pb
  leafs, roots = parse(factor)
  names = leafs + roots
  pscale = SCALE[scale]
  shape = [len(DOMAIN[k]) for k in names]
  table = np.empty(shape)
  for i, at in zip(np.ndindex(*shape), itertools.product(*[DOMAIN[k] for k in names])):
    table[i] = law[at[len(leafs):] + at[:len(leafs)]]
  if scale == 'log':
    with np.errstate(divide='ignore'):
      table = np.maximum(np.log(table), pb.NEARLY_NEGATIVE_INF)
  elif scale == 'two':
    table = table / 2.

  def func(**v):
    idx = [np.searchsorted(DOMAIN[k], v[k]) for k in names]
    return table[tuple(idx)]
  if len(names) == 1 and not roots:
    obj = pb.RV(names[0], vtype=type(DOMAIN[names[0]][0]), vset=list(DOMAIN[names[0]]))
    rvs[names[0]] = obj
  else:
    for k in names:
      if k not in rvs:
        rvs[k] = pb.RV(k, vtype=type(DOMAIN[k][0]), vset=list(DOMAIN[k]))
    obj = pb.RF(*[rvs[k] for k in leafs])
    if roots:
      obj = obj | pb.RF(*[rvs[k] for k in roots])
  if form == 'array':
    obj.set_prob(table, pscale=pscale)
  elif form == 'function':
    if isinstance(obj, pb.RV):
      obj.set_prob(lambda v: table[np.searchsorted(DOMAIN[names[0]], v)], pscale=pscale)
    else:
      obj.set_prob(func, pscale=pscale)
  elif form == 'ordered':
    flip = names[::-1]
    if isinstance(obj, pb.RV):
      obj.set_prob(lambda v: table[np.searchsorted(DOMAIN[names[0]], v)], pscale=pscale)
    else:
      def positional(*v):
        at = dict(zip(flip, v))
        return func(**at)
      obj.set_prob(positional, order={k: i for i, k in enumerate(flip)}, pscale=pscale)
  return obj


def joint_table(names, laws):
  """{assignment tuple over names: probability} by the definition."""
  out = {}
  for at in itertools.product(*[DOMAIN[k] for k in names]):
    where = dict(zip(names, at))
    p = 1.
    for f, law in laws.items():
      leafs, roots = parse(f)
      p *= law[tuple(where[k] for k in roots + leafs)]
    out[at] = p
  return out


def posterior(names, joint, query, evidence):
  """Table of p(query | evidence) for evidence = {key: value or None for all values}."""
  num, den = {}, {}
  for at, p in joint.items():
    where = dict(zip(names, at))
    if any(v is not None and where[k] != v for k, v in evidence.items()):
      continue
    q = tuple(where[k] for k in query)
    e = tuple(where[k] for k in evidence)
    num[e + q] = num.get(e + q, 0.) + p
    den[e] = den.get(e, 0.) + p
  keys = list(evidence) + list(query)
  arr = [k for k in keys if evidence.get(k) is None]
  groups = [((k,), [(v,) for v in DOMAIN[k]]) for k in arr]
  p = {}
  for idx in itertools.product(*[range(len(DOMAIN[k])) for k in arr]):
    at = dict(evidence)
    at.update({k: DOMAIN[k][i] for k, i in zip(arr, idx)})
    e = tuple(at[k] for k in evidence)
    p[idx] = num[e + tuple(at[k] for k in query)] / den[e] if den[e] else 0.
  return T.Table(query, list(evidence), {k: v for k, v in evidence.items() if v is not None}, groups, p)


def run_net(root, ctx):
  import probayes as pb
  net, forms, scales, zeros = root
  factors = NETS[net]
  laws = {f: numbers(f, i, zeros) for i, f in enumerate(factors)}
  rvs = {}
  objs = {}
  for f, form, scale in zip(factors, forms, scales):
    if '|' not in f:
      objs[f] = object_of(f, laws[f], form, scale, rvs)
  for f, form, scale in zip(factors, forms, scales):
    if '|' in f:
      objs[f] = object_of(f, laws[f], form, scale, rvs)
  names = [k for f in factors for k in parse(f)[0]]
  joint = joint_table(names, laws)
  full = T.Table(names, [], {}, [((k,), [(v,) for v in DOMAIN[k]]) for k in names],
                 {idx: joint[tuple(DOMAIN[k][i] for k, i in zip(names, idx))]
                  for idx in itertools.product(*[range(len(DOMAIN[k])) for k in names])})

  def dist(f, evidence):
    leafs, roots = parse(f)
    req = {k: evidence[k] for k in leafs + roots if evidence.get(k) is not None}
    if req and forms[factors.index(f)] == 'array':  # arrays cover whole sets
      return objs[f]()(req)
    return objs[f](req) if req else objs[f]()
  parts = [dist(f, {}) for f in factors]
  joints = []
  for perm in itertools.permutations(parts):
    out = pb.product(*perm)
    T.compare(T.of_pd(out, net), full, '{}: product of {}'.format(root, [p.name for p in perm]))
    joints.append(out)
    ctx.step()
  fold = parts[0]
  for p in parts[1:]:
    fold = fold * p
    ctx.step()
  T.compare(T.of_pd(fold, net), full, '{}: product one by one'.format(root))
  joints.append(fold)

  for roles in itertools.product('qeh', repeat=len(names)):
    query = [k for k, r in zip(names, roles) if r == 'q']
    ekeys = [k for k, r in zip(names, roles) if r == 'e']
    hidden = [k for k, r in zip(names, roles) if r == 'h']
    if not query:
      continue
    for n, values in enumerate(itertools.product(*[DOMAIN[k] for k in ekeys])):
      evidence = dict(zip(ekeys, values))
      want = posterior(names, joint, query, evidence)
      j = joints[n % len(joints)]
      routes = {}
      if ekeys:
        out = j(evidence)
        out = out.marginalise(hidden) if hidden else out
        routes['observe, sum out, condition'] = out.conditionalise(ekeys)
        out = j.marginalise(hidden) if hidden else j
        routes['sum out, condition, observe'] = out.conditionalise(ekeys)(evidence)
        out = pb.product(*[dist(f, evidence) for f in factors])
        out = out.conditionalise(ekeys)
        routes['parts observed'] = out.marginalise(hidden) if hidden else out
        out = j.marginalise(hidden) if hidden else j
        routes['division'] = (out / out.marginal(ekeys))(evidence)
        out = j(evidence)
        out = out.marginalise(hidden) if hidden else out
        if out.prob is not None:
          routes['division of the observed'] = out / out.marginalise(query)
        ctx.step(8)
      else:
        routes['sum out'] = j.marginalise(hidden) if hidden else j
        routes['keep'] = j.marginal(query)
        ctx.step(2)
      for how, out in routes.items():
        T.compare(T.of_pd(out, how), want, '{}: p({}|{}) by "{}"'.format(root, query, evidence, how))
        ctx.state()
    if ekeys:
      want = posterior(names, joint, query, {k: None for k in ekeys})
      for j in joints[:2]:
        out = j.conditionalise(ekeys)
        out = out.marginalise(hidden) if hidden else out
        T.compare(T.of_pd(out, 'all'), want, '{}: p({}|{})'.format(root, query, ekeys))
        evid = j.marginal(ekeys)
        back = out * evid
        T.compare(T.of_pd(back, 'back'), posterior(names, joint, query + ekeys, {}), '{}: p({}|{})p({})'.format(root, query, ekeys, ekeys))
        ctx.step(3)
        ctx.state(2)
  ctx.trace()
  ctx.outcome((net, tuple(sorted(joint.values()))))


# ------------------------------------------------------------------ repeated observations
PARAMS = {'int': [0, 1, 2], 'bool': [False, True], 'grid': [0.2, 0.4, 0.6, 0.8]}


def weight(v):
  return {0: .2, 1: .5, 2: .3, False: .35, True: .65}.get(v, 1.) if not isinstance(v, float) else 1. + v


def chance(x, t, s=0):
  """p(x | t, s)."""
  i = float(t)
  if isinstance(x, (bool, np.bool_)):
    q = (1. + i + .5 * s) / (4. + s)
    return q if x else 1. - q
  w = [1. + i, 2., 1.5 + i * i + s]
  return w[x] / sum(w)


def run_data(root, ctx):
  import probayes as pb
  kinds, xkind, scale, data, fresh = root
  xs = [0, 1, 2] if xkind == 'int' else [False, True]
  lg = scale == 'log'
  names = ['t', 's'][:len(kinds)]
  rvs, req, vals = {}, {}, {}
  for k, kind in zip(names, kinds):
    vals[k] = PARAMS[kind]
    if kind == 'grid':
      rvs[k] = pb.RV(k, vtype=float, vset=[.2, .8])
      rvs[k].set_prob((lambda v: np.log(1. + v)) if lg else (lambda v: 1. + v), pscale='log' if lg else 1.)
      req[k] = {4}
    else:
      rvs[k] = pb.RV(k, vtype=type(vals[k][0]), vset=list(vals[k]))
      w = np.array([weight(v) for v in vals[k]])
      rvs[k].set_prob(np.log(w) if lg else w, pscale='log' if lg else 1.)
      if 'grid' in kinds:
        req[k] = None
  x = pb.RV('x', vtype=type(xs[0]), vset=list(xs))
  y = pb.RV('y', vtype=type(xs[0]), vset=list(xs))
  params = pb.RF(*[rvs[k] for k in names])
  model, again = pb.RF(x) | params, pb.RF(y) | params
  table = {(a,) + th: chance(a, *th) for a in xs for th in itertools.product(*[vals[k] for k in names])}

  def law(head):
    def f(**v):
      vs = np.broadcast_arrays(*[v[k] for k in [head] + names])
      cast = [type(xs[0])] + [type(vals[k][0]) for k in names]
      out = np.array([chance(*[c(u) for c, u in zip(cast, at)]) for at in zip(*[np.ravel(u) for u in vs])]).reshape(vs[0].shape)
      out = np.log(out) if lg else out
      return out if out.ndim else float(out)
    return f
  model.set_prob(law('x'), pscale='log' if lg else 1.)
  again.set_prob(law('y'), pscale='log' if lg else 1.)

  ths = list(itertools.product(*[vals[k] for k in names]))
  prior = {th: math.prod(weight(v) for v in th) for th in ths}
  post = {th: prior[th] * math.prod(chance(d, *th) for d in data) for th in ths}
  total = sum(post.values())
  post = {th: p / total for th, p in post.items()}
  n = len(data)
  groups = [((k,), [(v,) for v in vals[k]]) for k in names]

  def as_table(p, cond, scal, keys=names):
    arr = [(k, vals[k]) for k in keys]
    return T.Table(keys, cond, scal, [((k,), [(v,) for v in vs]) for k, vs in arr],
                   {idx: p[tuple(vs[i] for (_, vs), i in zip(arr, idx))]
                    for idx in itertools.product(*[range(len(vs)) for _, vs in arr])})

  def judge(pd, what, p=post):
    T.compare(T.of_pd(pd, what), as_table(p, ['x'], {'x': ('set', n)}), '{}: {}'.format(root, what))
    ctx.state()
  arr = np.array(data)
  pri = params(dict(req)) if req else params()
  full = {'x': arr, **req}
  best = model(full, iid=True, joint=True).conditionalise('x')
  judge(best, 'joint of all')
  own = pb.RF(x) | params

  def itself(**v):
    out = law('x')(**v)
    if not np.ndim(v['x']):
      return out
    return np.sum(out, axis=0) if lg else np.prod(out, axis=0)
  own.set_prob(itself, pscale='log' if lg else 1.)
  judge(own(full, iid=True, joint=True).conditionalise('x'), 'multiplied by the function')
  ctx.step(2)
  judge((pri * model(full, iid=True)).conditionalise('x'), 'prior by likelihood')
  judge((model(full, iid=True) * pri).conditionalise('x'), 'likelihood by prior')
  ctx.step(6)
  if fresh:
    each = model(full)
    judge((pri * each.prod('x')).conditionalise('x'), 'product along the data')
    ctx.step(3)
  # any split of the data
  for cut in range(1, n):
    a = model({'x': arr[:cut], **req}, iid=True)
    b = model({'x': arr[cut:], **req}, iid=True)
    judge((pri * (a * b)).conditionalise('x'), 'in parts of {} and {}'.format(cut, n - cut))
    judge((pri * (b * a)).conditionalise('x'), 'in parts of {} and {}, the last first'.format(cut, n - cut))
    ctx.step(8)
  if n == 3:
    a, b, c = [model({'x': arr[i:i + 1], **req}, iid=True) for i in range(3)]
    judge((pri * pb.product(a, b, c)).conditionalise('x'), 'one by one')
    judge((pri * ((c * a) * b)).conditionalise('x'), 'one by one, in another order')
    ctx.step(9)
  # one observation after another, each posterior being the next prior
  belief = pri
  for i, d in enumerate(data):
    out = (belief * model({'x': d, **req})).conditionalise('x')
    ctx.step(3)
    p = {th: prior[th] * math.prod(chance(u, *th) for u in data[:i + 1]) for th in ths}
    tot = sum(p.values())
    T.compare(T.of_pd(out, 'online'), as_table({th: v / tot for th, v in p.items()}, ['x'], {'x': d}),
              '{}: updated by {}'.format(root, data[:i + 1]))
    belief = pb.PD(','.join(names), {k: out[k] for k in names}, dims={k: out.dims[k] for k in names}, prob=out.prob, pscale=out.pscale)
    ctx.state()
  # summaries of the posterior
  expt = best.expectation()
  for i, k in enumerate(names):
    m = sum(float(th[i]) * p for th, p in post.items())
    check(T.close(float(expt[k]), m), '{}: mean of {} is {} and not {}', root, k, expt[k], m)
    if len(names) > 1:
      marg = {}
      for th, p in post.items():
        marg[(th[i],)] = marg.get((th[i],), 0.) + p
      T.compare(T.of_pd(best.marginal(k), 'marginal'), as_table(marg, ['x'], {'x': ('set', n)}, [k]), '{}: marginal of {}'.format(root, k))
      ctx.step()
  # what comes next
  pred = (again({'y': None, **req}) if req else again()) * best
  pred = pred.marginalise(names)
  want = T.Table(['y'], ['x'], {'x': ('set', n)}, [(('y',), [(v,) for v in xs])],
                 {(i,): sum(chance(v, *th) * p for th, p in post.items()) for i, v in enumerate(xs)})
  T.compare(T.of_pd(pred, 'prediction'), want, '{}: prediction'.format(root))
  for v in xs:
    out = (again({'y': v, **req}) * best).marginalise(names)
    check(T.close(T.to_linear(out.prob, out.pscale), sum(chance(v, *th) * p for th, p in post.items())),
          '{}: prediction of {} is {}', root, v, out.prob)
  ctx.step(4)
  ctx.state(2)
  ctx.outcome(tuple(sorted(post.values())))
  ctx.trace()


# ------------------------------------------------------------------ random draws of parameters
LEVELS = [0.03, 0.45, 0.8]
KINDS = {'uni': (0., 2.), 'log': (1., 8.), 'pdf': (0., 1.), 'int': [0, 1, 2], 'bool': [False, True]}


def image(kind, u):
  lo, hi = KINDS[kind][0], KINDS[kind][-1]
  if kind == 'log':
    return math.exp(math.log(lo) + u * math.log(hi / lo))
  return lo + u * (hi - lo)


def density(kind, v):
  if kind == 'uni':
    return .5
  if kind == 'log':
    return 1. / math.log(8.)
  if kind == 'pdf':
    return 2. - 2. * v + .25
  return {'int': 1. / 3., 'bool': .5}[kind]


def hit(x, vals):
  q = (1. + sum(float(v) * (i + 1) for i, v in enumerate(vals))) / (20. + float(vals[0]))
  return q if x else 1. - q


def run_draws(root, ctx):
  import probayes as pb
  from mc.rng import Scripted
  kinds, how, n, scale, data = root
  names = ['t', 's', 'r'][:len(kinds)]
  lg = scale == 'log'
  rvs = []
  for name, kind in zip(names, kinds):
    if kind in ('int', 'bool'):
      rv = pb.RV(name, vtype=type(KINDS[kind][0]), vset=list(KINDS[kind]))
    else:
      rv = pb.RV(name, vtype=float, vset=KINDS[kind])
    if kind == 'log':
      rv.set_ufun((np.log, np.exp))
    if kind == 'pdf':
      rv.set_prob((lambda v: np.log(2.25 - 2. * v)) if lg else (lambda v: 2.25 - 2. * v), pscale='log' if lg else 1.)
    rvs.append(rv)
  params = pb.RF(*rvs)
  x = pb.RV('x')
  model = pb.RF(x) | params

  def law(**v):
    out = np.where(v['x'], 1., 0.)
    q = (1. + sum(np.asarray(v[k], dtype=float) * (i + 1) for i, k in enumerate(names))) / (20. + np.asarray(v[names[0]], dtype=float))
    out = out * q + (1. - out) * (1. - q)
    out = np.log(out) if lg else out
    return out if np.ndim(out) else float(out)
  model.set_prob(law, pscale='log' if lg else 1.)
  if how == 'together':
    req, draws = {','.join(names): {-n}}, n * len(names)
  elif how == 'apart':
    req, draws = {k: {-n} for k in names}, n * len(names)
  else:
    req, draws = {k: {2} if i else {-n} for i, k in enumerate(names)}, n
  arr = np.array(data)
  for script in itertools.product(LEVELS, repeat=draws):
    with Scripted(script) as rng:
      evid = params(dict(req))
    vals = {k: np.ravel(evid[k]) for k in names}
    for k, kind in zip(names, kinds):
      random = how != 'mixed' or k == names[0]
      due = n if random else 2
      check(len(vals[k]) == due, '{}: {} values of {}', root, len(vals[k]), k)
      if kind in ('int', 'bool'):
        check(all(v in KINDS[kind] for v in vals[k]), '{}: {} drawn for {}', root, vals[k], k)
      elif random:
        check(all(any(T.close(float(v), image(kind, u)) for u in LEVELS) for v in vals[k]), '{}: {} drawn for {}', root, vals[k], k)
        if len(set(script)) == 1:
          check(T.close(float(vals[k][0]), image(kind, script[0])), '{}: {} drawn for {} at level {}', root, vals[k], k, script[0])
    if how == 'together':
      groups = [(tuple(names), list(zip(*[[T.py(v) for v in vals[k]] for k in names])))]
    else:
      groups = [((k,), [(T.py(v),) for v in vals[k]]) for k in names]

    def points():
      for idx in itertools.product(*[range(len(rows)) for _, rows in groups]):
        at = {}
        for (keys, rows), i in zip(groups, idx):
          at.update(zip(keys, rows[i]))
        yield idx, [at[k] for k in names]
    prior = {idx: math.prod(density(k, v) for k, v in zip(kinds, at)) for idx, at in points()}
    T.compare(T.of_pd(evid, 'prior'), T.Table(names, [], {}, groups, prior), '{} {}: the draws'.format(root, script))
    given = {k: evid[k] for k in names}  # the very draws, shaped as they were
    if how == 'together':
      given = {','.join(names): tuple(np.ravel(evid[k]) for k in names)}
    like = {idx: math.prod(hit(d, at) for d in data) for idx, at in points()}
    obs = model({'x': arr, **given}, iid=True)
    size = {'x': ('set', len(data))}
    T.compare(T.of_pd(obs, 'likelihood'), T.Table(['x'], names, size, groups, like), '{} {}: likelihood of the draws'.format(root, script))
    joint = {idx: prior[idx] * like[idx] for idx in prior}
    total = sum(joint.values())
    post = {idx: p / total for idx, p in joint.items()}
    want = T.Table(names, ['x'], size, groups, post)
    with Scripted(script) as rng:
      full = model({'x': arr, **req}, iid=True, joint=True)
    T.compare(T.of_pd(full, 'joint'), T.Table(names + ['x'], [], size, groups, joint), '{} {}: joint of the draws'.format(root, script))
    best = full.conditionalise('x')
    T.compare(T.of_pd(best, 'posterior'), want, '{} {}: posterior of the draws'.format(root, script))
    T.compare(T.of_pd((obs * evid).conditionalise('x'), 'posterior'), want, '{} {}: posterior by the product'.format(root, script))
    ctx.step(7)
    expt = best.expectation()
    for i, k in enumerate(names):
      m = sum(float(at[i]) * post[idx] for idx, at in points())
      check(T.close(float(expt[k]), m), '{} {}: mean of {} is {} and not {}', root, script, k, expt[k], m)
      # the smallest value with at least half of the mass at or below it
      if how == 'together':
        order = sorted((float(at[i]), post[idx]) for idx, at in points())
        down = best.sorted(k)
        got = [T.py(v) for v in np.ravel(down[k])]
        check(all(T.close(float(a), o[0]) for a, o in zip(got, order)), '{} {}: sorted by {} gives {}', root, script, k, got)
        have = sorted((tuple(float(down[j][m]) for j in names), T.to_linear(np.ravel(down.prob)[m], down.pscale)) for m in range(n))
        due = sorted((tuple(map(float, at)), post[idx]) for idx, at in points())
        check(all(T.close(u, w) for (a, p), (b, q) in zip(have, due) for u, w in zip(a + (p,), b + (q,))),
              '{} {}: sorting by {} turned {} into {}', root, script, k, due, have)
      ctx.step(2)
    # what is expected of the outcome: the fraction of the mass at which it is seen
    plain = model({'x': None, **given})
    seen = plain({'x': True})
    both = (plain * evid).expectation()
    frac = sum(prior[idx] * hit(True, at) for idx, at in points()) / sum(prior.values())
    check(T.close(float(both['x']), frac), '{} {}: expectation {} of the outcome, not {}', root, script, both['x'], frac)
    T.compare(T.of_pd(seen, 'seen'), T.Table(['x'], names, {'x': True}, groups, {idx: hit(True, at) for idx, at in points()}),
              '{} {}: the outcome seen'.format(root, script))
    ctx.step(4)
    ctx.state(6)
    ctx.trace()
    ctx.outcome(tuple(sorted(post.values())))


def run_rejection(root, ctx):
  """Draws of a proposition, of which those whose target reaches the threshold are kept."""
  import probayes as pb
  from mc.rng import Scripted
  kinds, n, scale, how = root
  names = ['t', 's'][:len(kinds)]
  lg = scale == 'log'
  rvs = [pb.RV(name, vtype=float, vset=KINDS[kind]) for name, kind in zip(names, kinds)]
  field = pb.RF(*rvs)

  def target(**v):
    out = np.array(sum(np.asarray(v[k], dtype=float) for k in names) < 1.2, dtype=float) * 0.5
    with np.errstate(divide='ignore'):
      return np.log(out) if lg else out

  def prop(**v):
    out = 1. + sum((i + 1.) * np.asarray(v[k], dtype=float) for i, k in enumerate(names))
    return np.log(out) if lg else out
  field.set_prob(target, pscale='log' if lg else 1.)
  field.set_prop(prop)
  if how == 'names':
    req = {','.join(names): {-n}}
  elif how == 'variables':
    req = {tuple(rvs) if len(rvs) > 1 else rvs[0]: {-n}}
  for script in itertools.product(LEVELS, repeat=n * len(names)):
    for suffix in (False, "'"):
      with Scripted(script):
        got = field.propose(dict(req), suffix=suffix)
      keys = [k + (suffix or '') for k in names]
      vals = {k: np.ravel(got[q]) for k, q in zip(names, keys)}
      for k, kind in zip(names, kinds):
        check(len(vals[k]) == n and all(any(T.close(float(v), image(kind, u)) for u in LEVELS) for v in vals[k]),
              '{} {}: {} proposed for {}', root, script, vals[k], k)
      rows = [tuple(float(vals[k][i]) for k in names) for i in range(n)]
      q = {(i,): 1. + sum((j + 1.) * v for j, v in enumerate(r)) for i, r in enumerate(rows)}
      T.compare(T.of_pd(got, 'proposals'), T.Table(keys, [], {}, [(tuple(keys), rows)], q), '{} {}: proposals'.format(root, script))
      ctx.step()
      if suffix:
        continue
      p = field(got('marg'))
      T.compare(T.of_pd(p, 'target'), T.Table(names, [], {}, [(tuple(names), rows)], {(i,): .5 * (sum(r) < 1.2) for i, r in enumerate(rows)}),
                '{} {}: target of the proposals'.format(root, script))
      kept = p / got
      for i, r in enumerate(rows):
        check(T.close(T.to_linear(np.ravel(kept.prob)[i], kept.pscale), .5 * (sum(r) < 1.2) / q[(i,)]), '{} {}: weights {}', root, script, kept)
      ctx.step(2)
      ctx.state(2)
    ctx.trace()
    ctx.outcome(tuple(rows))


def spaces(tier):
  full = tier != 'quick'
  nets = []
  for net, factors in NETS.items():
    n = len(factors)
    forms = list(itertools.product(('array', 'function', 'ordered'), repeat=n))
    scales = list(itertools.product(('one', 'log', 'two'), repeat=n))
    if not full:
      forms = forms[::4] if n > 2 else forms
      scales = scales[::5] if n > 3 else scales[::2] if n > 2 else scales
    if n > 3:
      forms, scales = forms[::5], scales[::3 if full else 4]
    for f, s, z in itertools.product(forms, scales, (False, True)):
      nets.append((net, f, s, z))
  data = []
  for kinds in (('int',), ('bool',), ('grid',), ('int', 'grid'), ('grid', 'bool'), ('bool', 'int')):
    for xkind in ('bool', 'int'):
      xs = [False, True] if xkind == 'bool' else [0, 1, 2]
      for scale in ('one', 'log'):
        for n in range(1, (6 if xkind == 'bool' else 5) if full else (5 if xkind == 'bool' else 4)):
          for d in itertools.product(xs, repeat=n):
            data.append((kinds, xkind, scale, d, True))
  draws = []
  for kinds in itertools.chain(itertools.product(KINDS, repeat=1), itertools.product(KINDS, repeat=2)):
    if all(k in ('int', 'bool') for k in kinds):
      continue  # whole sets are exact
    for how in ('together', 'apart', 'mixed') if len(kinds) > 1 else ('apart',):
      for n in (1, 2, 3, 4) if full else (1, 2, 3):
        if n > (4 if len(kinds) == 1 or how == 'mixed' else 3 if full else 2):
          continue
        for scale in ('one', 'log'):
          for seen in ((True,), (False, True), (True, True, False)):
            draws.append((kinds, how, n, scale, seen))
  reject = [(kinds, n, scale, how) for m in (1, 2) for kinds in itertools.product(('uni', 'pdf'), repeat=m) for n in ((1, 2, 3) if full or m < 2 else (1, 2))
            for scale in ('one', 'log') for how in ('names', 'variables')]
  return [Space('draws', draws, run_draws, 'all scripts of draws of one or two parameters, together, apart and against a grid'),
          Space('rejection', reject, run_rejection, 'all scripts of proposals of one or two variables'),
          Space('networks', nets, run_net, 'all queries and evidence of networks of 2-4 variables, by every route'),
          Space('observations', data, run_data, 'all sequences of up to {} observations, in every split and order'.format(5 if full else 4))]
