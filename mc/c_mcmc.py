"""Markov chain Monte Carlo: acceptance rules, the chain of states, invariance of the target."""
import itertools
import math

import numpy as np

from mc.core import Space, check
from mc import table as T
from mc.rng import Scripted
from mc.c_rv import SCALES
from mc.c_field import scaled

PROPERTY = 'P15'
ASSUMPTIONS = ['chains start where the target is positive and proposals have positive probability',
               'single transition functions are symmetric (as documented); asymmetric ones are pairs',
               'transition functions answer on the scale of the process']

X0 = {'x': .5, 'y': -.25, 'i': 1, 'm': .75, 's': 1.5}
DATA = [.1, 1.9, -.6]


def target(a):
  """Positive inside, zero beyond 2.2 of any variable."""
  out, any_out = .2, False
  for j, k in enumerate(sorted(a)):
    v = np.asarray(a[k], dtype=float)
    out = out + .15 * (1. + np.sin(1.3 * (j + 1) * v + j)) ** 2
    any_out = any_out | (np.abs(v) > 2.2)
  return np.where(any_out, 0., out)


def like(x, m, s):
  return np.exp(-.5 * ((x - m) / s) ** 2) / s


def q_sym(a, names):
  return np.prod([.4 * np.exp(-np.abs(a[n + "'"] - a[n])) for n in names], axis=0)


def q_asym(a, names, reverse=False):
  out = 1.
  for j, n in enumerate(names):
    p, s = (a[n + "'"], a[n]) if reverse else (a[n], a[n + "'"])
    out = out * .4 * np.exp(-np.abs(s - p - .7)) * (1.2 + np.sin(s + 2. * p + j))
  return out


CONSTANTS = (.4, .3)  # forward and reverse


class Rig:
  """A process under test and its reference."""

  def __init__(self, kind, scale, tran, rule, early):
    import probayes as pb
    self.kind, self.scale, self.tran, self.rule = kind, scale, tran, rule
    self.pending = None
    names = self.names = {'x': ['x'], 'i': ['i'], 'xy': ['x', 'y'], 'dep': ['m', 's']}[kind]
    self.moves = {'x': [.6, -.6, 1.1], 'i': [1, -1, 2], 'xy': [(.5, .4), (-.8, .3), (.2, -1.9)],
                  'dep': [(.5, .25), (-.8, .125), (.2, -.5)]}[kind]
    self.moves = [m if isinstance(m, tuple) else (m,) for m in self.moves]
    self.args, self.kwds = (dict((n, X0[n]) for n in names),), {}
    if kind == 'dep':
      m = pb.RV('m', vtype=float, vset=(-3., 3.), pscale='log')
      s = pb.RV('s', vtype=float, vset=(.1, 8.1))
      x = pb.RV('x', vtype=float, vset=(-np.inf, np.inf))
      paras = pb.RF(m, s)
      sp = pb.SP(pb.RF(x), paras)
      self.args += ({'x': np.array(DATA)},)
      self.kwds = dict(iid=True, joint=True)
      pfun = lambda **v: scaled(like(v['x'], v['m'], v['s']), scale)
      holder = paras
      self.pi = lambda a: float(np.prod([like(d, a['m'], a['s']) for d in DATA])) / 6. / 8.
    else:
      own = {'pscale': SCALES[scale] or 1.} if tran.startswith('own') else {}
      rvs = [pb.RV(n, vtype=int, vset=list(range(-4, 5)), **own) if n == 'i' else
             pb.RV(n, vtype=float, vset=(-np.inf, np.inf), **own) for n in names]
      if own:  # transitions of the variable itself
        w = lambda f: lambda **v: scaled(f(v), scale)
        fw, rv = w(lambda v: q_asym(v, names)), w(lambda v: q_asym(v, names, True))
        sm = w(lambda v: q_sym(v, names))
        rvs[0].set_tran({'ownsym': sm, 'ownpair': (fw, rv), 'own constant pair': tuple(scaled(c, scale) for c in CONSTANTS)}[tran])
      field = rvs[0] if len(rvs) == 1 else rvs[0] & rvs[1]
      sp = pb.SP(field)
      holder = sp

      def pfun(**v):
        with np.errstate(divide='ignore'):
          return scaled(target(v), scale)
      self.pi = lambda a: float(target(a))
    self.sp = sp
    k = {'pscale': SCALES[scale] or 1.}
    if early:
      self.set_rule()
    sp.set_prob(pfun, **k)
    own = scale if kind != 'dep' else 'log'
    self.qscale = own
    fwd = lambda **v: scaled(q_asym(v, names), own)
    rev = lambda **v: scaled(q_asym(v, names, True), own)
    sym = lambda **v: scaled(q_sym(v, names), own)
    if tran == 'sym':
      holder.set_tran(sym)
    elif tran == 'pair':
      holder.set_tran((fwd, rev))
    elif tran == 'sympair':
      holder.set_tran((sym, sym))
    elif tran == 'constant pair':
      holder.set_tran(tuple(scaled(c, own) for c in CONSTANTS))
    if kind == 'dep':
      holder.set_delta(lambda: holder.Delta(**dict(zip(names, self.pending))))
      sp.set_tran(holder)
      sp.set_delta(holder)
    else:
      holder.set_delta(lambda: sp.Delta(**dict(zip(names, self.pending))))
    if not early:
      self.set_rule()

  def set_rule(self):
    if self.rule == 'custom':
      self.sp.set_scores(lambda opqr: None if opqr.o is None else T.to_linear(float(opqr.p.prob), opqr.p.pscale))
      self.sp.set_thresh(lambda low, high: low + (high - low) * np.random.uniform(), low=.1, high=.9)
      self.sp.set_update(lambda stu: True if stu.s is None else bool(stu.s > stu.t))
    elif self.rule == 'mixed':
      self.sp.set_scores('hastings')
      self.sp.set_update('metropolis')
    elif self.rule != 'none':
      self.sp.set_scores(self.rule)

  # reference
  def q(self, pred, succ, reverse=False):
    a = dict(pred)
    a.update({k + "'": v for k, v in succ.items()})
    if self.tran.endswith('constant pair'):
      inside = self.kind != 'i' or self.tran[:3] != 'own' or all(abs(v) <= 4 for v in a.values())
      return CONSTANTS[int(reverse)] if inside else 0.
    return float(q_asym(a, self.names, reverse) if self.tran.endswith('pair') and self.tran != 'sympair' else q_sym(a, self.names))

  def score(self, pred, succ):
    if pred is None or self.rule == 'none':
      return None
    if self.rule == 'custom':
      return self.pi(succ)
    if self.rule == 'gibbs':
      return float('nan')
    ratio = self.pi(succ) / self.pi(pred)
    if self.rule != 'metropolis' and self.tran not in ('sym', 'ownsym'):
      ratio *= self.q(pred, succ, True) / self.q(pred, succ)
    return min(1., ratio)


def at(pd, rig, want, what, cond=None):
  """The distribution holds the state (and its probability)."""
  for n in rig.names:
    check(n in pd and np.ndim(pd[n]) == 0 and T.close(float(pd[n]), float(want[n]), 1e-9, 1e-12), '{}: {} is {} and not {}',
          what, n, pd.get(n), want[n])
  p = T.to_linear(float(pd.prob), pd.pscale)
  check(T.close(p, rig.pi(want), 1e-7, 1e-12), '{}: probability {} and not {}', what, p, rig.pi(want))


def prop_at(pd, rig, pred, succ, want, what, reverse=False):
  for n in rig.names:
    check(n in pd and n + "'" in pd, '{}: variables {}', what, list(pd))
    check(T.close(float(pd[n]), float(pred[n]), 1e-9, 1e-12), '{}: {} is {}, not {}', what, n, pd[n], pred[n])
    check(T.close(float(pd[n + "'"]), float(succ[n]), 1e-9, 1e-12), "{}: {}' is {}, not {}", what, n, pd[n + "'"], succ[n])
  marg, cond = set(pd.marg), set(pd.cond)
  a, b = set(rig.names), {n + "'" for n in rig.names}
  check((marg, cond) == ((a, b) if reverse else (b, a)), '{}: p({}|{})', what, marg, cond)
  p = T.to_linear(float(pd.prob), pd.pscale)
  check(T.close(p, want, 1e-7, 1e-12), '{}: proposal probability {} and not {}', what, p, want)


def thresholds(rig, s):
  if rig.rule not in ('metropolis', 'hastings', 'mixed', 'custom') or s is None:
    return [.37]
  lo, hi = (0., 1.) if rig.rule != 'custom' else (.1, .9)
  out = [1e-9, .999999] + [(t - lo) / (hi - lo) for t in (s - 1e-5, s + 1e-5)]
  return [u for u in out if 0. < u < 1.]


def run_chain(root, ctx):
  kind, scale, tran, rule, early, depth = root
  rig = Rig(kind, scale, tran, rule, early)
  sp, names = rig.sp, rig.names
  base = 'chain of {} on {} by {} with {}{}'.format(kind, scale, tran, rule, ' set first' if early else '')

  def play(script):
    """Replays a script of (move, threshold draw); checks the last sample."""
    sampler = sp.sampler(*rig.args, **rig.kwds)
    cur, last = None, {n: X0[n] for n in names}
    for j, (mv, u) in enumerate(script):
      rig.pending = rig.moves[mv]
      with Scripted([u]):
        got = next(sampler)
      pred, first = last, cur is None
      succ = {n: pred[n] + d for n, d in zip(names, rig.pending)}
      s = rig.score(cur, succ)
      if rule == 'custom':
        thr = .1 + .8 * u
        upd = True if s is None else s > thr
      elif rule in ('none', 'gibbs'):
        thr, upd = None, True
      else:
        thr = u
        upd = True if s is None or s >= thr else None
      if j == len(script) - 1:
        what = '{} after {}'.format(base, script)
        ctx.state()
        if first:
          check(got.o is None, '{}: predecessor of the first sample is {}', what, got.o)
        else:
          at(got.o, rig, cur, what + ' (o)')
        at(got.p, rig, succ, what + ' (p)')
        prop_at(got.q, rig, pred, succ, rig.q(pred, succ), what + ' (q)')
        if tran in ('sym', 'ownsym'):
          check(got.r is None, '{}: reverse proposal {}', what, got.r)
        else:
          prop_at(got.r, rig, pred, succ, rig.q(pred, succ, True), what + ' (r)', True)
        if s is None:
          check(got.s is None or rule == 'gibbs', '{}: score {}', what, got.s)
        elif s == s:
          check(T.close(float(got.s), s, 1e-7, 1e-12), '{}: score {} and not {}', what, got.s, s)
        if thr is not None:
          check(T.close(float(got.t), thr, 1e-9), '{}: threshold {} and not {}', what, got.t, thr)
        if rule == 'none':
          check(got.u is None, '{}: update {}', what, got.u)
        else:
          check((got.u is None) == (upd is None) and bool(got.u) == bool(upd), '{}: update {} and not {}', what, got.u, upd)
        at(got.v, rig, succ if upd else cur, what + ' (v)')
        kept = sp.get_last(sampler)
        at(kept.p, rig, succ if upd else cur, what + ' (kept)')
        check(sp.get_counter(sampler) == len(script), '{}: counted {}', what, sp.get_counter(sampler))
        ctx.step()
        ctx.outcome((bool(upd), first, s is not None and s < 1.))
      if upd:
        cur, last = succ, succ
    return cur

  def explore(script, cur):
    if len(script) == depth:
      ctx.trace()
      return
    pred = cur if cur is not None else {n: X0[n] for n in names}
    for mv, move in enumerate(rig.moves):
      succ = {n: pred[n] + d for n, d in zip(names, move)}
      if cur is None and not (rig.pi(succ) > 0.):
        continue
      if kind == 'dep' and succ['s'] <= .2:
        continue
      for u in thresholds(rig, rig.score(cur, succ)):
        nxt = play(script + [(mv, u)])
        explore(script + [(mv, u)], nxt)
  explore([], None)
  # the sampler list only ever grows with samplers asked for
  sp.reset()
  ctx.sample(base)


def run_balance(root, ctx):
  """The transition kernel, enumerated from the reported scores, leaves the target invariant."""
  kind, scale, n, how = root
  import probayes as pb
  states = list(range(n))
  pi = np.array(T.generic_probs(n))
  pi = pi / pi.sum()
  Q = np.array(T.generic_probs(n * n)[::-1]).reshape(n, n) ** 2
  if kind == 'sym':
    Q = Q + Q.T
    Q = Q / Q.sum()                      # scaled: rows need not sum to one for balance
  elif kind == 'oneway':
    Q[0, n - 1] = 0.                     # n-1 -> 0 is never proposed
    Q = Q / Q.sum(axis=0)
  else:
    Q = Q / Q.sum(axis=0)
  i = pb.RV('i', vtype=int, vset=states, pscale=SCALES[scale] or 1.)
  w = lambda f: (lambda **v: scaled(f(v), scale))
  fwd = lambda v: Q[int(v["i'"]), int(v['i'])]
  rev = lambda v: Q[int(v['i']), int(v["i'"])]

  def quiet(f):
    def g(**v):
      with np.errstate(divide='ignore'):
        return f(**v)
    return g
  tran = w(fwd) if kind == 'sym' else (quiet(w(fwd)), quiet(w(rev)))
  if how == 'matrices':
    with np.errstate(divide='ignore'):
      tran = scaled(Q, scale) if kind == 'sym' else (scaled(Q, scale), scaled(Q.T, scale))
  if how != 'process':
    i.set_tran(tran)
  sp = pb.SP(i)
  if how == 'process':
    sp.set_tran(tran)
  sp.set_prob(w(lambda v: pi[int(v['i'])]), pscale=SCALES[scale] or 1.)
  pend = []
  sp.set_delta(lambda: sp.Delta(i=pend.pop(0)))
  sp.set_scores('hastings')
  base = 'kernel of {} states by {} proposals of the {} on {}'.format(n, kind, how, scale)
  A = np.zeros((n, n))
  for a in states:
    for b in states:
      if Q[b, a] == 0.:
        continue
      # reach state a first (from a predecessor that can propose it)
      src = next(c for c in states if Q[a, c] > 0.)
      pend[:] = [a - src, b - a]
      smp = sp.sampler({'i': src})
      with Scripted([.5]):
        next(smp)
        got = next(smp)
      A[b, a] = float(got.s)
      check(0. <= A[b, a] <= 1., '{}: acceptance {}', base, A[b, a])
      # the chain moves for a threshold below and stays for one above
      for t in (A[b, a] - 1e-6, A[b, a] + 1e-6):
        if not 0. < t < 1.:
          continue
        pend[:] = [a - src, b - a]
        smp = sp.sampler({'i': src})
        with Scripted([.5]):
          next(smp)
        with Scripted([t]):
          got = next(smp)
        check(int(got.v['i']) == (b if t <= A[b, a] else a), '{}: at threshold {} the chain is in {}', base, t, got.v['i'])
        ctx.step()
      ctx.state()
  K = A * Q
  for a in states:
    for b in states:
      check(T.close(pi[a] * K[b, a], pi[b] * K[a, b], 1e-9, 1e-12), '{}: flow {} -> {} is {}, back {}',
            base, a, b, pi[a] * K[b, a], pi[b] * K[a, b])
  for a in states:
    K[a, a] += 1. - K[:, a].sum()
  check(np.allclose(K @ pi, pi, 1e-9), '{}: stationary {} and not {}', base, K @ pi, pi)
  ctx.trace()
  ctx.outcome((n, kind, round(float(K[0, 0]), 9)))
  ctx.sample(base)


def run_extreme(root, ctx):
  """Scores between states and proposals of probabilities too small (or densities too great) for a linear scale."""
  import probayes as pb
  scale, rule, level, qlevel = root
  log = iscomplex_scale(scale)
  on = lambda lp: float(scaled(1., scale)) + lp if log else float(scaled(1., scale)) * math.exp(lp)
  steps = (0., -1.25, 1.5)
  base = 'scores on {} with {} at log {} proposed at log {}'.format(scale, rule, level, qlevel)
  lp, qr, pend = {}, {}, []
  i = pb.RV('i', vtype=int, vset=[0, 1], pscale=SCALES[scale] or 1.)
  sp = pb.SP(i)
  sp.set_prob(lambda **v: on(lp[int(v['i'])]), pscale=SCALES[scale] or 1.)
  fwd = lambda **v: on(qr['q'] if int(v["i'"]) == 1 else qr['r'])
  rev = lambda **v: on(qr['r'] if int(v["i'"]) == 1 else qr['q'])
  sp.set_tran((fwd, rev))
  sp.set_delta(lambda: sp.Delta(i=pend.pop(0)))
  sp.set_scores(rule)
  for da, db, dq, dr in itertools.product(steps, repeat=4):
    lp.update({0: level + da, 1: level + db})
    q, r = qlevel + dq, qlevel + dr
    qr.update(q=q, r=r)
    pend[:] = [0, 1]
    smp = sp.sampler({'i': 0})
    with Scripted([.5]):
      next(smp)
    want = math.exp(min(0., lp[1] - lp[0] + (r - q if rule == 'hastings' else 0.)))
    with Scripted([.9]):
      got = next(smp)
    what = '{}: from {} to {} by {} and back by {}'.format(base, lp[0], lp[1], q, r)
    check(got.s is not None and T.close(float(got.s), want, 1e-8, 1e-12), '{}: score {} and not {}', what, got.s, want)
    check(int(got.v['i']) == (1 if want >= .9 else 0), '{}: score {} at threshold .9 leads to {}', what, want, got.v['i'])
    ctx.step(2)
    ctx.state()
  ctx.trace()
  ctx.sample(base)


def iscomplex_scale(scale):
  return SCALES[scale] == 'log' or isinstance(SCALES[scale], complex)


def run_proposals(root, ctx):
  """Sampling by propositions that do not depend on predecessors (e.g. rejection sampling)."""
  import probayes as pb
  kind, scale, prop, delta, suffix, depth = root
  names = {'x': ['x'], 'xy': ['x', 'y'], 'dep': ['m', 's']}[kind]
  lims = {'x': (-1., 1.), 'y': (0., 3.), 'm': (-3., 3.), 's': (.5, 2.5)}
  rvs = [pb.RV(n, vtype=float, vset=list(lims[n])) for n in names]
  now = {}
  args, kwds = ({0},), {}
  if suffix is not None:
    kwds['suffix'] = suffix
  pf = lambda a: float(np.prod([.3 + .1 * (j + 1) * (1. + np.sin(a[n])) for j, n in enumerate(names)]))
  pv = lambda **v: scaled(np.prod([.3 + .1 * (j + 1) * (1. + np.sin(v[n])) for j, n in enumerate(names)], axis=0), scale)
  if kind == 'dep':
    paras = pb.RF(*rvs)
    sp = pb.SP(pb.RF(pb.RV('x', vtype=float, vset=(-np.inf, np.inf))), paras)
    sp.set_prob(lambda **v: scaled(like(v['x'], v['m'], v['s']), scale), pscale=SCALES[scale] or 1.)
    args += ({'x': np.array(DATA)},)
    kwds.update(iid=True, joint=True)
    pi = lambda a: float(np.prod([like(d, a['m'], a['s']) for d in DATA])) / 6. / 2.
    holder, qs = paras, 'one'
    pv = lambda **v: np.prod([.3 + .1 * (j + 1) * (1. + np.sin(v[n])) for j, n in enumerate(names)], axis=0)
  else:
    sp = pb.SP(rvs[0] if len(rvs) == 1 else rvs[0] & rvs[1])
    sp.set_prob(lambda **v: scaled(target(v), scale), pscale=SCALES[scale] or 1.)
    pi = lambda a: float(target(a))
    holder, qs = sp, scale
  if prop == 'callable':
    holder.set_prop(pv)
    q = pf
  elif prop == 'order':
    fn = (lambda b, a: pv(**dict(zip(names, (a, b))))) if len(names) == 2 else (lambda a: pv(**{names[0]: a}))
    holder.set_prop(fn, order=dict(zip(names, (1, 0) if len(names) == 2 else (0,))))
    q = pf
  else:
    holder.set_prop(scaled(.35, qs) if qs != 'one' else .35)
    q = lambda a: .35
  if delta:
    holder.set_delta(lambda: holder.Delta(**now['d']))
  if kind == 'dep':
    sp.set_prop(holder)
    if delta:
      sp.set_delta(holder)
  sp.set_scores(lambda opqr: T.to_linear(float(opqr.p.prob), opqr.p.pscale))
  sp.set_thresh(lambda: now['t'])
  sp.set_update(lambda stu: bool(stu.s >= stu.t))
  base = 'proposals of {} on {} by {}{}{}'.format(kind, scale, prop, ' with deltas' if delta else '', ' plain' if suffix is False else '')
  moves = [.3, .8, .55]

  def play(script):
    sampler = sp.sampler(*args, **kwds)
    kept = None
    for j, (mv, acc) in enumerate(script):
      u = moves[mv]
      if delta and kept is not None:
        now['d'] = {n: (u - .5) * (.2 + .1 * k) for k, n in enumerate(names)}
        succ = {n: kept[n] + now['d'][n] for n in names}
      else:
        succ = {n: lims[n][0] + u * (lims[n][1] - lims[n][0]) for n in names}
      s = pi(succ)
      now['t'] = s + (-1e-6 if acc else 1e-6)
      with Scripted([u]):
        got = next(sampler)
      if j == len(script) - 1:
        what = '{} after {}'.format(base, script)
        ctx.state()
        check(got.o is None and got.r is None, '{}: o {}, r {}', what, got.o, got.r)
        for n in names:
          check(T.close(float(got.p[n]), succ[n], 1e-9, 1e-9), '{}: {} is {} and not {}', what, n, got.p[n], succ[n])
          k = n if suffix is False else n + "'"
          check(k in got.q and T.close(float(got.q[k]), succ[n], 1e-9, 1e-9), '{}: proposal of {} is {}', what, k, dict(got.q))
        p = T.to_linear(float(got.p.prob), got.p.pscale)
        check(T.close(p, s, 1e-7, 1e-12), '{}: probability {} and not {}', what, p, s)
        p = T.to_linear(float(got.q.prob), got.q.pscale)
        check(T.close(p, q(succ), 1e-7, 1e-12), '{}: proposal probability {} and not {}', what, p, q(succ))
        check(T.close(float(got.s), s, 1e-7, 1e-12) and got.t == now['t'] and got.u is acc, '{}: {} {} {}', what, got.s, got.t, got.u)
        if kept is None or acc:
          check(got.v is got.p or T.same_value(float(got.v[names[0]]), float(got.p[names[0]])), '{}: verdict {}', what, got.v)
        else:
          check(got.v is None, '{}: verdict {}', what, got.v)
        ctx.step()
        ctx.outcome((kind, acc, kept is None))
      if acc or kept is None:
        kept = succ

  for k in range(1, depth + 1):
    for script in itertools.product(itertools.product(range(len(moves)), (True, False)), repeat=k):
      play(list(script))
      ctx.trace()
  sp.reset()
  ctx.sample(base)


def run_markov(root, ctx):
  """Processes of one variable that follow its own transition matrix."""
  import probayes as pb
  n, scale, depth = root
  M = np.array(T.generic_probs(n * n)).reshape(n, n)
  M = M / M.sum(axis=0)
  states = [2 * k + 1 for k in range(n)]
  x = pb.RV('x', vtype=int, vset=states, pscale=SCALES[scale] or 1.)
  x.set_tran(scaled(M, scale))
  sp = pb.SP(x)
  base = 'chain of {} states by matrix on {}'.format(n, scale)
  cum = np.cumsum(M, axis=0)

  def play(script, start):
    smp = sp.sampler({'x': states[start]})
    cur, states_p = start, None
    for j, to in enumerate(script):
      lo = 0. if to == 0 else cum[to - 1, cur]
      with Scripted([.5 * (lo + cum[to, cur])]):
        got = next(smp)
      if j == len(script) - 1:
        what = '{} from {} after {}'.format(base, start, script)
        ctx.state()
        check(int(got.q['x']) == states[cur] and int(np.ravel(got.q["x'"])[0]) == states[to], '{}: step {}', what, dict(got.q))
        p = T.to_linear(float(np.ravel(got.q.prob)[0]), got.q.pscale)
        check(T.close(p, M[to, cur], 1e-7), '{}: transition {} and not {}', what, p, M[to, cur])
        check(int(np.ravel(got.p['x'])[0]) == states[to], '{}: state {}', what, dict(got.p))
        p = T.to_linear(float(np.ravel(got.p.prob)[0]), got.p.pscale)
        check(T.close(p, 1. / n, 1e-7), '{}: probability {} and not {}', what, p, 1. / n)
        if j:
          check(int(np.ravel(got.o['x'])[0]) == states[cur], '{}: predecessor {}', what, dict(got.o))
        ctx.step()
        ctx.outcome((cur, to))
      cur = to
  for start in range(n):
    for k in range(1, depth + 1):
      for script in itertools.product(range(n), repeat=k):
        play(list(script), start)
        ctx.trace()
  sp.reset()
  ctx.sample(base)


def spaces(tier):
  full = tier != 'quick'
  d1 = 4 if full else 3
  roots = []
  for kind in ('x', 'i', 'xy', 'dep'):
    for scale in SCALES:
      for tran in ('sym', 'pair', 'sympair', 'constant pair') + (('ownsym', 'ownpair', 'own constant pair') if kind in ('x', 'i') else ()):
        for rule in ('metropolis', 'hastings', 'custom', 'none', 'mixed', 'gibbs'):
          if rule in ('none', 'gibbs', 'mixed') and (scale not in ('one', 'log') and not full):
            continue
          for early in ((False, True) if rule in ('metropolis', 'hastings') and (full or scale in ('one', 'log')) else (False,)):
            d = d1 if rule in ('none', 'gibbs') or kind in ('x', 'i') and scale in ('one', 'log') else d1 - 1
            roots.append((kind, scale, tran, rule, early, d))
  bal = [(k, s, n, h) for h in ('process', 'variable', 'matrices') for k in ('sym', 'generic', 'oneway') for s in SCALES for n in ((2, 3, 4) if not full else (2, 3, 4, 5, 6))
         if not (k == 'oneway' and n == 2)]
  pr = [(k, s, p, d, x, 3 if full else 2) for k in ('x', 'xy', 'dep') for s in SCALES for p in ('callable', 'order', 'scalar')
        for d in (False, True) for x in (None, False)]
  mk = [(n, s, 4 if full else 3) for n in (2, 3) for s in SCALES]
  ex = [(s, r, a, b) for s in SCALES for r in ('metropolis', 'hastings') for a in (0., -300., -900., 900.) for b in (0., -300., -900., 900.)
        if iscomplex_scale(s) or abs(a) < 900. and abs(b) < 900.]
  return [Space('extremes', ex, run_extreme, 'scores of all combinations of nearby probabilities at extreme levels'),
          Space('chains', roots, run_chain, 'all scripts of proposals and thresholds on either side of the score to depth '
                '{} for every kind of process, scale, transition and rule'.format(d1)),
          Space('proposals', pr, run_proposals, 'all scripts of proposals and verdicts to depth {}'.format(3 if full else 2)),
          Space('markov', mk, run_markov, 'all paths of matrix chains to depth {}'.format(4 if full else 3)),
          Space('kernels', bal, run_balance, 'kernels of 2-{} states enumerated entirely'.format(6 if full else 4))]
