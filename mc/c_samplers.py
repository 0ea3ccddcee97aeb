"""Samplers of a process: independence, counting, stopping, restarting, walking and summaries."""
import collections
import itertools

import numpy as np

from mc.core import Space, check
from mc import table as T
from mc.rng import Scripted

PROPERTY = 'P16'
ASSUMPTIONS = ['samplers are retired by resetting a process without naming a sampler']

INITS = [{'x': .5, 'y': -.25}, {'x': 10.5, 'y': 4.75}]


def density(x, y):
  return 1. + .5 * np.sin(x) * np.cos(1.7 * y)


class World:
  """The process under test, and its reference model."""

  def __init__(self, kind, pattern):
    import probayes as pb
    self.kind, self.pattern, self.g, self.auto = kind, pattern, 0, False
    x = pb.RV('x', vtype=float, vset=[-100., 100.])
    y = pb.RV('y', vtype=float, vset=[-100., 100.])
    sp = self.sp = pb.SP(x & y)
    sp.set_prob(density, pscale=1.)
    if kind == 'tran':
      sp.set_tran(lambda **v: .5)
      sp.set_delta(lambda: sp.Delta(**self.move()))
    elif kind in ('gibbs', 'gibbs2'):
      sp.set_tfun(self.cond, tsteps=1 if kind == 'gibbs' else 2)
    elif kind == 'prop':
      sp.set_prop(lambda x, y: .01 + 0. * x * y)
    if kind in ('tran', 'prop', 'gibbs', 'gibbs2'):
      sp.set_scores(lambda opqr: .25)
      sp.set_thresh(lambda: .75)
      sp.set_update(lambda stu: self.verdict())
    self.restart()

  def restart(self):
    self.sp.reset()
    self.g, self.auto = 0, False
    self.gens, self.model = [], []

  def move(self):
    return {'x': .01 * (self.g + 1), 'y': -.003 * (self.g + 1) ** 2}

  def cond(self, x, y, unknown):
    return .5 * (y if unknown == 'x' else x) + .01 * (self.g + 1)

  def verdict(self):
    v = self.pattern[self.g % len(self.pattern)]
    self.g += self.auto
    return v

  # the model
  def new(self, init, stop):
    self.model.append({'init': init, 'stop': stop, 'count': 0, 'last': None, 'cur': 0, 'done': False})

  def advance(self, m):
    """Expected (predecessor, successor, verdict, kept) of the next sample, which is then made."""
    first = m['last'] is None
    pred = dict(m['init']) if first else dict(m['last'])
    kind = self.kind
    if kind == 'tran':
      mv = self.move()
      succ = {k: pred[k] + mv[k] for k in pred}
    elif kind == 'gibbs':
      succ = dict(pred)
      key = 'xy'[m['cur']]
      succ[key] = self.cond(succ['x'], succ['y'], key)
    elif kind == 'gibbs2':
      succ = dict(pred)
      for key in 'xy':
        succ[key] = self.cond(succ['x'], succ['y'], key)
    else:
      u = self.draw()
      succ = {k: -100. + 200. * u for k in pred}
    upd = self.verdict() if kind != 'none' else None
    m['count'] += 1
    m['cur'] = (m['cur'] + 1) % 2
    accept = first or bool(upd)
    if kind != 'none' and accept:
      m['last'] = succ
    return first, pred, succ, upd, accept

  def draw(self):
    return ((self.g * 7) % 11 + .5) / 12.

  def made(self):
    self.g += 1


def near(pd, want, what):
  for k, v in want.items():
    check(T.close(float(pd[k]), v, 1e-9, 1e-9), '{}: {} is {} and not {}', what, k, pd[k], v)


def judge(w, got, exp, prev, what):
  first, pred, succ, upd, accept = exp
  if w.kind == 'none':
    near(got, succ, what)
    return
  near(got.p, succ, what + ' (p)')
  check(T.close(float(got.p.prob), density(succ['x'], succ['y']), 1e-9), '{}: probability {}', what, got.p.prob)
  if w.kind in ('tran', 'gibbs', 'gibbs2'):
    near(got.q, pred, what + ' (q)')
    near(got.q, {k + "'": v for k, v in succ.items()}, what + ' (q)')
    check((got.o is None) == first, '{}: o is {}', what, got.o)
    if not first:
      near(got.o, pred, what + ' (o)')
      near(got.v, succ if accept else pred, what + ' (v)')
    elif upd:
      near(got.v, succ, what + ' (v)')
  else:
    check(got.o is None and got.r is None, '{}: o {} r {}', what, got.o, got.r)
  check(got.s == .25 and got.t == .75, '{}: score {} threshold {}', what, got.s, got.t)
  check(got.u is upd, '{}: update {} and not {}', what, got.u, upd)


def ops_of(w, stops):
  ops = [('new', i, s) for i, s in stops if len(w.model) < 2]
  for k in range(len(w.model)):
    ops += [('next', k), ('direct', k), ('walk', k, 1), ('walk', k, 2), ('reset', k, True), ('reset', k, False)]
    if w.model[k]['stop'] is not None:
      ops.append(('finish', k))
  return ops


def pull(w, k, what):
  """One sample through the generator."""
  m = w.model[k]
  over = m['done'] or (m['stop'] is not None and m['count'] >= m['stop'])
  with Scripted([w.draw()]):
    try:
      got = next(w.gens[k])
    except StopIteration:
      check(over, '{}: sampler stopped early', what)
      if not m['done']:
        m.update(done=True, count=0, last=None, cur=0)
      return None
  check(not over, '{}: sampler went on', what)
  judge(w, got, w.advance(m), None, what)
  w.made()
  return got


def apply(w, op, what, ctx):
  sp = w.sp
  if op[0] == 'new':
    args = ({0},) if w.kind in ('prop', 'none') else (dict(INITS[op[1]]),)
    w.gens.append(sp.sampler(*args) if op[2] is None else sp.sampler(*args, stop=op[2]))
    w.new(INITS[op[1]], op[2])
  elif op[0] == 'next':
    pull(w, op[1], what)
  elif op[0] == 'direct':
    k = op[1]
    m = w.model[k]
    args = ({0},) if w.kind in ('prop', 'none') else (dict(m['init']),)
    with Scripted([w.draw()]):
      got = sp.next(k if w.g % 2 else w.gens[k], *args)
    judge(w, got, w.advance(m), None, what)
    w.made()
  elif op[0] == 'walk':
    k, n = op[1], op[2]
    m = w.model[k]
    if m['done']:
      return
    # the draws and the model advance together, one sample at a time
    exps = []
    g0 = w.g
    left = n if m['stop'] is None else min(n, max(0, m['stop'] - m['count']))
    draws = []
    for _ in range(left):
      draws.append(w.draw())
      exps.append(w.advance(m))
      w.g += 1
    w.g = g0
    # the clock of the world advances with every verdict that the process asks for
    w.auto = True
    with Scripted([u for u in draws for _ in 'xy'] or [.5]):
      out = sp.walk(w.gens[k], n)
    w.auto = False
    w.g = g0 + left
    if n > left:
      m.update(done=True, count=0, last=None, cur=0)
    check(len(out) == left, '{}: walked {} and not {}', what, len(out), left)
    for got, exp in zip(out, exps):
      judge(w, got, exp, None, what)
  elif op[0] == 'finish':
    k = op[1]
    m = w.model[k]
    if m['done']:
      return
    for _ in range(m['stop'] + 1):
      if pull(w, k, what) is None:
        break
    check(m['done'], '{}: never finished', what)
  elif op[0] == 'reset':
    k = op[1]
    sp.reset(k if w.g % 2 else w.gens[k], reset_last=op[2])
    m = w.model[k]
    m['count'] = 0
    if op[2]:
      m.update(last=None, cur=0)
  ctx.step()
  for k, m in enumerate(w.model):
    for ref in (k, w.gens[k]):
      check(sp.get_counter(ref) == m['count'], '{}: sampler {} counted {} and not {}', what, k, sp.get_counter(ref), m['count'])
      last = sp.get_last(ref)
      if w.kind != 'none':
        check((last is None) == (m['last'] is None), '{}: sampler {} keeps {}', what, k, last)
        if last is not None:
          near(last.p, m['last'], what + ' (kept by {})'.format(k))
    check(sp.get_sampler(k) is w.gens[k], '{}: sampler {} is another', what, k)
  check(len(sp.get_sampler()) == len(w.gens), '{}: samplers {}', what, sp.get_sampler())


def run_hist(root, ctx):
  kind, pattern, stops, depth, prefix = root

  w = World(kind, pattern)

  def replay(hist):
    w.restart()
    for j, op in enumerate(hist):
      apply(w, op, '{} {}: {}'.format(kind, pattern, hist[:j + 1]), ctx if j == len(hist) - 1 else Mute)


  class Mute:
    step = staticmethod(lambda *a: None)

  def explore(hist):
    ops = ops_of(w, stops)
    ctx.state()
    if len(hist) == depth:
      ctx.trace()
      return
    for op in ops:
      replay(hist + [op])
      ctx.outcome((op[0], tuple((m['count'], m['done'], m['last'] is None) for m in w.model)))
      explore(hist + [op])
  h = list(prefix)
  replay(h)
  explore(h)
  ctx.sample(str(root))


def run_summary(root, ctx):
  """Summaries hold every sample that was not refused, in order."""
  kind, pattern, container = root
  w = World(kind, pattern)
  init = ({0},) if kind in ('prop', 'none') else (dict(INITS[0]),)
  gen = w.sp.sampler(*init)
  samples = []
  for _ in pattern:
    with Scripted([w.draw()]):
      samples.append(next(gen))
    w.made()
  what = 'summary of {} {}'.format(kind, pattern)
  out = w.sp({'list': list, 'tuple': tuple, 'deque': collections.deque}[container](samples))
  ctx.state()
  ctx.step()
  if kind == 'none':
    parts = {'p': (out, samples)}
  else:
    kept = [s for s in samples if s.u is not False]
    parts = {k: (getattr(out, k), [getattr(s, k) for s in kept if getattr(s, k) is not None]) for k in 'opqrv'}
    check(list(out.u) == [s.u for s in kept], '{}: updates {}', what, out.u)
    for k in 'st':
      check((getattr(out, k) or []) == [getattr(s, k) for s in kept], '{}: {} {}', what, k, getattr(out, k))
  for k, (got, want) in parts.items():
    if not want:
      check(got is None, '{}: {} is {}', what, k, got)
      continue
    check(set(got.keys()) == set(want[0].keys()), '{}: {} has {}', what, k, list(got))
    for n in want[0]:
      check(np.allclose(np.ravel(got[n]), [float(p[n]) for p in want], 1e-12), '{}: {} of {} is {}', what, n, k, got[n])
    check(np.allclose(np.ravel(got.prob), [float(p.prob) for p in want], 1e-12), '{}: probabilities of {}', what, k)
    ctx.outcome((k, len(want)))
  ctx.trace()


# Configuration of scores, thresholds and updates

SCORES = {'none': None, 'const': .6, 'fun': 'fun', 'key': 'key', 'metropolis': 'metropolis', 'hastings': 'hastings', 'gibbs': 'gibbs'}
THRESH = {'none': None, 'const': .45, 'fun': 'fun', 'pos': 'pos', 'key': 'key', 'metropolis': 'metropolis', 'gibbs': 'gibbs'}
UPDATE = {'none': None, 'yes': True, 'no': False, 'fun': 'fun', 'key': 'key', 'metropolis': 'metropolis', 'gibbs': 'gibbs'}
MOVES = [.5, 1.75, -.5]
DRAWS = [.2, .93, .61]


def line(x):
  return 1. + .8 * np.sin(2. * x)


def fscore(opqr, mult=1.):
  return mult * (.1 if opqr.o is None else float(opqr.o.prob)) * float(opqr.p.prob)


def fdraw(low=0., high=1.):
  return np.random.uniform(low, high)


def fupdate(stu, bias=0.):
  s = 0. if stu.s is None else stu.s
  t = .5 if stu.t is None else stu.t
  return bool(s + bias > t)


def configure(sp, op):
  what, how = op
  if what == 'scores':
    if how == 'fun':
      sp.set_scores(fscore)
    elif how == 'key':
      sp.set_scores(fscore, mult=.25)
    else:
      sp.set_scores(SCORES[how])
  elif what == 'thresh':
    if how == 'fun':
      sp.set_thresh(lambda: .55)
    elif how == 'pos':
      sp.set_thresh(fdraw, .25, .75)
    elif how == 'key':
      sp.set_thresh(fdraw, low=.1, high=.6)
    else:
      sp.set_thresh(THRESH[how])
  else:
    if how == 'fun':
      sp.set_update(fupdate)
    elif how == 'key':
      sp.set_update(fupdate, bias=.3)
    else:
      sp.set_update(UPDATE[how])


def model_of(conf, op):
  """A rule named for scores brings its thresholds and updates; one named for thresholds its updates."""
  what, how = op
  conf = dict(conf)
  conf[what] = how
  if how in ('metropolis', 'hastings', 'gibbs'):
    for other in {'scores': ('thresh', 'update'), 'thresh': ('update',), 'update': ()}[what]:
      conf[other] = how
  return conf


def run_configured(root, ctx):
  import probayes as pb
  first, depth, pair, scale = root
  x = pb.RV('x', vtype=float, vset=[-100., 100.])
  sp = pb.SP(pb.RF(x))
  if scale == 'log':
    sp.set_prob(lambda x: np.log(line(x)), pscale='log')
  else:
    sp.set_prob(line, pscale=1.)
  sp.set_tran(((lambda **v: .5), (lambda **v: .2)) if pair else (lambda **v: .5))
  back = np.exp(.2 - .5) if scale == 'log' else .2 / .5   # transitions are on the scale of the process
  pending = [None]
  sp.set_delta(lambda: sp.Delta(x=pending[0]))
  ops = [(w, h) for w, hs in (('scores', SCORES), ('thresh', THRESH), ('update', UPDATE)) for h in hs]

  def linear(pd):
    return T.to_linear(float(pd.prob), pd.pscale)

  def walk(conf, hist):
    what = 'after {}'.format(hist)
    sp.reset()
    sampler = sp.sampler({'x': .25})
    kept = None
    for mv, u in zip(MOVES, DRAWS):
      pending[0] = mv
      with Scripted([u]):
        got = next(sampler)
      ctx.step()
      pred = .25 if kept is None else kept
      succ = pred + mv
      check(T.close(float(got.p['x']), succ, 1e-9), '{}: proposed {} and not {}', what, got.p['x'], succ)
      check(T.close(linear(got.p), line(succ), 1e-9), '{}: probability {}', what, got.p.prob)
      sc, th, up = conf['scores'], conf['thresh'], conf['update']
      ratio = None if kept is None else line(succ) / line(pred)
      raw = (lambda v: np.log(v)) if scale == 'log' else (lambda v: v)
      prod = (.1 if kept is None else raw(line(pred))) * raw(line(succ))
      s = {'none': None, 'const': .6, 'fun': prod, 'key': .25 * prod, 'gibbs': np.nan,
           'metropolis': None if ratio is None else min(1., ratio),
           'hastings': None if ratio is None else min(1., ratio * (back if pair else 1.))}[sc]
      t = {'none': None, 'const': .45, 'fun': .55, 'pos': .25 + .5 * u, 'key': .1 + .5 * u, 'metropolis': u,
           'hastings': u, 'gibbs': np.nan}[th]
      for name, a, b in (('score', got.s, s), ('threshold', got.t, t)):
        same = (a is None and b is None) or (a is not None and b is not None and
                                              (T.close(float(a), b, 1e-9) or (np.isnan(a) and np.isnan(b))))
        check(same, '{}: {} {} and not {}', what, name, a, b)
      if up in ('metropolis', 'hastings'):
        upd = True if s is None or s >= t else None
      else:
        upd = {'none': None, 'yes': True, 'no': False, 'gibbs': True,
               'fun': bool((0. if s is None else s) > (.5 if t is None else t)),
               'key': bool((0. if s is None else s) + .3 > (.5 if t is None else t))}[up]
      check((got.u is None) == (upd is None) and bool(got.u) == bool(upd), '{}: update {} and not {}', what, got.u, upd)
      accept = up == 'none' or kept is None or bool(upd)
      if accept:
        check(T.close(float(got.v['x']), succ, 1e-9), '{}: verdict {}', what, got.v)
      else:
        check(T.close(float(got.v['x']), pred, 1e-9), '{}: verdict {}', what, got.v)
      kept = succ if accept else pred
      check(T.close(float(sp.get_last(sampler).p['x']), kept, 1e-9), '{}: kept {}', what, sp.get_last(sampler))
      ctx.outcome((accept, upd, s is None, t is None))

  def undefined(conf):
    """A metropolis comparison needs a threshold."""
    return conf['update'] in ('metropolis', 'hastings') and conf['thresh'] == 'none' and conf['scores'] != 'none'

  def explore(conf, hist):
    ctx.state()
    if not undefined(conf):
      walk(conf, hist)
    if len(hist) == depth:
      ctx.trace()
      return
    for op in ops:
      for w in ('scores', 'thresh', 'update'):
        configure(sp, (w, 'none'))
      for o in hist:                     # replay, as configurations are cumulative
        configure(sp, o)
      configure(sp, op)
      explore(model_of(conf, op), hist + [op])
  conf = {'scores': 'none', 'thresh': 'none', 'update': 'none'}
  configure(sp, first)
  explore(model_of(conf, first), [first])
  ctx.sample(str(root))


# Summaries of distributions

def run_posterior(root, ctx):
  import probayes as pb
  scale, data, joint, iid, mus, container, kind = root
  mu = pb.RV('mu', vtype=float, vset=[0., 2.])
  x = pb.RV('x', vtype=float, vset=[-10., 10.])
  if kind == 'informed':
    mu.set_prob(lambda mu: .2 + .3 * mu, pscale=1.)
    prior = lambda m: .2 + .3 * m
  else:
    prior = lambda m: .5
  sp = pb.SP(pb.RF(x), pb.RF(mu))
  like = lambda x, mu: 1. / (1. + (x - mu) ** 2)
  if scale == 'log':
    sp.set_prob(lambda x, mu: np.log(like(x, mu)), pscale='log')
  else:
    sp.set_prob(like, pscale=1.)
  obs = {'one': .5, 'two': np.array([.5, -1.]), 'three': np.array([1.5, -.25, 3.])}[data]
  n = np.size(obs)
  kwds = {}
  if joint:
    kwds['joint'] = True
  if iid:
    kwds['iid'] = True
  what = 'summary of {}'.format(root)
  samples = []
  gen = sp.sampler({'mu': {0}, 'x': obs}, stop=len(mus), **kwds)
  for m in mus:
    with Scripted([m / 2.]):
      samples.append(next(gen))
    ctx.step()
  try:
    next(gen)
    check(False, '{}: the sampler did not stop', what)
  except StopIteration:
    pass
  vals = [2. * (m / 2.) for m in mus]
  for m, got in zip(vals, samples):
    check(T.close(float(got['mu']), m, 1e-9), '{}: drew {} and not {}', what, got['mu'], m)
  box = {'list': list, 'tuple': tuple, 'deque': collections.deque}[container](samples)
  pri = [prior(m) if joint else 1. for m in vals]
  marg, cond = (['x', 'mu'], []) if joint else (['x'], ['mu'])
  if n > 1 and not iid:
    # a curve per draw: there is no one axis to put draws on unless there is one draw
    if len(mus) > 1:
      return
    out = sp(box)
    want = T.Table(marg, cond, {'mu': vals[0]}, [(('x',), [(float(o),) for o in obs])],
                   {(j,): like(o, vals[0]) * pri[0] for j, o in enumerate(obs)})
  else:
    probs = [pr * float(np.prod(like(obs, m))) for m, pr in zip(vals, pri)]
    out = sp(box)
    if n > 1:
      want = T.Table(marg, cond, {'x': ('set', n * len(mus))}, [(('mu',), [(m,) for m in vals])],
                     {(j,): p for j, p in enumerate(probs)})
    else:
      want = T.Table(marg, cond, {}, [(('x', 'mu'), [(.5, m) for m in vals])],
                     {(j,): p for j, p in enumerate(probs)})
  ctx.step()
  T.compare(T.of_pd(out, what), want, what, rtol=1e-8)
  check(isinstance(out.pscale, complex) == isinstance(samples[0].pscale, complex), '{}: scale {}', what, out.pscale)
  check(out.rescaled is not None and len(box) == len(mus), '{}: samples {}', what, len(box))
  ctx.state()
  if n > 1 and iid and joint:
    got = sp(box, conditionalise=True)
    total = sum(want.p.values())
    post = T.Table(['mu'], ['x'], want.scal, want.groups, {k: v / total for k, v in want.p.items()})
    T.compare(T.of_pd(got, what), post, what + ' given the data', rtol=1e-8)
    ctx.step()
    ctx.state()
    ctx.outcome(tuple(round(v, 6) for v in post.p.values()))
  ctx.trace()


def run_chains(root, ctx):
  """Summaries of chains over parameters: of a sampler (by verdict), or of samples fed back by hand."""
  import probayes as pb
  scale, n, joint, form, moves, verdicts, container = root
  mu = pb.RV('mu', vtype=float, vset=[-5., 5.])
  x = pb.RV('x', vtype=float, vset=[-10., 10.])
  mu.set_prob(lambda mu: .2 + .02 * mu, pscale=1.)
  paras = pb.RF(mu)
  sp = pb.SP(pb.RF(x), paras)
  like = lambda x, mu: 1. / (1. + (x - mu) ** 2)
  if scale == 'log':
    sp.set_prob(lambda x, mu: np.log(like(x, mu)), pscale='log')
  else:
    sp.set_prob(like, pscale=1.)
  pending = []
  paras.set_tran(lambda **kwds: .5)
  paras.set_delta(lambda: paras.Delta(mu=pending[-1]))
  sp.set_tran(paras)
  sp.set_delta(paras)
  obs = .5 if n == 1 else np.array([.5, -1., 3.][:n])
  kwds = dict(joint=joint, iid=n > 1)
  kwds = {k: v for k, v in kwds.items() if v}
  what = 'summary of chain {}'.format(root)
  samples, want = [], {k: [] for k in ('o', 'p', 'v')}
  if form == 'sampler':
    script = iter(verdicts)
    sp.set_scores(lambda opqr: .25)
    sp.set_thresh(lambda: .75)
    sp.set_update(lambda stu: next(script))
    gen = sp.sampler({'mu': .5}, {'x': obs}, **kwds)
  held, start, last = [], .5, None
  for i, (move, verdict) in enumerate(zip(moves, verdicts)):
    pending.append(move)
    if form == 'sampler':
      samples.append(next(gen))
    else:
      verdict = True
      samples.append(sp.sample(samples[-1], {'x': obs}, **kwds) if samples else sp.sample({'mu': .5}, {'x': obs}, **kwds))
    succ = (start if last is None else last) + move
    took = verdict or last is None
    if verdict is not False:
      if last is not None:
        want['o'].append(last)
      want['p'].append(succ)
      if took or last is not None:
        want['v'].append(succ if took else last)
    if took:
      last = succ
    ctx.step()
  box = {'list': list, 'tuple': tuple, 'deque': collections.deque}[container](samples)
  prior = lambda m: .2 + .02 * m if joint else 1.
  for cond in (None, False, True) if joint else (None,):
    out = sp(box) if cond is None else sp(box, conditionalise=cond)
    for key, mus in want.items():
      got = getattr(out, key)
      if not mus or key == 'v' and form != 'sampler':
        check(got is None, '{}: {} is {}', what, key, got)
        continue
      probs = [prior(m) * float(np.prod(like(obs, m))) for m in mus]
      if cond:
        probs = [p / sum(probs) for p in probs]
      marg, given = (['mu', 'x'], []) if joint else (['x'], ['mu'])
      if cond:
        marg, given = ['mu'], ['x']
      check(sorted(got.marg.keys()) == marg and sorted(got.cond.keys()) == given, '{}: {} is {}', what, key, got)
      check(np.allclose(np.ravel(got['mu']), mus, 1e-12), '{}: values of {} are {}', what, key, got['mu'])
      if n > 1:
        check(got['x'] == {n * len(mus)}, '{}: {} of {} observations', what, key, got['x'])
      else:
        check(np.allclose(np.ravel(got['x']), obs), '{}: {} of {}', what, key, got['x'])
      lin = [T.to_linear(float(v), got.pscale) for v in np.ravel(got.prob)]
      check(np.shape(lin) == (len(probs),) and np.allclose(lin, probs, 1e-8), '{}: {} has probabilities {} and not {}', what, key,
            lin, probs)
      ctx.state()
      ctx.outcome((key, len(mus), cond))
    qs = out.q
    check(np.allclose(np.ravel(qs.prob), .5) and np.size(qs.prob) == len(want['p']), '{}: transitions {}', what, qs)
  ctx.trace()


# Samplers of plain processes by their forms of call

FORMS = ['bare', 'count', 'stop', 'zero', 'zerostop', 'values', 'valuestop']


def run_defaults(root, ctx):
  """Samplers made without arguments or with a number draw every variable at random, any way they are consumed."""
  kind, scale, forms, script = root
  import probayes as pb
  lin = {'lin': 1., 'log': 'log'}[scale]
  kinds = {'x': float, 'y': float, 'i': int, 'b': bool}
  names = {'one': 'x', 'two': 'xy', 'mixed': 'xi', 'ints': 'i', 'bool': 'xb', 'sd': 'xy'}[kind]
  dens = {'x': lambda v: (1. + v) / 8. / 1.0, 'y': lambda v: (3. - v) / 4., 'i': lambda v: .1 + .1 * v, 'b': lambda v: .25 + .5 * v}
  rvs = []
  for n in names:
    vset = {'x': (0., 2.), 'y': (-1., 1.), 'i': [0, 1, 2], 'b': [False, True]}[n]
    rv = pb.RV(n, vtype=kinds[n], vset=vset, pscale=lin)
    rv.set_prob(lambda v, n=n: np.log(dens[n](v)) if scale == 'log' else dens[n](v), pscale=lin)
    rvs.append(rv)
  if kind == 'sd':
    sp = pb.SP(pb.RF(rvs[0]), pb.RF(rvs[1]))
  else:
    sp = pb.SP(*rvs)
  gens, ids, model = [], [], []
  base = 'samplers of {}'.format(root)

  def args_of(form):
    given = {n: {'x': .75, 'y': .5, 'i': 2, 'b': True}[n] for n in names}
    return {'bare': ((), {}, None), 'count': ((3,), {}, 3), 'stop': ((), {'stop': 2}, 2), 'zero': (({0},), {}, None),
            'zerostop': (({0},), {'stop': 3}, 3), 'values': ((given,), {}, None), 'valuestop': ((given,), {'stop': 2}, 2)}[form]

  def judged(got, form, what):
    check(isinstance(got, pb.PD), '{}: a {}', what, type(got).__name__)
    check(sorted(got.keys()) == sorted(names), '{}: variables {}', what, list(got))
    if form.startswith('value'):
      want = args_of(form)[0][0]
    else:
      want = {n: {'x': 2. * u, 'y': -1. + 2. * u, 'i': min(2, int(3 * u)), 'b': 2 * u >= 1.}[n] for n in names}
    for n in names:
      check(np.ndim(got[n]) == 0 and T.close(float(got[n]), float(want[n]), 1e-12, 1e-12), '{}: {} is {} and not {}', what, n,
            got[n], want[n])
    p = T.to_linear(float(got.prob), got.pscale)
    check(T.close(p, float(np.prod([dens[n](float(want[n])) for n in names])), 1e-9), '{}: probability {}', what, p)
    ctx.outcome((form, round(p, 9)))

  def make(form):
    args, kwds, stop = args_of(form)
    gen = sp.sampler(*args, **kwds)
    gens.append(gen)
    model.append({'form': form, 'stop': stop, 'count': 0})
    check(sp.get_sampler(len(gens) - 1) is gen and sp.get_sampler(gen) is gen and sp.get_sampler() == gens, '{}: samplers {}', base,
          sp.get_sampler())

  def counted(what):
    for k, m in enumerate(model):
      for i in (k, gens[k]):
        check(sp.get_counter(i) == m['count'], '{}: sampler {} counted {} and not {}', what, k, sp.get_counter(i), m['count'])
      check(sp.get_counter()[gens[k]] == m['count'], '{}: counters {}', what, sp.get_counter())
      check(sp.get_last(k) is None and sp.get_last()[gens[k]] is None, '{}: last {}', what, sp.get_last(k))

  for f in forms:
    make(f)
  counted(base)
  for j, (how, k) in enumerate(script):
    m, u = model[k], ((j * 5) % 7 + .5) / 8.
    what = '{} {} at {}'.format(base, (how, k), j)
    left = None if m['stop'] is None else m['stop'] - m['count']
    if left is None and how in ('list', 'walkall', 'still'):
      continue
    ctx.step()
    with Scripted([u]):
      if how == 'next':
        got = [next(gens[k])]
      elif how == 'direct':
        args, kwds, _ = args_of(m['form'])
        args = ({0},) if not args or type(args[0]) is int else args
        got = [sp.next(k, *args)]
      elif how == 'walk':
        got = sp.walk(gens[k], 2)
      elif how == 'still':
        got = sp.walk(gens[k], 0)
      elif how == 'walkall':
        got = sp.walk(gens[k])
      elif how == 'list':
        got = list(gens[k])
    n = {'next': 1, 'direct': 1, 'walk': 2, 'still': 0}.get(how, left)
    whole = how in ('walkall', 'list')
    if left is not None and how == 'walk' and n > left:
      n, whole = left, True
    if how.startswith('walk') or how == 'still':
      check(isinstance(got, collections.deque), '{}: walked to a {}', what, type(got).__name__)
    check(len(got) == n, '{}: {} samples and not {}', what, len(got), n)
    for g in got:
      judged(g, m['form'], what)
    m['count'] += n
    if whole:       # finished: counts restart
      m['count'] = 0
    counted(what)
    ctx.state()
    if whole or (how == 'next' and left == 1) or (how == 'direct' and left == 1) or (how == 'walk' and left == 2):
      break
  ctx.trace()


def spaces(tier):
  full = tier != 'quick'
  d = 6 if full else 5
  roots = []
  pats = [(True,), (None, True), (True, None, False, True)]
  for kind in ('tran', 'gibbs', 'gibbs2', 'prop', 'none'):
    for pat in pats if kind != 'none' else pats[:1]:
      for st in (((0, None), (1, 2)), ((0, 1), (1, None)), ((1, 3), (0, 2))):
        dd = d if kind in ('tran', 'gibbs') and pat is pats[2] else d - 1
        firsts = [('new', i, s) for i, s in st]
        if dd == d:
          for f in firsts:
            for second in [('new', i, s) for i, s in st] + [('next', 0), ('direct', 0), ('walk', 0, 1), ('walk', 0, 2),
                                                              ('reset', 0, True), ('reset', 0, False)]:
              roots.append((kind, pat, st, dd, (f, second)))
        else:
          roots += [(kind, pat, st, dd, (f,)) for f in firsts]
  verd = (True, None, False)
  sums = [(kind, p, c) for kind in ('tran', 'gibbs', 'prop') for n in range(1, 6 if full else 5)
          for p in itertools.product(verd, repeat=n) for c in ('list', 'deque', 'tuple')[:3 if n < 3 or full else 2]]
  sums += [('none', (True,) * n, c) for n in (1, 2, 3) for c in ('list', 'deque', 'tuple')]
  ops = [(w, h) for w, hs in (('scores', SCORES), ('thresh', THRESH), ('update', UPDATE)) for h in hs]
  confs = [(op, 4 if full and not pair and scale == 'lin' else 3, pair, scale) for op in ops
           for pair in (False, True) for scale in ('lin', 'log')]
  grid = (.5, 1.25, 1.75)
  posts = [(scale, data, joint, iid, mus, c, kind) for scale in ('lin', 'log') for data in ('one', 'two', 'three')
           for joint in (False, True) for iid in (False, True) for k in range(1, 5 if full else 4)
           for mus in itertools.product(grid, repeat=k) for c in ('list', 'deque', 'tuple')[:3 if k < 3 or full else 1]
           for kind in ('flat', 'informed') if data != 'one' or not iid]
  chains = [(scale, n, joint, form, moves, v, c) for scale in ('lin', 'log') for n in (1, 2, 3) for joint in (False, True)
            for form in ('sampler', 'opqr') for k in range(1, 5 if full else 4)
            for moves in itertools.product((.25, -.5), repeat=k)
            for v in (itertools.product(verd, repeat=k) if form == 'sampler' else [(True,) * k])
            for c in ('list', 'deque', 'tuple')[:3 if full and k < 3 else 1] if v[0] is not False]
  uses = [(h, k) for h in ('next', 'direct', 'walk', 'still', 'walkall', 'list') for k in (0, 1)]
  defaults = [(kind, scale, (f, g), sc) for kind in ('one', 'two', 'mixed', 'ints', 'bool', 'sd') for scale in ('lin', 'log')
              for f in FORMS for g in (FORMS if full else ('bare', 'count', 'valuestop'))
              for n in range(1, 4 if full and scale == 'lin' else 3) for sc in itertools.product(uses, repeat=n)
              if kind in ('one', 'mixed') or full or (n == 1 or scale == 'lin' and g == 'count')]
  return [Space('defaults', defaults, run_defaults, 'all forms of call of two samplers, all sequences of uses to length {}'.format(3 if full else 2)),
          Space('chains', chains, run_chains, 'all sequences of moves and verdicts to length {}'.format(4 if full else 3)),
          Space('configured', confs, run_configured, 'all sequences of setting scores, thresholds and updates to length 3'),
          Space('posteriors', posts, run_posterior, 'all sequences of up to {} draws of 3 values'.format(4 if full else 3)),
          Space('histories', roots, run_hist, 'all sequences of creating, advancing, walking, stopping and resetting two samplers to length {}'.format(d)),
          Space('summaries', sums, run_summary, 'all sequences of verdicts to length {}'.format(5 if full else 4))]
