"""Random variables reconfigured in any order: the last settings alone decide."""
import itertools
import math

import numpy as np

from mc.core import Space, check
from mc import table as T
from mc.rng import Scripted
from mc.c_var import UFUNS, set_ufun, vset_of, grid
from mc.c_rv import judge, queries

PROPERTY = 'P12'
ASSUMPTIONS = ['a transformation and an inverse cumulative function are never set together (refused)',
               'settings incompatible with the current set are not attempted']

FLO = {'A': (1., 2., False, False), 'B': (.5, 4., True, False)}
INT = {'A': [0, 1, 2], 'B': [4, 9, 2], 'C': [5, 3]}
BIAS = {'low': .25, 'half': .5, 'high': .75}
MATS = {'M': [[.2, .6, .1], [.3, .3, .1], [.5, .1, .8]], 'N': [[1., .25, .5], [0., .5, .25], [0., .25, .25]]}


def ncdf(x):
  return .5 * (1 + math.erf(x / math.sqrt(2)))


def enabled(kind, st, op):
  """Whether an operation applies in a model state."""
  if kind == 'bool':
    return True
  if kind == 'float':
    if op[0] == 'ufun' and op[1] and st['prob'] == 'norm':
      return False
    if op[:2] == ('prob', 'norm') and st['ufun']:
      return False
  else:
    size = len(INT[st['vset']])
    if op[0] == 'vset':
      if len(INT[op[1]]) != size and (st['prob'] == 'array' or st['tran']):
        return False
    if op[0] == 'tran' and op[1] and size != 3:
      return False
  return True


def apply_model(st, op):
  st = dict(st)
  if op[0] == 'prob':
    st['prob'] = op[1]
    if len(op) > 2:
      st['log'] = op[2]
  elif op[0] in ('vset', 'ufun', 'tran'):
    st[op[0]] = op[1]
  return st


def apply_real(kind, rv, op, st):
  import scipy.stats
  if op[0] == 'prob':
    kw = {} if len(op) < 3 else {'pscale': 'log' if op[2] else 1.}
    log = op[2] if len(op) > 2 else st['log']
    c = lambda p: math.log(p) if log else p
    if op[1] is None:
      rv.set_prob(None, **kw)
    elif op[1] == 'scalar':
      rv.set_prob(c(.125), **kw)
    elif op[1] in BIAS:
      rv.set_prob(c(BIAS[op[1]]), **kw)
    elif op[1] == 'array' and kind == 'bool':
      rv.set_prob(np.array([c(.875), c(.125)]), **kw)
    elif op[1] == 'array':
      ps = [.5, .25, .125][:len(INT[st['vset']])]
      rv.set_prob(np.array([c(p) for p in ps]), **kw)
    elif op[1] == 'fn':
      rv.set_prob((lambda x: np.log((np.asarray(x) + 1.) / 32.)) if log else (lambda x: (np.asarray(x) + 1.) / 32.), **kw)
    else:
      rv.set_prob(scipy.stats.norm, loc=0., **kw)
  elif op[0] == 'vset':
    rv.vset = vset_of(*FLO[op[1]], 'list') if kind == 'float' else list(INT[op[1]])
  elif op[0] == 'ufun':
    set_ufun(rv, op[1])
  elif op[0] == 'tran':
    rv.set_tran(None if op[1] is None else np.array(MATS[op[1]]))
  else:
    with Scripted((.3, .8)):
      rv({3}), rv({0}), rv({-2})


def judge_flat(rv, name, pred, succ, flat, what, ctx):
  """Without a transition set, steps are certain to be made (by default) or evenly likely throughout the current set."""
  d = rv.step(pred, succ)
  p = T.to_linear(float(d.prob), d.pscale)
  check(T.close(p, 1., 1e-9) or T.close(p, flat, 1e-9), '{}: step of probability {} where {} is flat', what, p, flat)
  check(T.same_value(T.py(d[name]), pred) and T.same_value(T.py(d[name + "'"]), succ), '{}: step is {}', what, dict(d))
  ctx.state()
  ctx.step()


def judge_bool(rv, name, st, what, ctx):
  bias = BIAS.get(st['prob'], .5)
  pmf = {'array': lambda v: .125 if v else .875,
         'fn': lambda v: (v + 1.) / 32.}.get(st['prob'], lambda v: bias if v else 1. - bias)
  queries(rv, name, pmf, [False, True], [], what, ctx, whole=[False, True])
  # Draws are biased by a scalar probability only
  us = [(i + .5) / 8 for i in range(8)]
  with Scripted(us):
    hits = int(np.sum(rv({-8})[name]))
  single = 0
  for u in us:
    with Scripted([u]):
      single += bool(rv({0})[name])
  check(hits == single == 8 * bias, '{}: {} and {} of 8 evenly spaced draws are true with bias {}', what, hits, single, bias)
  judge_flat(rv, name, False, True, .5, what, ctx)


def judge_state(kind, rv, name, st, what, ctx):
  if kind == 'bool':
    judge_bool(rv, name, st, what, ctx)
    return
  if kind == 'float':
    lo, hi, o0, o1 = FLO[st['vset']]
    fwd, inv = UFUNS[st['ufun']]
    u0, u1 = fwd(lo), fwd(hi)
    ins = lambda v: lo < v < hi or v == lo and not o0 or v == hi and not o1
    pmf = {None: lambda v: 1. / (u1 - u0) if ins(v) else 0.,
           'scalar': lambda v: .125 if ins(v) else 0.,
           'fn': lambda v: (v + 1.) / 32.,
           'norm': lambda v: math.exp(-.5 * v * v) / math.sqrt(2 * math.pi)}[st['prob']]
    queries(rv, name, pmf, [lo, hi, (lo + hi) / 2], [hi + 1.], what, ctx)
    out = rv({3})
    got = [float(v) for v in out[name]]
    if st['prob'] == 'norm':
      want = grid(ncdf(lo), ncdf(hi), 3, o0, o1)
      ok = all(T.close(ncdf(v), w, 1e-8, 1e-9) for v, w in zip(got, want))
    else:
      want = [inv(t) for t in grid(u0, u1, 3, o0, o1)]
      ok = all(T.close(v, w, 1e-9, 1e-9) for v, w in zip(got, want))
    check(ok and len(got) == 3, '{}: values {} and not {}', what, got, want)
    with Scripted([.5]):
      v = float(rv({0})[name])
    w = (ncdf(v) - ncdf(lo)) / (ncdf(hi) - ncdf(lo)) if st['prob'] == 'norm' else (fwd(v) - u0) / (u1 - u0)
    check(T.close(w, .5, 1e-8, 1e-9), '{}: the median draw is {}', what, v)
    judge_flat(rv, name, lo + .25, lo + .5, 1. / (u1 - u0), what, ctx)
  else:
    vals = INT[st['vset']]
    arr = dict(zip(vals, [.5, .25, .125]))
    pmf = {None: lambda v: 1. / len(vals) if v in vals else 0.,
           'scalar': lambda v: .125 if v in vals else 0.,
           'array': lambda v: arr.get(v, 0.),
           'fn': lambda v: (v + 1.) / 32.}[st['prob']]
    queries(rv, name, pmf, vals, [7], what, ctx, whole=vals)
    if not st['tran']:
      judge_flat(rv, name, vals[0], vals[-1], 1. / len(vals), what, ctx)
    if st['tran']:
      if st['log']:
        return
      d = rv.step()
      tb = T.of_pd(d, what)
      check(tb.marg == [name + "'"] and tb.cond == [name], '{}: step is {}', what, d.name)
      m = MATS[st['tran']]
      order = sorted(vals)
      for i, a in enumerate(order):
        for j, b in enumerate(order):
          p = float(rv.step(b, a).prob)
          check(T.close(p, m[i][j], 1e-9), "{}: p({}'|{}) is {} and not {}", what, a, b, p, m[i][j])
          q = [v for k, v in tb.assignments().items() if dict(k) == {name + "'": a, name: b}]
          check(len(q) == 1 and T.close(q[0], m[i][j], 1e-9), '{}: step() has {} at {},{}', what, q, a, b)
          ctx.state()
        ctx.step(3)


def run(root, ctx):
  import probayes as pb
  kind, ops = root
  st = {'vset': 'A', 'prob': None, 'log': False, 'ufun': None, 'tran': None}
  if kind == 'float':
    rv, other = [pb.RV(k, vtype=float, vset=vset_of(*FLO['A'], 'list')) for k in 'xy']
  elif kind == 'bool':
    rv, other = [pb.RV(k, vtype=bool) for k in 'xy']
  else:
    rv, other = [pb.RV(k, vtype=int, vset=list(INT['A'])) for k in 'xy']
  first = dict(st)
  for op in ops:
    apply_real(kind, rv, op, st)
    st = apply_model(st, op)
    ctx.step()
  judge_state(kind, rv, 'x', st, 'after {}'.format(list(ops)), ctx)
  judge_state(kind, other, 'y', first, 'another variable after {}'.format(list(ops)), ctx)
  ctx.trace()
  ctx.sample(repr(ops))


OPS = {
    'float': [('vset', 'A'), ('vset', 'B'), ('ufun', 'log'), ('ufun', 'affine'), ('ufun', None), ('prob', None, False),
              ('prob', None, True), ('prob', None), ('prob', 'scalar', False), ('prob', 'fn', True), ('prob', 'fn', False),
              ('prob', 'norm', False), ('prob', 'norm', True), ('draw',)],
    'int': [('vset', 'A'), ('vset', 'B'), ('vset', 'C'), ('prob', None, False), ('prob', None, True),
            ('prob', 'scalar', True), ('prob', 'array', False), ('prob', 'array', True), ('prob', 'fn', False),
            ('tran', 'M'), ('tran', 'N'), ('tran', None), ('draw',)],
    'bool': [('prob', None, False), ('prob', None, True), ('prob', None)] + [('prob', b, g) for b in BIAS for g in (False, True)] +
            [('prob', 'half'), ('prob', 'low'), ('prob', 'array', False), ('prob', 'array', True), ('prob', 'fn', False), ('draw',)],
}


def sequences(kind, depth):
  out = []
  init = {'vset': 'A', 'prob': None, 'log': False, 'ufun': None, 'tran': None}

  def grow(st, ops):
    if ops:
      out.append((kind, tuple(ops)))
    if len(ops) == depth:
      return
    for op in OPS[kind]:
      if ops and op == ops[-1] or not enabled(kind, st, op):
        continue
      if op == ('draw',) and not ops:
        continue
      grow(apply_model(st, op), ops + [op])
  grow(init, [])
  return out


def spaces(tier):
  d = 3 if tier == 'quick' else 4
  return [Space('float', sequences('float', d), run, 'all operation sequences up to length {}'.format(d)),
          Space('int', sequences('int', d), run, 'all operation sequences up to length {}'.format(d)),
          Space('bool', sequences('bool', d), run, 'all operation sequences up to length {}'.format(d))]
