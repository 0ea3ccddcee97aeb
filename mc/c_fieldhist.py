"""Fields and processes reconfigured in any order: the latest settings alone decide."""
import collections
import itertools

import numpy as np

from mc.core import Space, Violation, check
from mc import table as T
from mc.rng import Scripted

PROPERTY = 'P22'
ASSUMPTIONS = ['a reconfigured object is compared with one made afresh with the latest settings, which other properties judge',
               'a transition that is a covariance or a multivariate distribution provides its own sampling function']

NAMES = ['x', 'y']
COV = {'covA': [[.04, .01], [.01, .09]], 'covB': [[.25, -.1], [-.1, .16]]}
LOW = [[.5, 0.], [.25, .75]]


def f1(x, y=0.):
  return .5 + .25 * x + .125 * y * x


def f2(x, y=0.):
  return np.log(.25 + .5 * x ** 2 + .125 * y)


def t1(**v):
  return .3 + .1 * sum(np.sin(v[k] * (1. + 1.5 * (k[-1] == "'"))) for k in sorted(v))


def t2(**v):
  return .6 + .2 * sum(np.cos(v[k] * (2. - 1.5 * (k[-1] == "'"))) for k in sorted(v))


def q1(x, y=0.):
  return .125 + .25 * x + .5 * y


def cond(unknown=None, x=0., y=0.):
  return .1 + .5 * (y if unknown == 'x' else x)


PROBS = {None: None, 'fn': (f1, 1.), 'log': (f2, 'log'), 'const': (.25, 1.), 'sym': ('sym', 1.), 'mvn': ('mvn', 1.)}
DELTAS = {'list': ([.25], {}), 'bound': ([.75], {'bound': True}), 'dict': ('dict', {}), 'sphere': ((.5,), {}), 'call': ('call', {}),
          'scaled': (.25, {'scale': True})}


def likelihood(w, x=0., y=0.):
  return -.5 * (w - x - .5 * y) ** 2 - np.log(2. + x)


def set_one(obj, names, op, pb):
  if 'w' in obj.keylist and op[0] in ('tran', 'tfun', 'prop', 'delta'):
    # parameters are configured and the process refers to them
    set_one(obj.roots, names, op, pb)
    return getattr(obj, 'set_' + op[0])(None if op[1] is None else obj.roots)
  import scipy.stats
  n = len(names)
  what, arg = op
  if what == 'prob':
    if arg is None:
      return obj.set_prob(None)
    f, ps = PROBS[arg]
    if arg == 'sym':
      f = sum(((j + 1) * obj[k][:] for j, k in enumerate(names)), 1) / 8
    if arg == 'mvn':
      return obj.set_prob(scipy.stats.multivariate_normal, np.zeros(n), np.eye(n) + .25, pscale=ps)
    return obj.set_prob(f, pscale=ps)
  if what == 'tran':
    if arg in COV:
      return obj.set_tran(np.array(COV[arg])[:n, :n])
    if arg == 'mvn':
      return obj.set_tran(scipy.stats.multivariate_normal, np.full(n, .5), np.array(COV['covB'])[:n, :n])
    if arg == 'mvn1':
      return obj.set_tran(scipy.stats.multivariate_normal, np.full(n, .25), np.array(COV['covA'])[:n, :n], tsteps=1)
    return obj.set_tran({None: None, 'const': .5, 'fn': t1, 'pair': (t1, t2)}[arg])
  if what == 'tfun':
    if arg == 'cond1':
      return obj.set_tfun(cond, tsteps=1)
    return obj.set_tfun({None: None, 'L': np.array(LOW)[:n, :n], 'cond': cond}[arg])
  if what == 'prop':
    return obj.set_prop({None: None, 'fn': q1, 'const': .125}[arg])
  if what == 'delta':
    if arg is None:
      return obj.set_delta(None)
    d, kw = DELTAS[arg]
    if d == 'dict':
      d = {k: .125 * (j + 1) for j, k in enumerate(names)}
    elif d == 'call':
      D = obj.Delta
      d = lambda: D(**{k: -.0625 * (j + 1) for j, k in enumerate(names)})
    return obj.set_delta(d, **kw)
  if what == 'scores':
    for k in ('scores', 'thresh', 'update'):
      getattr(obj, 'set_' + k)(arg)
    return
  if what == 'refuse':
    return refuse(obj, arg, n)
  if what[:2] == 'x.':
    return set_var(obj['x'], what[2:], arg)
  raise ValueError(op)


def set_var(x, what, arg):
  import sympy
  if what == 'vset':
    x.vset = {'A': [0., 2.], 'B': [.5, 4.], 'C': [0., 1.]}[arg]
  elif what == 'prob':
    x.set_prob(*{None: (None,), 'fn': (lambda v: .25 + .125 * v,), 'sym': (x[:] / 4,), 'const': (.25,), 'log': (None,)}[arg],
               pscale='log' if arg == 'log' else 1.)
  elif what == 'ufun':
    x.set_ufun(None if arg is None else (lambda v: 2. * v + 1., lambda u: .5 * (u - 1.)))
  elif what == 'tran':
    x.set_tran({None: None, 'const': .75, 'fn': t2, 'pair': (t2, t1)}[arg])
  elif what == 'delta':
    if arg:
      x.set_delta([.125] if arg == 'list' else .5)
    else:
      x.set_delta()


def refuse(obj, arg, n):
  calls = {'tran-shape': lambda: obj.set_tran(np.eye(n + 1)),
           'tfun-shape': lambda: obj.set_tfun(np.eye(n + 1)),
           'tfun-full': lambda: obj.set_tfun(np.ones((n, n)) if n > 1 else np.ones((2, 2))),
           'prop': lambda: obj.set_prop(q1), 'tran': lambda: obj.set_tran(t1)}
  try:
    calls[arg]()
  except Exception:
    return
  raise Violation('{} was accepted'.format(arg))


DERIVED = ('covA', 'covB', 'mvn', 'mvn1')


def model(st, op):
  st = dict(st)
  what, arg = op
  if what == 'draw':
    st['turn'] = st['tran'] == 'mvn1' or st['tfun'] == 'cond1' or st['turn']
  if what in ('draw', 'refuse'):
    return st
  if what in ('tran', 'tfun'):
    st['turn'] = False
  st[what] = arg
  st['varied'] = st['varied'] or what[:2] == 'x.'
  st['logged'] = st['logged'] or op == ('x.prob', 'log')
  if what == 'tran' and arg in DERIVED:
    st['tfun'] = None
  if what == 'tran' and arg not in DERIVED and st['tfun'] == 'unset':
    st['tfun'] = None
  if what == 'tfun' and st['tran'] in DERIVED and arg is None:
    st['tfun'] = 'unset'
  return st


def make(names, kind, pb, settings=()):
  rvs = [pb.RV(k, vtype=float, vset=[0., 2. + j]) for j, k in enumerate(names)]
  if kind == 'parameters':
    sp = pb.SP(pb.RF(pb.RV('w', vtype=float, vset=[-10., 10.])), pb.RF(*rvs))
    sp.set_prob(likelihood, pscale='log')
    return sp
  for what, arg in settings:
    set_var(rvs[0], what[2:], arg)
  rf = pb.RF(*rvs)
  return rf if kind == 'field' else (pb.SD(rf) if kind == 'dependence' else pb.SP(rf))


def fresh(names, kind, st, pb):
  obj = make(names, kind, pb, [(k, v) for k, v in st.items() if k[:2] == 'x.' and v is not None])
  for what in ('prob', 'tran', 'tfun', 'prop', 'delta', 'scores'):
    v = st[what]
    if v is not None:
      set_one(obj, names, (what, None if v == 'unset' else v), pb)
  return obj


def show(v):
  """A comparable summary of whatever a query answers."""
  import probayes as pb
  if isinstance(v, pb.PD):
    tb = T.of_pd(v, 'result')
    return ('PD', tuple(tb.marg), tuple(tb.cond), tuple(sorted((tuple(sorted((k, float(w)) for k, w in dict(a).items())), float(p))
            for a, p in tb.assignments().items())))
  if isinstance(v, tuple) and hasattr(v, '_fields'):
    return tuple((k, show(w)) for k, w in zip(v._fields, v))
  if isinstance(v, dict):
    return tuple((k, show(w)) for k, w in v.items())
  if isinstance(v, (list, tuple)):
    return tuple(show(w) for w in v)
  if isinstance(v, np.ndarray):
    return tuple(float(w) for w in np.ravel(v))
  if isinstance(v, (bool, type(None), str)):
    return v
  return float(v)


def same(a, b):
  if isinstance(a, tuple) and isinstance(b, tuple):
    return len(a) == len(b) and all(same(c, d) for c, d in zip(a, b))
  if isinstance(a, float) and isinstance(b, float):
    return a != a and b != b or T.close(a, b, 1e-9, 1e-12)
  return a == b


def queries(names, kind, st):
  a = {k: .25 + .5 * j for j, k in enumerate(names)}
  b = {k: 1.25 - .25 * j for j, k in enumerate(names)}
  grids = {k: np.array([.25, 1.5]) for k in names}
  if kind == 'parameters':
    data = {'w': np.array([.5, -1., .25])}
    c = dict(data)
    c.update(a)
    kw = {'iid': True, 'joint': True}
    return [('p at a point', lambda o: o(dict(c))), ('proposal', lambda o: o.propose(dict(b))),
            ('step', lambda o: o.step(dict(a), dict(b))), ('reverse', lambda o: o.step(dict(a), dict(b), reverse=True)),
            ('default step', lambda o: o.step(dict(a))), ('sampled step', lambda o: o.step(dict(b), {0})),
            ('sample at', lambda o: o.sample(dict(a), dict(data))),
            ('resample', lambda o: o.sample(o.sample(dict(a), dict(data)), dict(data))),
            ('chain', lambda o: [s for s in o.sampler(dict(a), dict(data), stop=3, **kw)])]
  out = [('p at a point', lambda o: o(dict(a))), ('p on a grid', lambda o: o(dict(grids))),
         ('random draw', lambda o: o({0})),
         ('proposal', lambda o: o.propose(dict(b))),
         ('delta', lambda o: o.eval_delta()),
         ('displaced', lambda o: o.apply_delta(dict(b))),
         ('step', lambda o: o.step(dict(a), dict(b))),
         ('reverse', lambda o: o.step(dict(a), dict(b), reverse=True)),
         ('default step', lambda o: o.step(dict(a))),
         ('sampled step', lambda o: o.step(dict(b), {0})),
         ('sampled step again', lambda o: o.step(dict(b), {0}))]
  if kind != 'field':
    out.append(('sample', lambda o: o.sample({0})))
    out.append(('sample at', lambda o: o.sample(dict(a))))
    out.append(('resample', lambda o: o.sample(o.sample(dict(a)))))
  if kind == 'process':
    out.append(('chain', lambda o: [s for s in o.sampler(dict(a), stop=3)]))
  return out


def answer(f, obj):
  with Scripted((.3, .8, .55)):
    try:
      return show(f(obj))
    except Violation:
      raise
    except Exception:
      return 'refused'


def run(root, ctx):
  import probayes as pb
  kind, n, ops = root
  names = NAMES[:n]
  obj = make(names, kind, pb)
  st = dict(INIT)
  for i, op in enumerate(ops):
    if op[0] == 'draw':
      for _, f in queries(names, kind, st):
        answer(f, obj)
    else:
      set_one(obj, names, op, pb)
    st = model(st, op)
    ctx.step()
  ref = fresh(names, kind, st, pb)
  for label, f in queries(names, kind, st):
    if kind == 'parameters' and all(st[k] is None for k in ('tran', 'tfun', 'prop', 'delta')) and label not in CALLS:
      continue  # what the process referred to, it still steps with
    if st['turn'] and label in TURNS:
      continue  # whose turn it is depends on the steps already taken
    if st['varied'] and label not in CALLS and (
        st['tran'] is None or st['logged'] or n == 1 and label not in ('step', 'reverse')):
      continue  # the scale and the transition of the variables are those when composed
    got, want = answer(f, obj), answer(f, ref)
    check(same(got, want), '{} after {}: {} gives {} and not {}', kind, list(ops), label, got, want)
    ctx.state()
    ctx.outcome(repr(want))
  ctx.trace()
  ctx.sample(repr(root))


TURNS = ('default step', 'sampled step', 'sampled step again', 'sample', 'sample at', 'resample')
CALLS = ('p at a point', 'p on a grid', 'random draw', 'proposal', 'delta', 'displaced')
INIT = {'prob': None, 'tran': None, 'tfun': None, 'prop': None, 'delta': None, 'scores': None, 'turn': False, 'varied': False, 'logged': False,
        'x.vset': None, 'x.ufun': None, 'x.prob': None, 'x.tran': None, 'x.delta': None}
OPS = [('prob', k) for k in PROBS] + \
    [('tran', k) for k in (None, 'const', 'fn', 'pair', 'covA', 'covB', 'mvn', 'mvn1')] + \
    [('tfun', k) for k in (None, 'L', 'cond', 'cond1')] + [('prop', k) for k in (None, 'fn', 'const')] + \
    [('delta', k) for k in (None,) + tuple(DELTAS)] + [('scores', k) for k in (None, 'metropolis', 'hastings', 'gibbs')] + [('draw', None)] + \
    [('refuse', k) for k in ('tran-shape', 'tfun-shape', 'tfun-full', 'prop', 'tran')]


VARS = [('x.vset', k) for k in 'ABC'] + [('x.prob', k) for k in (None, 'fn', 'sym', 'const', 'log')] + \
    [('x.ufun', k) for k in (None, 'affine')]
SOME = [('draw', None), ('prob', None), ('prob', 'log'), ('tran', 'fn'), ('delta', 'scaled'), ('delta', 'sphere'), ('delta', 'list')]


def enabled(n, kind, st, op, ops):
  what, arg = op
  if ops and ops[-1] == op:
    return False
  if what == 'tran':
    if arg in ('mvn', 'mvn1') and n == 1:
      return False
    return arg is None or st['prop'] is None
  if what == 'prop':
    return arg is None or st['tran'] is None
  if what == 'tfun' and arg in ('cond', 'cond1') and n == 1:
    return False
  if what == 'refuse':
    return arg == 'prop' and st['tran'] is not None or arg == 'tran' and st['prop'] is not None or \
        arg == 'tran-shape' and st['prop'] is None or arg in ('tfun-shape', 'tfun-full')
  if what == 'draw':
    return bool(ops)
  if what == 'delta' and arg is None and n == 1:
    return False  # deltas of fields default those of their variables
  if what in ('x.vset', 'x.ufun') and st['delta'] in ('scaled', 'sphere'):
    return False  # deltas are scaled when set
  if what == 'scores':
    return kind in ('process', 'parameters')
  return True


BASES = [[('tran', 'pair'), ('delta', 'list'), ('scores', 'hastings')], [('tran', 'fn'), ('delta', 'bound'), ('scores', 'metropolis')],
         [('prop', 'fn'), ('delta', 'sphere'), ('scores', 'metropolis')], [('tran', 'covA'), ('delta', 'dict'), ('scores', 'metropolis')],
         [('tran', 'mvn1'), ('scores', 'gibbs'), ('prob', 'log')], [('tfun', 'cond1'), ('scores', 'gibbs'), ('prob', 'fn')]]


def sequences(kind, n, depth, alphabet, base=()):
  out = []

  def grow(st, ops):
    if ops:
      out.append((kind, n, tuple(ops)))
    if len(ops) == len(base) + depth:
      return
    for op in alphabet:
      if enabled(n, kind, st, op, ops):
        grow(model(st, op), ops + [op])
  st = dict(INIT)
  for op in base:
    st = model(st, op)
  grow(st, list(base))
  return out


PARA = [o for o in OPS if o[0] not in ('prob', 'refuse')]
FEW = [('prob', None), ('prob', 'log'), ('prob', 'sym'), ('tran', None), ('tran', 'pair'), ('tran', 'covA'), ('tran', 'mvn1'),
       ('tfun', None), ('tfun', 'L'), ('prop', None), ('prop', 'fn'), ('delta', 'list'), ('delta', 'sphere'),
       ('scores', None), ('scores', 'hastings'), ('draw', None), ('refuse', 'tran-shape'), ('refuse', 'tfun-full')]


def spaces(tier):
  full = tier != 'quick'
  holders = [(kind, n) for kind in ('field', 'dependence', 'process') for n in (1, 2)]
  deep = 4 if full else 3
  roots = [r for h in holders for r in sequences(*h, 3 if full else 2, OPS)]
  few = [r for h in (holders if full else [('field', 2), ('process', 1)]) for r in sequences(*h, deep, FEW) if len(r[2]) == deep]
  proc = [r for kind in ('process', 'parameters') for n in (1, 2) for b in BASES if n == 2 or b[0][1] not in ('mvn1', 'cond1')
          for r in sequences(kind, n, 3 if full else 2, OPS if kind == 'process' else PARA, [o for o in b if kind == 'process' or o[0] != 'prob'])
          if full or n == 2 or len(r[2]) < 5]
  para = [r for n in (1, 2) for r in sequences('parameters', n, 3 if full else 2, PARA)]
  vroots = [r for h in holders for r in sequences(*h, 3 if full or h == ('process', 2) else 2, VARS + SOME)]
  return [Space('parameters', para, run, 'all sequences of settings of parameters referred to by a process up to length {}'.format(3 if full else 2)),
          Space('processes', proc, run, 'all sequences of every setting up to length {} of configured processes'.format(3 if full else 2)),
          Space('variables', vroots, run, 'all sequences of settings of a variable and of the whole up to length {}'.format(3)),
          Space('fields', roots, run, 'all sequences of every setting up to length {}'.format(3 if full else 2)),
          Space('histories', few, run, 'all sequences of {} settings of length {}'.format(len(FEW), deep))]
