"""Random fields and stochastic dependences: joint and conditional distributions."""
import itertools
import math

import numpy as np

from mc.core import Space, check
from mc import table as T
from mc.rng import Scripted
from mc.c_rv import on_scale, kw, SCALES

PROPERTY = 'P14'
ASSUMPTIONS = ['conditional probabilities of dependences are always specified',
               'probabilities specified as arrays cover the whole sets asked for']


def gauss(z, m=0., s=1.):
  return math.exp(-.5 * ((z - m) / s) ** 2) / (s * math.sqrt(2 * math.pi))


MANY = [9, -4, 30, 2, 0, 17, -12, 6, 1, 25, 3, -20]
KARR = [.2, .5, .3]


def make_rv(kind, name, scale):
  """(variable, probability of a value, its two or three sample values)."""
  import probayes as pb
  import scipy.stats
  k = kw(scale)
  if kind == 'bool':
    return pb.RV(name, vtype=bool, prob=on_scale(.3, scale), **k), lambda v: .3 if v else .7, [False, True]
  if kind == 'even':
    return pb.RV(name, vtype=bool, **k), lambda v: .5, [False, True]
  if kind == 'ints':
    rv = pb.RV(name, vtype=int, vset=[1, 4, 6], prob=np.array([on_scale(p, scale) for p in KARR]), **k)
    d = dict(zip([1, 4, 6], KARR))
    return rv, lambda v: d.get(v, 0.), [1, 4, 6]
  if kind == 'many':
    d = {v: (i + 1.) / 78. for i, v in enumerate(MANY)}
    rv = pb.RV(name, vtype=int, vset=list(MANY), prob=np.array([on_scale(p, scale) for p in d.values()]), **k)
    return rv, lambda v: d.get(v, 0.), list(MANY)
  if kind == 'flat':
    return pb.RV(name, vtype=float, vset=[0., 4.], **k), lambda v: .25 if 0. <= v <= 4. else 0., [.5, 3.]
  if kind == 'logu':
    rv = pb.RV(name, vtype=float, vset=[1., 4.], **k)
    rv.set_ufun((np.log, np.exp))
    return rv, lambda v: 1. / math.log(4.), [1.5, 3.]
  if kind == 'norm':
    rv = pb.RV(name, vtype=float, vset=[-2., 2.], prob=scipy.stats.norm, loc=.5, scale=2., **k)
    return rv, lambda v: gauss(v, .5, 2.), [-1., .25]
  raise ValueError(kind)


def specs(kind, vals, full):
  """What can be asked of a variable: (label, argument, values or scalar)."""
  out = [('s', vals[-1], vals[-1]), ('a2', np.array(vals[::-1]), list(vals[::-1])), ('a1', np.array(vals[:1]), vals[:1])]
  if kind in ('bool', 'even', 'ints', 'many'):
    out.append(('None', None, list(vals)))
  else:
    out.append(('{2}', {2}, 'grid'))
  if full:
    out.append(('{0}', {0}, 'rand'))
  return out


def expect(pd, marg, cond, parts, f, what, ctx, rtol=1e-8, axes=True):
  """parts: list of (keys, rows) axes or (key, value) scalars, in axis order."""
  tb = T.of_pd(pd, what)
  groups = [p for p in parts if isinstance(p[0], tuple)]
  scal = {p[0]: p[1] for p in parts if not isinstance(p[0], tuple)}
  want = {}
  for idx in itertools.product(*[range(len(g[1])) for g in groups]):
    asg = {k: v for k, v in scal.items()}
    for (keys, rows), i in zip(groups, idx):
      asg.update(zip(keys, rows[i]))
    want[idx] = f(asg)
    ctx.state()
  T.compare(tb, T.Table(marg, cond, scal, groups, want), what, rtol=rtol)
  if axes:
    for d, (keys, rows) in enumerate(groups):
      check(all(pd.dims[k] == d for k in keys), '{}: axes {}', what, pd.dims)
  ctx.step()
  ctx.outcome((what, len(want), round(sum(want.values()), 9)))


def resolve(rv, pd, name, want):
  """Values that were left to the library to choose."""
  if isinstance(want, str):
    got = pd[name]
    if want == 'grid':
      return [float(v) for v in np.ravel(rv.evaluate({2})[name])]
    return T.py(got)
  return want


def run_joint(root, ctx):
  """Independent fields: the joint is the product."""
  import probayes as pb
  kinds, scales, how, full = root
  names = ['x', 'y', 'z', 'w'][:len(kinds)]
  made = [make_rv(k, n, s) for k, n, s in zip(kinds, names, scales)]
  rvs = [m[0] for m in made]
  pm = {n: m[1] for n, m in zip(names, made)}
  if how == 'and':
    rf = rvs[0]
    for rv in rvs[1:]:
      rf = rf & rv
  elif how == 'list':
    rf = pb.RF(list(rvs))
  else:
    rf = pb.RF(*rvs)
  if not isinstance(rf, pb.RF):
    rf = pb.RF(rf)
  f = lambda a: float(np.prod([pm[n](a[n]) for n in names]))
  what0 = 'field {} on {}'.format(kinds, scales)
  check([v.name for v in rf.varlist] == names, '{}: variables {}', what0, rf.keylist)
  floats = any(k in ('flat', 'logu', 'norm') for k in kinds)
  for combo in itertools.product(*[specs(k, m[2], full) for k, m in zip(kinds, made)]):
    what = '{} at {}'.format(what0, [c[0] for c in combo])
    for style in ('names', 'variables', 'keywords'):
      if style == 'keywords':
        args, kwds = (), dict(zip(names, [c[1] for c in combo]))
      elif style == 'names':
        args, kwds = (dict(zip(names, [c[1] for c in combo])),), {}
      else:
        if not full and combo[0][0] != 'a2':
          continue
        args, kwds = ({rv: c[1] for rv, c in zip(rvs[::-1], combo[::-1])},), {}
      before = {k: (np.array(v) if isinstance(v, np.ndarray) else v) for a in args for k, v in a.items()}
      with Scripted([.3, .7, .15]):
        d = rf(*args, **kwds)
      for a in args:
        check(list(a) == list(before) and all(np.array_equal(v, before[k]) if isinstance(v, np.ndarray) else v == before[k]
                                              for k, v in a.items()), '{}: the values given were modified', what)
      parts = []
      for n, rv, c in zip(names, rvs, combo):
        w = resolve(rv, d, n, c[2])
        parts.append(((n,), [(v,) for v in w]) if isinstance(w, list) else (n, w))
      expect(d, names, [], parts, f, what + ' ' + style, ctx)
  # whole sets, by default and on request
  if not floats:
    parts = [((n,), [(v,) for v in m[2]]) for n, m in zip(names, made)]
    expect(rf(), names, [], parts, f, what0 + '()', ctx)
    expect(rf({names[0]: made[0][2][0]}), names, [], [(names[0], made[0][2][0])] + parts[1:], f, what0 + ' partly', ctx)
    tot = sum(T.to_linear(p, rf().pscale) for p in np.ravel(rf().prob))
    check(T.close(tot, 1., 1e-9), '{} sums to {}', what0, tot)
  else:
    for n in (1, 3):
      d = rf({n}) if all(k in ('flat', 'logu', 'norm') for k in kinds) else None
      if d is not None:
        parts = [((k,), [(float(v),) for v in np.ravel(rv.evaluate({n})[k])]) for k, rv in zip(names, rvs)]
        expect(d, names, [], parts, f, '{}({{{}}})'.format(what0, n), ctx)
    for us in ((.2, .8, .5), (.9, .1, .4)):
      with Scripted(us):
        d = rf()
      parts = [(n, T.py(d[n])) for n in names]
      expect(d, names, [], parts, f, '{}() by draws {}'.format(what0, us), ctx)
  # values that vary together
  if len(kinds) > 1:
    for keys in itertools.permutations(range(len(kinds)), 2):
      rest = [i for i in range(len(kinds)) if i not in keys]
      cols = [(made[i][2] * 2)[:3] for i in keys]
      arrs = [np.array(c) for c in cols]
      names2 = [names[i] for i in keys]
      for other in (['s', 'a2'] if rest else ['-']):
        for key in (','.join(names2), tuple(rvs[i] for i in keys)):
          q = {key: arrs}
          parts = {keys[0]: (tuple(names2), list(zip(*cols)))}
          first = min(keys)
          parts = {first: parts[keys[0]]}
          for r in rest:
            v = made[r][2]
            q[names[r]] = v[-1] if other == 's' else np.array(v)
            parts[r] = (names[r], v[-1]) if other == 's' else ((names[r],), [(e,) for e in v])
          d = rf(q)
          expect(d, names, [], [parts[i] for i in sorted(parts)], f, '{} at {} together, rest {}'.format(what0, names2, other), ctx)
  # unknown variables are refused
  try:
    rf({'q': 1})
  except Exception:
    pass
  else:
    check(False, '{}: unknown variable accepted', what0)
  ctx.trace()
  ctx.sample(what0)


def surface(a, names):
  """A positive function of all the values, different for every assignment."""
  s = 0.
  for i, n in enumerate(names):
    s = s + (i + 2) * np.sin(1. + i + 1.7 * np.asarray(a[n], dtype=float))
  return .05 + .01 * s * s


def scaled(p, scale):
  s = SCALES[scale]
  if s is None:
    return p
  if s == 'log' or isinstance(s, complex):
    off = 0. if s == 'log' else (s.real if s.imag == 0 else -s.real)
    return np.log(p) - off
  return p / s


def run_specified(root, ctx):
  """Fields whose joint probability is specified."""
  import probayes as pb
  import scipy.stats
  import sympy
  kinds, form, scale = root[:3]
  names = list(root[3] if len(root) > 3 else 'xyz')[:len(kinds)]
  made = [make_rv(k, n, 'one') for k, n in zip(kinds, names)]
  rvs = [m[0] for m in made]
  rf = pb.RF(*rvs)
  f = lambda a: float(surface(a, names))
  k = k_ = {'pscale': SCALES[scale] or 1.}
  if form == 'keywords':
    rf.set_prob(lambda **v: scaled(surface(v, names), scale), **k)
  elif form == 'named':
    src = 'lambda {0}: scaled(surface(dict({1}), names), scale)'.format(
        ', '.join(names[::-1]), ', '.join('{0}={0}'.format(n) for n in names))
    rf.set_prob(eval(src, {'scaled': scaled, 'surface': surface, 'names': names, 'scale': scale}), **k)
  elif form == 'order':
    def fun(c, a, b=None):
      vals = [a, b, c] if len(names) == 3 else [a, c] if len(names) == 2 else [c]
      return scaled(surface(dict(zip(names, vals)), names), scale)
    order = dict(zip(names, {3: (1, 'b', 0), 2: (1, 0), 1: (0,)}[len(names)]))
    if len(names) < 3:
      g = fun
      fun = (lambda c, a: g(c, a)) if len(names) == 2 else (lambda c: g(c, None))
    rf.set_prob(fun, order=order, **k)
  elif form == 'extra':
    rf.set_prob(lambda scl=1., **v: scaled(scl * surface(v, names), scale), scl=2., **k)
    f = lambda a: 2. * float(surface(a, names))
  elif form == 'mvn':
    nn = len(names)
    mean = np.array([.5, -.75, 1.25])[:nn]
    cov = np.array([[1.5, -.6, .3], [-.6, 2.5, .4], [.3, .4, .8]])[:nn, :nn]
    rf.set_prob(scipy.stats.multivariate_normal, mean, cov, **k)
    inv, det = np.linalg.inv(cov), np.linalg.det(cov)

    def f(a):
      d = np.array([a[q] for q in names]) - mean
      return float(math.exp(-.5 * d @ inv @ d) / math.sqrt((2 * math.pi) ** nn * det))
  elif form == 'symbolic':
    e = sum(((i + 1) * rv[:] ** 2 for i, rv in enumerate(rvs)), sympy.Float(.5)) / 64
    f = lambda a: (sum((i + 1) * a[q] ** 2 for i, q in enumerate(names)) + .5) / 64
    s = SCALES[scale]
    if s == 'log' or isinstance(s, complex):
      off = 0. if s == 'log' else (s.real if s.imag == 0 else -s.real)
      e = sympy.log(e) - off
    elif s is not None:
      e = e / s
    rf.set_prob(e, **k)
  what0 = 'field {} specified by {} on {}'.format(kinds, form, scale)
  for combo in itertools.product(*[specs(kd, m[2], False) for kd, m in zip(kinds, made)]):
    what = '{} at {}'.format(what0, [c[0] for c in combo])
    for turn in (1, -1):
      d = rf(dict(zip(names[::turn], [c[1] for c in combo[::turn]])))
      parts = []
      for n, rv, c in zip(names, rvs, combo):
        w = resolve(rv, d, n, c[2])
        parts.append(((n,), [(v,) for v in w]) if isinstance(w, list) else (n, w))
      expect(d, names, [], parts, f, what + (' in reverse order' if turn < 0 else ''), ctx)
  if len(names) > 1:
    cols = [(m[2] * 2)[:3] for m in made[:2]]
    q = {','.join(names[:2]): [np.array(c) for c in cols]}
    parts = [(tuple(names[:2]), list(zip(*cols)))]
    if len(names) > 2:
      q[names[2]] = np.array(made[2][2])
      parts.append(((names[2],), [(v,) for v in made[2][2]]))
    expect(rf(q), names, [], parts, f, what0 + ' with two together', ctx)
  # repetitions of any one variable, multiplied by the field or by the function itself
  if form == 'keywords' and len(names) > 1:
    own = pb.RF(*rvs)
    q = {n: np.array(m[2]) for n, m in zip(names, made)}
    for j, n in enumerate(names):
      def itself(**v):
        out = scaled(surface(v, names), scale)
        return np.sum(out, axis=j) if scale == 'log' else np.prod(out, axis=j)

      def fi(a):
        return float(np.prod([f({**a, n: v}) for v in made[j][2]]))
      parts = [(k, ('set', len(m[2]))) if k == n else ((k,), [(v,) for v in m[2]]) for k, m in zip(names, made)]
      expect(rf(dict(q), iid=[n]), names, [], parts, fi, '{} with repeated {}'.format(what0, n), ctx, axes=False)
      if SCALES[scale] in (None, 1., 'log'):
        own.set_prob(itself, **k_)
        expect(own(dict(q), iid=[n]), names, [], parts, fi, '{} with repeated {} by the function'.format(what0, n), ctx, axes=False)
  ctx.trace()
  ctx.sample(what0)


def run_requested(root, ctx):
  """Products of the variables' probabilities on a scale that was asked for."""
  import probayes as pb
  kinds, scales, asked, how = root
  names = ['x', 'y'][:len(kinds)]
  made = [make_rv(k, n, s) for k, n, s in zip(kinds, names, scales)]
  rvs = [m[0] for m in made]
  rf = pb.RF(*rvs) if how == 'field' else (pb.SD(pb.RF(*rvs)) if how == 'dependence' else pb.SP(pb.RF(*rvs)))
  what0 = '{} of {} on {} asked for on {}'.format(how, kinds, scales, asked)
  f = lambda a: float(np.prod([m[1](a[n]) for n, m in zip(names, made)]))
  asks = (asked,) if not isinstance(asked, tuple) else asked
  for ask in asks:
    rf.set_prob(pscale=SCALES[ask] or 1.)
  for combo in itertools.product(*[specs(k, m[2], False) for k, m in zip(kinds, made)]):
    what = '{} at {}'.format(what0, [c[0] for c in combo])
    d = rf(dict(zip(names, [c[1] for c in combo])))
    parts = []
    for n, rv, c in zip(names, rvs, combo):
      w = resolve(rv, d, n, c[2])
      parts.append(((n,), [(v,) for v in w]) if isinstance(w, list) else (n, w))
    expect(d, names, [], parts, f, what, ctx)
    s = SCALES[asks[-1]]
    check(np.iscomplexobj(np.array(d.pscale)) == (s == 'log' or isinstance(s, complex)),
          '{}: on scale {}', what, d.pscale)
  ctx.trace()
  ctx.sample(what0)


SHAPES = [(1, 1), (2, 1), (1, 2), (2, 2)]


def run_dependence(root, ctx):
  """p(leafs | roots), the joint with the roots, and independent repetitions."""
  import probayes as pb
  shape, lkind, rkinds, form, scale, how = root
  nl, nr = shape
  leafs, roots = ['x', 'y'][:nl], ['m', 's'][:nr]
  names = leafs + roots
  lm = [make_rv(lkind, n, 'one') for n in leafs]
  rm = [make_rv(k, n, sc) for (k, sc), n in zip(rkinds, roots)]
  lf = pb.RF(*[m[0] for m in lm])
  rf = pb.RF(*[m[0] for m in rm])
  if how == 'bar':
    sd = (lm[0][0] if nl == 1 else lf) | (rm[0][0] if nr == 1 else rf)
  elif how == 'process':
    sd = pb.SP(lf, rf)
  else:
    sd = pb.SD(lf, rf)
  k = {'pscale': SCALES[scale] or 1.}
  if form == 'keywords':
    sd.set_prob(lambda **v: scaled(surface(v, names), scale), **k)
  elif form == 'order':
    def fun(*args):
      return scaled(surface(dict(zip(names[::-1], args)), names), scale)
    src = 'lambda {0}: fun({0})'.format(', '.join('abcd'[:len(names)]))
    sd.set_prob(eval(src, {'fun': fun}), order={n: i for i, n in enumerate(names[::-1])}, **k)
  # the same, with a function that multiplies the repetitions itself
  own = pb.SD(lf, rf)

  def itself(**v):
    out = scaled(surface(v, names), scale)
    if not np.ndim(v['x']):
      return out
    return np.sum(out, axis=0) if scale == 'log' else np.prod(out, axis=0)
  if SCALES[scale] in (None, 1., 'log'):
    own.set_prob(itself, **k)
  else:
    own = None
  f = lambda a: float(surface(a, names))
  pr = lambda a: float(np.prod([m[1](a[n]) for n, m in zip(roots, rm)]))
  what0 = 'dependence {} of {} on {} by {} scale {} {}'.format(shape, lkind, rkinds, form, scale, how)
  ra = [[('s', m[2][-1], m[2][-1]), ('a', np.array(m[2]), list(m[2]))] for m in rm]
  la = [[('s', m[2][0], m[2][0]), ('a', np.array((m[2] * 2)[:3]), (m[2] * 2)[:3])] for m in lm]
  for combo in itertools.product(*(la + ra)):
    what = '{} at {}'.format(what0, [c[0] for c in combo])
    q = dict(zip(names, [c[1] for c in combo]))
    parts = [((n,), [(v,) for v in c[2]]) if isinstance(c[2], list) else (n, c[2]) for n, c in zip(names, combo)]
    expect(sd(dict(q)), leafs, roots, parts, f, what, ctx)
    expect(sd(dict(q), joint=True), names, [], parts, lambda a: f(a) * pr(a), what + ' joint', ctx, axes=False)
    # repetitions lie along the axes of the leafs
    if all(c[0] == 'a' for c in combo[:nl]):
      if nl == 1:
        iq, lrows = q, [(v,) for v in combo[0][2]]
      else:
        iq = {'x,y': [q['x'], q['y']], **{n: q[n] for n in roots}}
        lrows = list(zip(combo[0][2], combo[1][2]))
      iparts = [(n, ('set', len(lrows))) for n in leafs] + parts[nl:]

      def fi(a, rows=lrows):
        b = dict(a)
        out = 1.
        for row in rows:
          b.update(zip(leafs, row))
          out *= f(b)
        return out
      for flag in (True, leafs):
        expect(sd(dict(iq), iid=flag), leafs, roots, iparts, fi, what + ' iid', ctx, axes=False)
      expect(sd(dict(iq), iid=True, joint=True), names, [], iparts, lambda a: fi(a) * pr(a), what + ' iid joint', ctx, axes=False)
      if own is not None:
        expect(own(dict(iq), iid=True), leafs, roots, iparts, fi, what + ' iid by the function', ctx, axes=False)
        expect(own(dict(iq), iid=True, joint=True), names, [], iparts, lambda a: fi(a) * pr(a), what + ' iid joint by the function', ctx, axes=False)
  ctx.trace()
  ctx.sample(what0)


FAMILIES = {  # symbolic distribution given parameters, the same by scipy, values, parameter limits and values
    'normal': (lambda y, x, a, b: y.Normal(x, a, b), lambda ss, a, b: ss.norm(a, b), [-1.5, .25, 2.],
               [('m', (-2., 2.), [-1., .5]), ('s', (.5, 3.), [.75, 2.])]),
    'laplace': (lambda y, x, a, b: y.Laplace(x, a, b), lambda ss, a, b: ss.laplace(a, b), [-1.5, .25, 2.],
                [('m', (-2., 2.), [-1., .5]), ('s', (.5, 3.), [.75, 2.])]),
    'gamma': (lambda y, x, a, b: y.Gamma(x, a, b), lambda ss, a, b: ss.gamma(a, scale=b), [.5, 1.25, 3.],
              [('k', (1., 4.), [1.5, 3.]), ('s', (.5, 3.), [.75, 2.])]),
    'beta': (lambda y, x, a, b: y.Beta(x, a, b), lambda ss, a, b: ss.beta(a, b), [.125, .5, .75],
             [('a', (1., 4.), [1.5, 3.]), ('b', (1., 4.), [1.25, 2.])]),
    'exponential': (lambda y, x, a: y.Exponential(x, a), lambda ss, a: ss.expon(scale=1. / a), [.5, 1.25, 3.],
                    [('r', (.25, 4.), [.5, 2.])]),
    'rayleigh': (lambda y, x, a: y.Rayleigh(x, a), lambda ss, a: ss.rayleigh(scale=a), [.5, 1.25, 3.],
                 [('r', (.25, 4.), [.5, 2.])]),
    'poisson': (lambda y, x, a: y.Poisson(x, a), lambda ss, a: ss.poisson(a), [0, 1, 4], [('r', (.25, 4.), [.5, 2.])]),
    'geometric': (lambda y, x, a: y.Geometric(x, a), lambda ss, a: ss.geom(a), [1, 2, 4], [('p', (.1, .9), [.25, .75])]),
}


NUMERIC = {  # those that SciPy parameterises the same
    'normal': ('norm', {'x': 0, 'm': 'loc', 's': 'scale'}), 'laplace': ('laplace', {'x': 0, 'm': 1, 's': 'scale'}),
    'gamma': ('gamma', {'x': 0, 'k': 'a', 's': 'scale'}), 'beta': ('beta', {'x': 0, 'a': 1, 'b': 2}),
    'poisson': ('poisson', {'x': 0, 'r': 'mu'}), 'geometric': ('geom', {'x': 0, 'p': 1}),
}


def run_families(root, ctx):
  """Distributions whose parameters are variables."""
  import probayes as pb
  import scipy.stats
  import sympy.stats
  name, scale, how, source = root
  make, ref, xs, paras = FAMILIES[name]
  disc = isinstance(xs[0], int)
  x = pb.RV('x', vtype=int, vset=list(range(xs[0], 7))) if disc else pb.RV('x', vtype=float, vset=(-np.inf, np.inf))
  ps = [pb.RV(n, vtype=float, vset=lims) for n, lims, _ in paras]
  pn = [p[0] for p in paras]
  prior = float(np.prod([1. / (p[1][1] - p[1][0]) for p in paras]))
  rf = pb.RF(*ps)
  if how == 'bar':
    sd = x | (ps[0] if len(ps) == 1 else ps[0] & ps[1])
  elif how == 'field':
    sd = pb.RF(x, *ps)
  else:
    sd = (pb.SP if how == 'process' else pb.SD)(pb.RF(x), rf)
  if source == 'symbolic':
    sd.set_prob(make(sympy.stats, x[:], *[p[:] for p in ps]), pscale=SCALES[scale] or 1.)
  else:
    member, order = NUMERIC[name]
    dist = getattr(scipy.stats, member)
    kind = ('logp' if scale == 'log' else 'p') + ('mf' if disc else 'df')
    sd.set_prob(dist if source == 'object' else getattr(dist, kind), order=order, pscale=SCALES[scale] or 1.)

  def f(a):
    d = ref(scipy.stats, *[a[n] for n in pn])
    return float((d.pmf if disc else d.pdf)(a['x']))
  leafs, roots = (['x'], pn) if how != 'field' else (['x'] + pn, [])
  xa = [('s', xs[0], xs[0]), ('a', np.array(xs), list(xs)), ('r', np.array(xs[::-1]), xs[::-1])]
  pa = [[('s', vals[0], vals[0]), ('a', np.array(vals), list(vals)), ('{2}', {2}, [float(v) for v in np.ravel(rv.evaluate({2})[n])])]
        for rv, (n, _, vals) in zip(ps, paras)]
  for combo in itertools.product(xa, *pa):
    what = '{} {} {} on {} at {}'.format(how, source, name, scale, [c[0] for c in combo])
    names = ['x'] + pn
    for turn in (1, -1):
      q = dict(list(zip(names, [c[1] for c in combo]))[::turn])
      parts = [((n,), [(v,) for v in c[2]]) if isinstance(c[2], list) else (n, c[2]) for n, c in zip(names, combo)]
      expect(sd(dict(q)), leafs, roots, parts, f, what, ctx)
    if how == 'field':
      continue
    expect(sd(dict(q), joint=True), names, [], parts, lambda a: f(a) * prior, what + ' joint', ctx, axes=False)
    if combo[0][0] == 's':
      continue
    rows = combo[0][2]
    fi = lambda a: float(np.prod([f(dict(a, x=v)) for v in rows]))
    iparts = [('x', ('set', len(rows)))] + parts[1:]
    expect(sd(dict(q), iid=True), leafs, roots, iparts, fi, what + ' iid', ctx, axes=False)
    expect(sd(dict(q), iid=True, joint=True), names, [], iparts, lambda a: fi(a) * prior, what + ' iid joint', ctx, axes=False)
  if len(paras) > 1:
    cols = [p[2] for p in paras]
    q = {','.join(pn): [np.array(c) for c in cols], 'x': np.array(xs)}
    expect(sd(q), leafs, roots, [(('x',), [(v,) for v in xs]), (tuple(pn), list(zip(*cols)))], f,
           '{} {} on {} together'.format(how, name, scale), ctx, axes=False)
  ctx.trace()
  ctx.sample(name)


def run_naive(root, ctx):
  """Parallel dependences: p(z|x) p(z|y)."""
  import probayes as pb
  n, order, scales, late = root
  z = pb.RV('z', vtype=bool)
  roots = [pb.RV('abc'[i], vtype=int, vset=[0, 1, 2][:2 + i % 2]) for i in range(n)]
  sds, fs = [], []
  for i, r in enumerate(roots):
    sd = z | r
    fn = lambda v, i=i, r=r: surface({'z': v['z'], r.name: v[r.name] + i}, ['z', r.name])
    sds.append(sd)
    fs.append(fn)
  def set_probs(scales):
    for sd_, fn, s in zip(sds, fs, scales):
      sd_.set_prob(lambda fn=fn, s=s, **v: scaled(fn(v), s), pscale=SCALES[s] or 1.)
  set_probs(scales if late != 'after' else scales[::-1])
  sd = pb.SD(*[sds[i] for i in order])
  if late == 'after':
    set_probs(scales)
  elif late:
    sd.set_prob(pscale=late)
  f = lambda a: float(np.prod([fn(a) for fn in fs]))
  what0 = 'parallel dependence on {} in order {} with scales {}{}'.format(n, order, scales, ' {}'.format(late))
  names = [roots[i].name for i in order]
  sets = {'z': [False, True], **{r.name: list(r.vset) for r in roots}}
  for combo in itertools.product(*[['all', 's'] for _ in range(n + 1)]):
    q, parts = {}, []
    for k, c in zip(['z'] + names, combo):
      if c == 's':
        q[k] = sets[k][-1]
        parts.append((k, sets[k][-1]))
      else:
        parts.append(((k,), [(v,) for v in sets[k]]))
    d = sd(q)
    expect(d, ['z'], names, parts, f, '{} at {}'.format(what0, combo), ctx, axes=False)
  ctx.trace()
  ctx.sample(what0)


def spaces(tier):
  full = tier != 'quick'
  kinds = ['bool', 'ints', 'flat', 'norm', 'logu', 'even']
  js = [((k,), (s,), 'call', True) for k in kinds for s in SCALES]
  sc2 = [('one', 'one'), ('log', 'log'), ('one', 'log'), ('log', 'one'), ('half', 'four'), ('offs', 'noffs')]
  js += [(ks, s, h, full) for ks in itertools.product(kinds[:5] if full else kinds[:4], repeat=2) for s in sc2
         for h in (('call', 'and', 'list') if full else ('call' if s[0] == 'one' else 'and',))]
  k3 = list(itertools.product(['bool', 'ints', 'norm'], repeat=3)) if full else \
      [('bool', 'ints', 'even'), ('ints', 'flat', 'bool'), ('norm', 'bool', 'flat'), ('flat', 'flat', 'norm')]
  js += [(ks, s, h, False) for ks in k3 for s in (('one', 'one', 'one'), ('log', 'one', 'four'), ('offs', 'log', 'noffs'))
         for h in ('call', 'and')]
  js += [(ks, s, h, False) for ks in (('many',), ('many', 'ints'), ('bool', 'many'), ('many', 'flat', 'many'), ('bool', 'ints', 'flat', 'even'),
                                      ('even', 'many', 'bool', 'ints')) for s in (('one',) * 4, ('log', 'half', 'one', 'offs'))
         for s in [s[:len(ks)]] for h in ('call', 'and')]
  js = [j for j in js if all(k != 'norm' or s in ('one', 'log') for k, s in zip(j[0], j[1]))]
  sk = [('flat', 'norm'), ('ints', 'flat'), ('bool', 'ints'), ('norm', 'flat', 'flat'), ('ints', 'bool', 'norm')]
  ss = [(ks, f, s) for ks in sk for f in ('keywords', 'named', 'order', 'extra', 'mvn', 'symbolic') for s in SCALES
        if not (f == 'mvn' and not all(k in ('flat', 'norm') for k in ks)) and not (f == 'mvn' and s not in ('one', 'log'))
        and not (f == 'symbolic' and 'bool' in ks)]
  ss += [((k,), f, s) for k in ('flat', 'norm', 'ints') for f in ('keywords', 'named', 'order', 'extra', 'mvn', 'symbolic')
         for s in SCALES if f != 'mvn' or (k != 'ints' and s in ('one', 'log'))]
  ss += [s + (ns,) for s in ss if len(s[0]) > 1 and (full or s[2] in ('one', 'log')) for ns in ('qbm',)]
  ds = [(sh, lk, tuple(rk[:sh[1]]), f, s, h) for sh in SHAPES for lk in ('norm', 'ints')
        for rk in ([('flat', 'one'), ('logu', 'one')], [('flat', 'log'), ('ints', 'log')], [('ints', 'one'), ('flat', 'log')])
        for f in ('keywords', 'order') for s in (['one', 'log', 'four', 'noffs'] if not full else list(SCALES))
        for h in (('bar', 'call', 'process') if full or s == 'log' else ('call',))]
  ns = [(n, o, sc, late) for n in (2, 3) for o in itertools.permutations(range(n))
        for sc in (itertools.product(SCALES, repeat=n) if full or n == 2 else
                   [('one',) * 3, ('log',) * 3, ('one', 'log', 'half'), ('offs', 'four', 'noffs')])
        for late in ('', 'after', 'log', 1., 2.)]
  rs = [(ks, sc, a, h) for ks in [(k,) for k in kinds] + list(itertools.product(kinds[:4] if not full else kinds, repeat=2))
        for sc in (itertools.product(SCALES, repeat=len(ks)) if full or len(ks) == 1 else [('one', 'one'), ('log', 'half'), ('offs', 'log')])
        for a in list(SCALES) + [('log', 'one'), ('half', 'log')] for h in ('field', 'dependence', 'process')
        if full or len(ks) == 1 or h == 'field']
  rs = [r for r in rs if all(k != 'norm' or s in ('one', 'log') for k, s in zip(r[0], r[1]))]
  fs = [(n, sc, h, src) for n in FAMILIES for sc in ('one', 'log') for h in ('call', 'field', 'bar', 'process')
        for src in ('symbolic', 'object', 'function') if src == 'symbolic' or n in NUMERIC
        if full or h in ('call', 'field') or n in ('normal', 'poisson') or src == 'function']
  return [Space('families', fs, run_families, 'symbolic and named distributions of variable parameters, conditional, joint and iid'),
          Space('requested', rs, run_requested, 'default probabilities of fields, dependences and processes of 1-2 variables '
                'on every scale asked for'),
          Space('joint', js, run_joint, 'fields of 1-3 variables of every kind and scale; all specifications per variable; '
                'all pairs varying together'),
          Space('specified', ss, run_specified, 'all forms x scales x specifications'),
          Space('dependence', ds, run_dependence, 'all shapes to 2 leafs and 2 roots; conditional, joint, iid'),
          Space('parallel', ns, run_naive, 'all orders and scales of 2-3 parallel dependences, scaled before, '
                'after or explicitly')]
