"""Variables: domains, limits, grids, random values, transformations."""
import itertools
import math

import numpy as np

from mc.core import Space, Violation, check
from mc import table as T
from mc.rng import Scripted

PROPERTY = 'P09'
ASSUMPTIONS = ['random draws are answered by every script of a finite set',
               'grid points agree to 1e-9']

UFUNS = {
    None: (lambda x: x, lambda x: x),
    'log': (math.log, math.exp),
    'neg': (lambda x: -x, lambda x: -x),
    'affine': (lambda x: 2. * x + 1., lambda x: (x - 1.) / 2.),
    'cube': (lambda x: x ** 3, lambda x: math.copysign(abs(x) ** (1. / 3.), x)),
    'sym-log': (math.log, math.exp),
    'sym-affine': (lambda x: 2. * x + 1., lambda x: (x - 1.) / 2.),
    # Symbolic transformations with an inverse for either side of a turning point
    'sym-sq+': (lambda x: x * x, lambda u: math.sqrt(u)),
    'sym-sq-': (lambda x: x * x, lambda u: -math.sqrt(u)),
    'sym-cosh+': (math.cosh, math.acosh),
    'sym-cosh-': (math.cosh, lambda u: -math.acosh(u)),
    'sym-quad+': (lambda x: x * x + x, lambda u: -.5 + math.sqrt(.25 + u)),
    'sym-quad-': (lambda x: x * x + x, lambda u: -.5 - math.sqrt(.25 + u)),
    'sym-miss+': (lambda x: (1. - x) ** 2, lambda u: 1. + math.sqrt(u)),
    'sym-miss-': (lambda x: (1. - x) ** 2, lambda u: 1. - math.sqrt(u)),
    'sym-fourth+': (lambda x: x ** 4, lambda u: u ** .25),
    'sym-fourth-': (lambda x: x ** 4, lambda u: -u ** .25),
    'sym-bell+': (lambda x: math.exp(-x * x), lambda u: math.sqrt(-math.log(u))),
    'sym-bell-': (lambda x: math.exp(-x * x), lambda u: -math.sqrt(-math.log(u))),
}
BRANCHES = {'sym-sq': 0., 'sym-cosh': 0., 'sym-quad': -.5, 'sym-miss': 1., 'sym-fourth': 0., 'sym-bell': 0.}


def set_ufun(var, name):
  import sympy
  if name is None:
    var.set_ufun(None)
  elif name == 'log':
    var.set_ufun((np.log, np.exp))
  elif name == 'neg':
    var.set_ufun((lambda x: -x, lambda x: -x))
  elif name == 'affine':
    var.set_ufun((lambda x: 2. * x + 1., lambda x: (x - 1.) / 2.))
  elif name == 'cube':
    var.set_ufun((lambda x: x ** 3, lambda x: np.cbrt(x)))
  elif name == 'sym-log':
    var.set_ufun(sympy.log(var[:]))
  elif name == 'sym-affine':
    var.set_ufun(2. * var[:] + 1.)
  else:
    x = var[:]
    var.set_ufun({'sym-sq': x ** 2, 'sym-cosh': sympy.cosh(x), 'sym-quad': x ** 2 + x, 'sym-miss': (1 - x) ** 2,
                  'sym-fourth': x ** 4, 'sym-bell': sympy.exp(-x ** 2)}[name[:-1]])


def vset_of(lo, hi, o0, o1, form):
  """The ways of writing an interval."""
  if form == 'list':
    return [(lo,) if o0 else lo, (hi,) if o1 else hi]
  if form == 'reversed':
    return [(hi,) if o1 else hi, (lo,) if o0 else lo]
  if form == 'tuple':
    return (lo, hi)
  if form == 'tuple-reversed':
    return (hi, lo)
  if form == 'array':
    return np.array([hi, lo])
  raise AssertionError(form)


def grid(lo, hi, n, o0, o1):
  if not o0 and not o1:
    return [(lo + hi) / 2.] if n == 1 else [lo + (hi - lo) * i / (n - 1) for i in range(n)]
  if o0 and o1:
    return [lo + (hi - lo) * (i + 1) / (n + 1) for i in range(n)]
  if o0:
    return [lo + (hi - lo) * (i + 1) / n for i in range(n)]
  return [lo + (hi - lo) * i / n for i in range(n)]


def judge_float(var, lo, hi, o0, o1, uname, ctx, what):
  fwd, inv = UFUNS[uname]
  u0, u1 = fwd(lo), fwd(hi)
  check(var.vtype is float, '{}: type is {}', what, var.vtype)
  check(T.close(var.vlims[0], lo) and T.close(var.vlims[1], hi), '{}: limits {}', what, var.vlims)
  check(T.close(float(var.ulims[0]), u0) and T.close(float(var.ulims[1]), u1),
        '{}: transformed limits {}', what, var.ulims)
  check(T.close(float(var.length), abs(u1 - u0)), '{}: length {}', what, var.length)
  check(T.close(float(var.lhv), math.log(abs(u1 - u0)), 1e-9, 1e-12), '{}: log volume {}', what, var.lhv)
  check(bool(var.isfinite), '{}: not finite', what)
  # membership
  e = 1e-6
  probes = [(lo - 1., False), (lo - e, False), (lo, not o0), (lo + e, True), ((lo + hi) / 2, True),
            (hi - e, True), (hi, not o1), (hi + e, False), (hi + 5., False)]
  for v, w in probes:
    check(bool(var.inside(v)) == w, '{}: inside({}) is not {}', what, v, w)
    check((v in var) == w, '{}: {} in variable is not {}', what, v, w)
  arr = var.inside(np.array([v for v, _ in probes]))
  check([bool(a) for a in arr] == [w for _, w in probes], '{}: inside(array) {}', what, arr)
  ctx.state(2 * len(probes))
  # grids
  for n in (1, 2, 3, 5):
    out = np.asarray(var({n})[var.name], dtype=float)
    ctx.step()
    want = [inv(g) for g in grid(u0, u1, n, o0, o1)]
    check(out.shape == (n,) and all(T.close(float(a), b, 1e-9, 1e-9) for a, b in zip(out, want)),
          '{}: grid of {} is {} and not {}', what, n, out, want)
    ctx.state()
    ctx.outcome(repr(want))
  # random values
  for script in ((0.5,), (0.,), (1. - 2 ** -40,), (0.25, 0.75, 0.1)):
    for n in (None, 0, -1, -3):
      with Scripted(script):
        out = var.evaluate(None if n is None else {n})[var.name]
      ctx.step()
      if not n:
        check(np.ndim(out) == 0, '{}: random scalar came as {}', what, out)
      else:
        check(np.shape(out) == (-n,), '{}: {} random values came as shape {}', what, -n, np.shape(out))
      vals = [float(v) for v in np.ravel(out)]
      check(all(lo - 1e-9 * abs(lo) - 1e-12 <= v <= hi + 1e-9 * abs(hi) + 1e-12 for v in vals),
            '{}: random values {} outside', what, vals)
      if script == (0.5,):
        check(all(T.close(fwd(v), (u0 + u1) / 2, 1e-9, 1e-9) for v in vals),
              '{}: the median random value is {} and not {}', what, vals, inv((u0 + u1) / 2))
      if len(script) == 3 and n == -3:
        fr = sorted(min((fwd(v) - u0) / (u1 - u0), 1 - (fwd(v) - u0) / (u1 - u0)) for v in vals)
        check(all(T.close(a, b, 1e-9, 1e-9) for a, b in zip(fr, [.1, .25, .25])),
              '{}: random values {} are not uniform in the transformed range', what, vals)
      ctx.state()
  # given values are returned as they are
  for given in (np.array([lo, hi]), (lo + hi) / 2.):
    for arg in (given, {var.name: given}, {var: given}):
      out = var(arg)[var.name]
      check(np.array_equal(out, given), '{}: values {} came back as {}', what, given, out)
      ctx.step()


def run_float(root, ctx):
  import probayes as pb
  lo, hi, o0, o1, form, uname, how = root
  vset = vset_of(lo, hi, o0, o1, form)
  keep = repr(vset)
  if how == 'vtype':
    var = pb.Variable('x', vtype=float, vset=vset)
  elif how == 'infer':
    var = pb.Variable('x', vset=vset)
  elif how == 'swapped':
    var = pb.Variable('x', float, vset)
  else:
    var = pb.Variable('x', vtype=float)
    var.vset = vset
  check(repr(vset) == keep, 'the interval given was modified: {} became {}', keep, vset)
  if uname is not None:
    set_ufun(var, uname)
  judge_float(var, lo, hi, o0, o1, uname, ctx, 'vset {} ufun {}'.format(keep, uname))
  other = pb.Variable('z', vtype=float)
  check(not other.isfinite and list(other.vlims) == [-np.inf, np.inf], 'default interval changed: {}',
        other.vlims)
  ctx.trace()
  ctx.sample('{} {}'.format(keep, uname))


def judge_set(var, vals, vtype, ctx, what):
  name = var.name
  check(var.vtype is vtype, '{}: type {}', what, var.vtype)
  check([T.py(v) for v in var.vset] == vals, '{}: set is {}', what, var.vset)
  check(T.py(var.vlims[0]) == min(vals) and T.py(var.vlims[1]) == max(vals), '{}: limits {}', what, var.vlims)
  check(var.length == len(vals), '{}: length {}', what, var.length)
  check(T.close(float(var.lhv), math.log(len(vals)), 1e-9, 1e-12), '{}: log size {}', what, var.lhv)
  probes = [False, True] if vtype is bool else list(range(min(vals) - 2, max(vals) + 3)) \
      if max(vals) - min(vals) < 60 else vals + [v + 1 for v in vals]
  for v in probes:
    check(bool(var.inside(v)) == (v in vals), '{}: inside({})', what, v)
    check((v in var) == (v in vals), '{}: {} in variable', what, v)
  arr = var.inside(np.array(probes + probes[::-1]))
  check([bool(a) for a in arr] == [v in vals for v in probes + probes[::-1]],
        '{}: inside of an array with repeats is {}', what, arr)
  out = var()[name]
  check([T.py(v) for v in out] == vals and out.dtype == vtype, '{}: whole set is {!r}', what, out)
  ctx.step(3)
  for n in range(1, 2 * len(vals) + 2):
    out = var({n})[name]
    check([T.py(v) for v in np.ravel(out)] == [vals[i % len(vals)] for i in range(n)],
          '{}: {} serial values are {}', what, n, out)
    ctx.outcome(repr(out))
    ctx.step()
    ctx.state()
  got = set()
  for k in range(4 * len(vals)):
    with Scripted([(k + .5) / (4 * len(vals))]):
      out = var({0})[name]
    check(np.ndim(out) == 0 and T.py(out) in vals, '{}: random value {}', what, out)
    got.add(T.py(out))
    ctx.step()
  check(got == set(vals), '{}: random values only reach {}', what, got)
  for script in itertools.product((0., .5, .99), repeat=3):
    for n in (1, len(vals), len(vals) + 1, 2 * len(vals)):
      with Scripted(script):
        out = var({-n})[name]
      cnt = [[T.py(v) for v in np.ravel(out)].count(v) for v in vals]
      check(np.shape(out) == (n,) and sum(cnt) == n and max(cnt) - min(cnt) <= 1,
            '{}: {} random values {} are not from permutations of the set', what, n, out)
      ctx.step()
      ctx.state()


SETS = [('bool', None), ('bool', [False, True]), ('bool', [True, False]), ('bool', {True}), ('bool', [False]),
        ('int', None), ('int', [0, 1]), ('int', {3, 1, 2}), ('int', 'range:4'), ('int', 'range:2:12:3'),
        ('int', [5, -2, 7]), ('int', 'array:4:2:9'), ('int', 'array:1:2'), ('int', [7]),
        ('int', 'big'), ('float-int', [0., 1.])]


def run_set(root, ctx):
  import probayes as pb
  kind, spec, how = root
  vset = spec
  if isinstance(spec, str) and spec.startswith('range'):
    vset = range(*map(int, spec.split(':')[1:]))
  elif isinstance(spec, str) and spec.startswith('array'):
    vset = np.array(list(map(int, spec.split(':')[1:])))
  elif spec == 'big':
    vset = [10 ** 9 * i + i * i for i in range(15)]
  vtype = {'bool': bool, 'int': int, 'float-int': int}[kind]
  want = [False, True] if vset is None and vtype is bool else [0, 1] if vset is None else \
      list(vset) if isinstance(vset, (list, range)) else sorted(T.py(v) for v in vset)
  want = [vtype(v) for v in want]
  keep = repr(vset)
  if how == 'vtype' or vset is None or kind == 'float-int':
    var = pb.Variable('v', vtype=vtype, vset=vset) if vset is not None else pb.Variable('v', vtype=vtype)
  elif how == 'infer':
    var = pb.Variable('v', vset=vset)
  else:
    var = pb.Variable('v', vtype=vtype)
    var.vset = vset
  check(repr(vset) == keep, 'the set given was modified: {} became {}', keep, vset)
  judge_set(var, want, vtype, ctx, '{} {}'.format(kind, keep))
  for t, w in ((bool, [False, True]), (int, [0, 1])):
    check([T.py(x) for x in pb.Variable('d', vtype=t).vset] == w, 'default set of {} changed', t)
  check(pb.Variable('d').vtype is bool, 'default type')
  ctx.trace()


def run_history(root, ctx):
  """Reconfigurations: the last settings alone decide."""
  import probayes as pb
  kind, ops = root
  if kind == 'float':
    var = pb.Variable('x', vtype=float, vset=[1., 2.])
    state = dict(lims=(1., 2., False, False), u=None)
    shared = {}
    for op in ops:
      if op[0] == 'vset':
        lo, hi, o0, o1 = op[1]
        vset = shared.setdefault(op[1], vset_of(lo, hi, o0, o1, 'list'))  # one list reused
        var.vset = vset
        state['lims'] = op[1]
      elif op[0] == 'ufun':
        set_ufun(var, op[1])
        state['u'] = op[1]
      else:
        with Scripted((.3, .9)):
          var({4}), var({0}), var({-2})
      ctx.step()
    lo, hi, o0, o1 = state['lims']
    judge_float(var, lo, hi, o0, o1, state['u'], ctx, 'after {}'.format(ops))
  else:
    var = pb.Variable('x', vtype=int)
    want = [0, 1]
    other = pb.Variable('y', vtype=int)
    for op in ops:
      if op[0] == 'vset':
        var.vset = list(op[1])
        want = list(op[1])
      else:
        var(), var({3})
        with Scripted((.3, .9)):
          var({0}), var({-4})
      ctx.step()
    judge_set(var, want, int, ctx, 'after {}'.format(ops))
    judge_set(other, [0, 1], int, ctx, 'another variable after {}'.format(ops))
  ctx.trace()


def run_branch(root, ctx):
  """Sets on either side of the turning point of a symbolic transformation, and changes of side."""
  import probayes as pb
  uname, sides, early, o0, o1 = root
  turn = BRANCHES[uname]
  offs = (0., .5) if uname == 'sym-quad' else (.5, 2.)
  lims = [(turn - offs[1], turn - offs[0]) if s == '-' else (turn + offs[0], turn + offs[1]) for s in sides]
  var = None
  for i, (s, (lo, hi)) in enumerate(zip(sides, lims)):
    vset = vset_of(lo, hi, o0, o1, 'list')
    if var is None:
      var = pb.Variable('x', vtype=float, vset=vset if early else [turn + 3., turn + 4.])
      set_ufun(var, uname + s)
    if i or not early:
      var.vset = vset
    judge_float(var, lo, hi, o0, o1, uname + s, ctx,
                'vset {} ufun {} after {}'.format(vset, uname, sides[:i]))
  ctx.trace()


def spaces(tier):
  full = tier != 'quick'
  br = [(u, sides, early, o0, o1) for u in BRANCHES
        for n in ((1, 2, 3) if full else (1, 2)) for sides in itertools.product('-+', repeat=n)
        for early in (True, False) for o0, o1 in itertools.product((False, True), repeat=2)
        if full or n == 1 or o0 == o1 or u == 'sym-sq']
  fl = []
  ivals = [(1., 2.), (0.5, 8.), (2., 3.5)] + ([(1e-3, 1e3)] if full else [])
  for lo, hi in ivals:
    for o0, o1 in itertools.product((False, True), repeat=2):
      for form in ('list', 'reversed') + (('tuple', 'tuple-reversed') if o0 and o1 else ()) + \
          (('array',) if not o0 and not o1 else ()):
        for u in (None, 'log', 'neg', 'affine', 'cube'):
          for how in ('vtype', 'infer', 'swapped', 'later'):
            fl.append((lo, hi, o0, o1, form, u, how))
      fl.append((lo, hi, o0, o1, 'list', 'sym-log', 'vtype'))
      fl.append((lo, hi, o0, o1, 'list', 'sym-affine', 'vtype'))
  for lo, hi in ((-3., 2.), (-5., -1.), (0., 1.), (-2., 0.)):
    for o0, o1 in itertools.product((False, True), repeat=2):
      for u in (None, 'neg', 'affine', 'cube'):
        fl.append((lo, hi, o0, o1, 'list', u, 'vtype'))
  st = [(k, s, h) for k, s in SETS for h in ('vtype', 'infer', 'later')]
  # all subsets of a small range, in every order up to size 3
  for r in (1, 2, 3):
    for sub in itertools.permutations((0, 1, 2, 5), r):
      st.append(('int', list(sub), 'vtype'))
  fops = [('vset', (1., 2., False, False)), ('vset', (0.5, 4., True, False)), ('vset', (2., 9., True, True)),
          ('ufun', 'log'), ('ufun', 'affine'), ('ufun', None), ('draw',)]
  iops = [('vset', (0, 1)), ('vset', (4, 2, 9)), ('vset', (7,)), ('draw',)]
  d = 4 if full else 3
  hist = [('float', ops) for n in range(1, d + 1) for ops in itertools.product(fops, repeat=n)]
  hist += [('int', ops) for n in range(1, d + 1) for ops in itertools.product(iops, repeat=n)]
  return [Space('intervals', fl, run_float, 'all limit/openness/notation/transformation/constructor '
                'combinations; grids 1..5, all random scripts'),
          Space('sets', st, run_set, 'all notations and all ordered subsets of {0,1,2,5} up to size 3'),
          Space('branches', br, run_branch, 'symbolic transformations with two inverses, on either side of their '
                'turning points, all sequences of sides'),
          Space('histories', hist, run_history, 'all reconfiguration sequences up to length {}'.format(d))]
