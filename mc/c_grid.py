"""Evaluation of variables, fields and dependences into distributions, and selection among them."""
import itertools

import numpy as np

from mc.core import Space, Violation, check
from mc import table as T

PROPERTY = 'P23'
CHUNK = 32
ASSUMPTIONS = ['values of variables are scalars or arrays', 'values given together for several variables are of one size or scalar',
               'random values are judged by number and membership']

DOMAIN = {'a': [0, 1, 2], 'b': (0., 1.), 'c': [False, True], 'd': (-2., 2.), 'e': [3, 7]}


def variable(kind, name):
  import probayes as pb
  cls = pb.Variable if kind == 'Variable' else pb.RV
  dom = DOMAIN[name]
  if isinstance(dom, tuple):
    return cls(name, vtype=float, vset=list(dom))
  return cls(name, vtype=type(dom[0]), vset=list(dom))


# What may be said about one variable: label -> (argument, expected)
# expected is a scalar, a list of values, ('draws', n), or ('draw',)
def said(name):
  dom = DOMAIN[name]
  if isinstance(dom, tuple):
    lo, hi = dom
    mid = lo + .25 * (hi - lo)
    grid = lambda n: [lo + (hi - lo) * i / (n - 1) for i in range(n)] if n > 1 else [.5 * (lo + hi)]
    out = {'scalar': (mid, mid), 'zero-d': (np.array(mid), mid), 'one': (np.array([mid]), [mid]),
           'array': (np.array([hi, lo, mid]), [hi, lo, mid]), 'pair': (np.array([mid, lo]), [mid, lo]), 'none': (None, ('draw',))}
  else:
    v = dom[-1]
    grid = lambda n: [dom[i % len(dom)] for i in range(n)]
    out = {'scalar': (v, v), 'zero-d': (np.array(v), v), 'one': (np.array([v]), [v]),
           'array': (np.array([v, dom[0], v]), [v, dom[0], v]), 'pair': (np.array([v, dom[0]]), [v, dom[0]]),
           'none': (None, list(dom))}
  out.update({'{1}': ({1}, grid(1)), '{3}': ({3}, grid(3)), '{4}': ({4}, grid(4)), '{0}': ({0}, ('draw',)), '{-2}': ({-2}, ('draws', 2)),
              '{-3}': ({-3}, ('draws', 3))})
  return out


LABELS = ('omit', 'scalar', 'zero-d', 'one', 'array', 'pair', 'none', '{1}', '{3}', '{0}', '{-2}')
FEWER = ('omit', 'scalar', 'array', 'none', '{3}', '{0}', '{-2}')
# what may be said of a group: per member
GROUPS = (('array', 'array'), ('pair', 'pair'), ('scalar', 'array'), ('array', 'scalar'), ('scalar', 'scalar'), ('array', '{3}'),
          ('{-2}', 'pair'), ('{0}', 'array'), ('zero-d', '{3}'), ('one', 'one'))
COMMON = ('{3}', '{1}', '{0}', '{-2}')


def member(name, v):
  dom = DOMAIN[name]
  return dom[0] <= v <= dom[1] if isinstance(dom, tuple) else T.py(v) in dom


def single(exp):
  return exp == ('draw',) or not isinstance(exp, (list, tuple))


def default_of(names, given):
  """What is assumed of variables not mentioned."""
  if not any(isinstance(DOMAIN[n], tuple) for n in names):
    return 'none'
  return 'none' if any(isinstance(g, set) and g == {0} for g in given) else '{0}'


def expected(names, plan):
  """plan: list of (members, labels or one label) -> {name: (group, expected)}."""
  exp = {}
  given = []
  for i, (members, labels) in enumerate(plan):
    for j, m in enumerate(members):
      lab = labels if isinstance(labels, str) else labels[j]
      if lab != 'omit':
        exp[m] = (i, said(m)[lab][1])
    if len(members) == 1 and labels != 'omit':
      given.append(said(members[0])[labels][0])
  lab = default_of(names, given)
  for i, n in enumerate(names):
    if n not in exp:
      exp[n] = (100 + i, said(n)[lab][1])
  return exp


def judge_grid(vals, dims, names, exp, what):
  """The values and axes against the expectation; returns the sizes by axis."""
  check(list(vals) == list(names), '{}: variables {} and not {}', what, list(vals), names)
  axis, axes = {}, []
  for n in names:
    grp, e = exp[n]
    v = vals[n]
    if single(e):
      check(np.ndim(v) == 0 and not isinstance(v, set), '{}: {} is {} and not one value', what, n, v)
      check(dims.get(n) is None, '{}: {} has axis {}', what, n, dims.get(n))
      if e == ('draw',):
        check(member(n, T.py(v)), '{}: {} drawn as {}', what, n, v)
      else:
        check(T.same_value(T.py(v), e), '{}: {} is {} and not {}', what, n, v, e)
      continue
    size = e[1] if isinstance(e, tuple) else len(e)
    if grp not in axis:
      axis[grp] = len(axes)
      axes.append(size)
    check(dims[n] == axis[grp], '{}: {} on axis {} and not {}', what, n, dims[n], axis[grp])
    check(isinstance(v, np.ndarray) and v.size == size, '{}: {} is {}', what, n, v)
    flat = [T.py(u) for u in np.ravel(v)]
    if isinstance(e, tuple):
      check(all(member(n, u) for u in flat), '{}: {} drawn as {}', what, n, flat)
    else:
      check(all(T.same_value(u, w) for u, w in zip(flat, e)), '{}: {} is {} and not {}', what, n, flat, e)
  for n in names:
    if dims.get(n) is not None:
      due = tuple(axes[dims[n]] if i == dims[n] else 1 for i in range(len(axes)))
      check(vals[n].shape == due, '{}: {} of shape {} and not {}', what, n, vals[n].shape, due)
  return axes


def judge_dist(d, names, exp, what):
  import probayes as pb
  check(type(d) is pb.Distribution, '{}: gives a {}', what, type(d))
  axes = judge_grid(d, d.dims, names, exp, what)
  check(d.name == ','.join(names) == d.short_name, '{}: named {}', what, d.name)
  check(list(d.keylist) == list(names) and set(d.keyset) == set(names), '{}: keys {}', what, d.keylist)
  check(list(d.shape) == axes and d.size == int(np.prod(axes)) and (d.ndim or 0) == len(axes), '{}: shape {}, size {}, {} dimensions',
        what, d.shape, d.size, d.ndim)
  ones = [single(exp[n][1]) for n in names]
  check(list(d.sizes) == [np.size(d[n]) for n, o in zip(names, ones) if not o], '{}: sizes {}', what, d.sizes)
  check([bool(s) for s in d.aresingleton] == ones and bool(d.issingleton) == all(ones) == bool(d.singleton()),
        '{}: singletons {}', what, d.aresingleton)
  for i, (n, o) in enumerate(zip(names, ones)):
    check(bool(d.singleton(n)) == o and bool(d.singleton(i)) == o, '{}: singleton {}', what, n)
  check(d.singleton('unheard') is None, '{}: unknown singleton', what)
  return axes


def freeze(v):
  if isinstance(v, np.ndarray):
    return ('array', v.shape, tuple(v.ravel().tolist()))
  if isinstance(v, (list, tuple)):
    return (type(v).__name__, tuple(freeze(u) for u in v))
  return repr(v)


def arguments(plan, form, variables):
  """Positional and keyword arguments that say what the plan says."""
  items = []
  for members, labels in plan:
    if labels == 'omit':
      continue
    if len(members) == 1:
      val = said(members[0])[labels][0]
      items.append((members, val))
    elif isinstance(labels, str):
      items.append((members, said(members[0])[labels][0]))
    else:
      val = [said(m)[lab][0] for m, lab in zip(members, labels)]
      items.append((members, tuple(val) if form == 'tuples' else val))
  named = lambda ms: ','.join(ms)
  held = lambda ms: variables[ms[0]] if len(ms) == 1 else tuple(variables[m] for m in ms)
  if form in ('dict', 'tuples'):
    return ({named(m): v for m, v in items},), {}
  if form == 'reverse':
    return ({named(m): v for m, v in items[::-1]},), {}
  if form == 'variables':
    return ({held(m): v for m, v in items},), {}
  if form == 'keywords':
    return (), {named(m): v for m, v in items}
  if form == 'dicts':
    return tuple({named(m): v} if i % 2 else {held(m): v} for i, (m, v) in enumerate(items)), {}
  # 'mixed': first by variable, rest by keyword
  return tuple({held(m): v} for m, v in items[:1]), {named(m): v for m, v in items[1:]}


def build(kind, names):
  """kind: Field, Dependence, RF or SD."""
  import probayes as pb
  vs = {n: variable('Variable' if kind in ('Field', 'Dependence') else 'RV', n) for n in names}
  lst = list(vs.values())
  if kind == 'Field':
    return pb.Field(*lst), vs
  if kind == 'RF':
    return pb.RF(*lst), vs
  cls = pb.Field if kind == 'Dependence' else pb.RF
  return cls(*lst[:-1]) | cls(lst[-1]), vs


def run_grid(root, ctx):
  kind, names, plan, forms = root
  obj, vs = build(kind, names)
  exp = expected(names, plan)
  for form in forms:
    args, kwds = arguments(plan, form, vs)
    before = [freeze(list(a.values())) for a in args] + [freeze(list(kwds.values()))] + [[str(k) for k in a] for a in args]
    what = '{} {} of {} as {}'.format(kind, names, plan, form)
    if kind in ('Field', 'Dependence'):
      out = obj(*args, **kwds)
      judge_dist(out, names, exp, what)
    vals, dims = obj.evaluate(*args, **kwds)
    axes = judge_grid(vals, dims, names, exp, what + ' evaluated')
    ctx.step(2)
    ctx.state()
    ctx.outcome((tuple(axes), tuple(single(exp[n][1]) for n in names)))
    after = [freeze(list(a.values())) for a in args] + [freeze(list(kwds.values()))] + [[str(k) for k in a] for a in args]
    check(before == after, '{}: arguments altered', what)
  for bad in ({'unheard': 1}, {'unheard': {2}}, {'unheard,' + names[0]: {2}}, {names[0] + ',unheard': {2}}):
    try:
      obj.evaluate(bad)
    except (AssertionError, KeyError):
      pass
    else:
      raise Violation('{} {}: {} was accepted'.format(kind, names, bad))
    ctx.step()
  ctx.trace()


def run_variable(root, ctx):
  kind, name, label = root
  v = variable(kind, name)
  arg, e = said(name)[label]
  exp = {name: (0, e)}
  for what, d in (('called', v(arg) if kind == 'Variable' else v.evaluate(arg)), ('evaluated', v.evaluate(arg)),
                  ('evaluated by name', v.evaluate({name: arg})), ('evaluated by variable', v.evaluate({v: arg}))):
    judge_dist(d, [name], exp, '{} {} of {} {}'.format(kind, name, label, what))
    ctx.step()
    ctx.state()
  if arg is None and kind == 'Variable':
    judge_dist(v(), [name], exp, 'call of {}'.format(name))
  ctx.trace()


# ------------------------------------------------------------------ distributions
def run_dist(root, ctx):
  """Construction, lookup, renaming and re-dimensioning of every layout."""
  import probayes as pb
  layout, sizes, explicit = root
  order = [k for k, _ in layout]
  dims = dict(layout)
  nd = len(sizes)
  vals = {k: 10 + j if ax is None else np.arange(sizes[ax]) * (j + 2) + ord(k) for j, (k, ax) in enumerate(layout)}
  what = 'distribution {} of {}'.format(layout, sizes)
  if explicit:
    d = pb.Distribution('d', vals, dims=dims)
  else:
    d = pb.Distribution('d', vals)

  def same(d, want_vals, want_dims, what, keys=None):
    check(list(d.keys()) == list(keys or want_vals), '{}: keys {}', what, list(d))
    used = [v for v in want_dims.values() if v is not None]
    n = max(used) + 1 if used else 0
    shape = [None] * n
    for k, v in want_vals.items():
      check(d.dims[k] == want_dims[k], '{}: {} on axis {} and not {}', what, k, d.dims[k], want_dims[k])
      check(np.array_equal(np.ravel(d[k]), np.ravel(v)), '{}: {} is {} and not {}', what, k, d[k], v)
      if want_dims[k] is not None:
        shape[want_dims[k]] = np.size(v)
        check(d[k].ndim == n and d[k].shape[want_dims[k]] == np.size(v), '{}: {} of shape {}', what, k, d[k].shape)
    check(list(d.shape) == shape and d.size == int(np.prod(shape)), '{}: shape {} and not {}', what, d.shape, shape)
    check(bool(d.issingleton) == (not used), '{}: singleton {}', what, d.issingleton)
    ctx.state()
  same(d, vals, dims, what)

  # look up every subset
  for r in range(1, len(order) + 1):
    for sub in itertools.combinations(order, r):
      for keys in (list(sub), set(sub), tuple(sub)[::-1]) + ((None,) if r == len(order) else ()):
        got = d.lookup(keys)
        asd = d.lookup(keys, as_dist=True)
        ctx.step(2)
        eff = [k for k in order if k in sub]
        want = {}
        for k in eff:
          if dims[k] is None:
            want[k] = vals[k]
          else:
            mates = [m for m in eff if dims[m] == dims[k]]
            if k == mates[0]:
              want[','.join(mates)] = vals[k] if len(mates) == 1 else tuple(vals[m] for m in mates)
        check(list(got) == list(want), '{}: lookup of {} has {}', what, keys, list(got))
        for k, v in want.items():
          check(len(got[k]) == len(v) and all(np.array_equal(g, u) for g, u in zip(got[k], v)) if isinstance(v, tuple)
                else np.array_equal(got[k], v), '{}: lookup of {} at {} is {}', what, keys, k, got[k])
        used = sorted({dims[k] for k in eff if dims[k] is not None})
        same(asd, {k: vals[k] for k in eff}, {k: None if dims[k] is None else used.index(dims[k]) for k in eff},
             '{} restricted to {}'.format(what, keys))
        check(asd.name == ','.join(eff), '{}: restricted to {} named {}', what, keys, asd.name)
  same(d, vals, dims, what + ' after lookup')

  # every permutation of axes
  for perm in itertools.permutations(range(nd)):
    new = {k: None if dims[k] is None else perm[dims[k]] for k in order}
    for keys in (order, order[::-1]):
      for full in (True, False):
        req = {k: new[k] for k in keys if full or new[k] is not None}
        got = d.redim(req)
        ctx.step()
        same(got, {k: vals[k] for k in order}, new, '{} redimensioned to {}'.format(what, req),
             list(req) + [k for k in order if k not in req])
  for k in order:
    bad = dict(dims)
    if dims[k] is None:
      bad[k] = nd
    else:
      bad.pop(k)
    refuse(lambda: d.redim(bad), what, 'redimensioned as {}'.format(bad))
  same(d, vals, dims, what + ' after redimensioning')

  # renaming: every mapping of names on names, old or new
  pool = order + ['new', 'newer']
  for sub in itertools.product(*[[None] + pool for _ in order]):
    keymap = {k: v for k, v in zip(order, sub) if v is not None}
    final = [keymap.get(k, k) for k in order]
    if len(set(final)) < len(final):
      refuse(lambda: d.rekey(keymap), what, 'renamed by {}'.format(keymap))
      continue
    got = d.rekey(keymap)
    ctx.step()
    same(got, {f: vals[k] for f, k in zip(final, order)}, {f: dims[k] for f, k in zip(final, order)},
         '{} renamed by {}'.format(what, keymap), final)
  same(d, vals, dims, what + ' after renaming')

  # whatever does not fit is refused
  for k in order:
    if dims[k] is None:
      refuse(lambda: pb.Distribution('d', vals, dims={**dims, k: nd}), what, 'scalar {} with an axis'.format(k))
      continue
    refuse(lambda: pb.Distribution('d', {**vals, k: list(vals[k])}, dims=dims), what, 'a list for {}'.format(k))
    refuse(lambda: pb.Distribution('d', {**vals, k: np.ones((2, 2))}, dims=dims), what, 'a matrix for {}'.format(k))
    refuse(lambda: pb.Distribution('d', vals, dims={m: v for m, v in dims.items() if m != k}), what, 'no axis for {}'.format(k))
    if sum(v == dims[k] for v in dims.values()) > 1:
      refuse(lambda: pb.Distribution('d', {**vals, k: np.arange(vals[k].size + 1)}, dims=dims), what, 'another size for {}'.format(k))
  for k in ('attrs', 'prob', 'pscale'):
    refuse(lambda: pb.Distribution('d', {**vals, k: 1}, dims={**dims, k: None}), what, 'reserved {}'.format(k))
  for name in (None, 3):
    refuse(lambda: pb.Distribution(name, vals, dims=dims), what, 'name {}'.format(name))
  ctx.trace()
  ctx.outcome(str(layout))


def refuse(call, what, how):
  try:
    call()
  except (AssertionError, ValueError, TypeError, KeyError):
    return
  raise Violation('{}: {} was accepted'.format(what, how))


def dist_layouts(n, choices):
  """Every allotment of keys to axes, scalars included, the axes in every order."""
  keys = ['x', 'y', 'z', 'w'][:n]
  for axes in itertools.product([None] + list(range(n)), repeat=n):
    used = sorted({a for a in axes if a is not None})
    if used != list(range(len(used))):
      continue
    own = [a for a in axes if a is not None]
    for sizes in choices(len(used)):
      lay = tuple(zip(keys, axes))
      yield lay, tuple(sizes), True
      if own == used:
        yield lay, tuple(sizes), False


def run_select(root, ctx):
  import probayes as pb
  kind, names, pick = root
  obj, vs = build(kind, names)
  stoch = kind in ('RF', 'SD')
  cls = pb.RF if stoch else pb.Field
  for i, n in enumerate(names):
    check(obj[i] is vs[n] and obj[n] is vs[n] and obj[i - len(names)] is vs[n], '{} {}: item {} is {}', kind, names, n, obj[n])
  check(obj['unheard'] is None, '{} {}: unknown item {}', kind, names, obj['unheard'])
  ctx.step(3 * len(names))
  forms = [list(pick), tuple(pick), [vs[k] for k in pick], [cls(*[vs[k] for k in pick])], [vs[k] if i % 2 else k for i, k in enumerate(pick)]]
  forms += [cls(*[vs[k] for k in pick])]
  if len(pick) == 1:
    forms += [pick[0], vs[pick[0]]]
  for f in forms:
    sub = obj.subfield(f)
    ctx.step()
    check(type(sub) is cls and list(sub.keylist) == list(pick) and all(sub.vars[k] is vs[k] for k in pick) and sub.name == ','.join(pick),
          '{} {}: subfield {} is {}', kind, names, f, sub)
    ctx.state()
  check(list(obj.keylist) == list(names), '{} {}: now {}', kind, names, obj.keylist)
  other = variable('RV' if stoch else 'Variable', 'e')
  for bad in ('e', other, [pick[0], 'e'], [pick[0], other], cls(other), 3, [None]):
    refuse(lambda: obj.subfield(bad), '{} {}'.format(kind, names), 'subfield {}'.format(bad))
    ctx.step()
  # equality is that of the sets of variables
  fld = cls(*[vs[k] for k in names])
  for r in range(1, len(names) + 1):
    for comb in itertools.permutations(names, r):
      cand = cls(*[vs[k] for k in comb])
      due = set(comb) == set(names)
      check((fld == cand) is due and (fld != cand) is (not due) and (cand == fld) is due, '{} {} == {}: {}', kind, names, comb, fld == cand)
      ctx.step(3)
  if kind in ('Dependence', 'SD'):
    lr = obj.leafs_roots()
    check(set(lr) == {'leafs', 'roots'} and lr['leafs'] is obj.leafs and lr['roots'] is obj.roots, '{} {}: {}', kind, names, lr)
    for k in ('leafs', 'roots'):
      check(obj.leafs_roots(k) is lr[k] and obj.leafs_roots(lr[k]) is lr[k], '{} {}: {}', kind, names, k)
    check(not obj.leafs_roots(cls(*[vs[k] for k in names])), '{} {}: the whole field taken as a part', kind, names)
    refuse(lambda: obj.leafs_roots('stems'), '{} {}'.format(kind, names), 'part named stems')
  ctx.outcome((kind, pick))
  ctx.trace()


def run_plural(root, ctx):
  """Several variables declared at once are the variables declared one by one."""
  import probayes as pb
  kind, names, form, how = root
  make, cls = (pb.variables, pb.Variable) if kind == 'Variable' else (pb.RVs, pb.RV)
  spec = {'float': (float, [0., 2.]), 'int': (int, [1, 2, 5]), 'bool': (bool, None), 'open': (float, [(0.,), (1.,)])}[how]
  arg = ','.join(names) if form == 'string' else list(names) if form == 'list' else tuple(names)
  calls = [lambda: make(arg, vtype=spec[0], vset=spec[1]), lambda: make(arg, spec[0], spec[1])]
  ones = [cls(n, vtype=spec[0], vset=spec[1]) for n in names]
  for call in calls:
    got = call()
    ctx.step()
    check(isinstance(got, tuple) and [v.name for v in got] == list(names), '{}: {}', root, got)
    for v, w in zip(got, ones):
      check(type(v) is cls and v.vtype == w.vtype and list(v.vset) == list(w.vset) and list(np.ravel(v.vlims)) == list(np.ravel(w.vlims))
            and v.length == w.length and v.isfinite == w.isfinite, '{}: {} has set {} of {}', root, v, v.vset, v.vtype)
    check(len({id(v) for v in got}) == len(names), '{}: not distinct', root)
    ctx.state()
  ctx.trace()
  ctx.outcome(root)


FORMS = ('dict', 'reverse', 'variables', 'keywords', 'dicts', 'mixed')


def spaces(tier):
  full = tier != 'quick'
  roots = []
  for kind in ('Field', 'Dependence', 'RF', 'SD'):
    dep = kind in ('Dependence', 'SD')
    for names in ([] if dep else [('a',), ('b',), ('c',)]) + [('a', 'b'), ('b', 'a'), ('a', 'c'), ('b', 'd')]:
      for labs in itertools.product(LABELS, repeat=len(names)):
        roots.append((kind, names, tuple(((n,), l) for n, l in zip(names, labs)), FORMS))
    for names in [('a', 'b', 'c'), ('b', 'c', 'd'), ('c', 'a', 'e')]:
      for labs in itertools.product(LABELS if full else FEWER, repeat=3):
        roots.append((kind, names, tuple(((n,), l) for n, l in zip(names, labs)), FORMS if full else FORMS[:3]))
    # variables given together
    for names in (('a', 'b'), ('a', 'c'), ('d', 'b')) + ((('a', 'b', 'c'), ('b', 'c', 'd'), ('c', 'b', 'a')) if not dep or full
                                                         else (('a', 'b', 'c'),)):
      for pair in itertools.permutations(names, 2):
        rest = [n for n in names if n not in pair]
        for labels in GROUPS + COMMON:
          for labs in itertools.product(LABELS, repeat=len(rest)):
            plan = ((pair, labels),) + tuple(((n,), l) for n, l in zip(rest, labs))
            roots.append((kind, names, plan, ('dict', 'reverse', 'variables', 'dicts', 'tuples')))
    for names in (('a', 'b', 'c', 'd'),):
      for g in ((('a', 'b'), ('c', 'd')), (('a', 'c'), ('d', 'b')), (('d', 'a'), ('b', 'c'))):
        for l1 in GROUPS + COMMON:
          for l2 in GROUPS + COMMON:
            roots.append((kind, names, ((g[0], l1), (g[1], l2)), ('dict', 'variables', 'tuples')))
    for names in (('a', 'b', 'c'), ('d', 'b', 'a', 'c')):
      for trio in itertools.permutations(names, 3) if full else itertools.combinations(names, 3):
        rest = [n for n in names if n not in trio]
        for labels in (('array',) * 3, ('array', 'scalar', '{3}'), ('scalar', 'scalar', 'pair'), '{3}', '{-2}', '{0}'):
          for labs in itertools.product(FEWER, repeat=len(rest)):
            roots.append((kind, names, ((trio, labels),) + tuple(((n,), l) for n, l in zip(rest, labs)), ('dict', 'variables', 'tuples')))
  vrs = [(kind, n, lab) for kind in ('Variable', 'RV') for n in DOMAIN for lab in said(n)]
  every = lambda m: itertools.product((1, 3, 2), repeat=m)
  lays = [l for n in range(1, 5 if full else 4) for l in dist_layouts(n, every)]
  lays += [] if full else list(dist_layouts(4, lambda m: [(3, 2, 4, 1)[:m]]))
  sel = [(kind, names, pick) for kind in ('Field', 'RF', 'Dependence', 'SD') for names in (('a', 'b'), ('c', 'a', 'd'), ('d', 'b', 'a', 'c'))
         for r in range(1, len(names) + 1) for pick in itertools.permutations(names, r)]
  plu = [(kind, names, form, how) for kind in ('Variable', 'RV') for names in (('x',), ('x', 'y'), ('z', 'x', 'y'))
         for form in ('string', 'list', 'tuple') for how in ('float', 'int', 'bool', 'open')]
  return [Space('variables', vrs, run_variable, 'every variable in every way of giving its values'),
          Space('grids', roots, run_grid, 'every specification of 1-{} variables, alone and shared, in every form of argument'.format(4)),
          Space('layouts', lays, run_dist, 'all allotments of up to 4 variables to axes; all lookups, renamings and permutations'),
          Space('selections', sel, run_select, 'all selections in every order and form'),
          Space('declarations', plu, run_plural, 'up to 3 names in every form')]
