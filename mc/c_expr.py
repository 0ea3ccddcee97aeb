"""Expressions and functions: what is called, and with which arguments."""
import itertools

import numpy as np

from mc.core import Space, Violation, check

PROPERTY = 'P18'
ASSUMPTIONS = ['wrapped functions only record the arguments they are given',
               'argument positions and names never collide (ambiguous calls are out of domain)',
               'handles taken by indexing are used before the expression is replaced']

KEYS = ("x", "y", "z")
TARGETS = (None, 0, 1, 2, 'x', 'y', 'z', 'u')
VALUES = {'x': 2., 'y': 3., 'z': 5., "x'": 7., "y'": 11., "z'": 13., 'w': 17.}


class Rec:
  """A callable object recording its arguments."""

  def __init__(self, tag):
    self.tag = tag

  def __call__(self, *args, **kwds):
    return answer(self.tag, args, kwds)


def answer(tag, args, kwds):
  if kwds.get('boom') or (args and args[-1] == 'boom'):
    raise RuntimeError('boom')
  return (tag, tuple(args), tuple(sorted(kwds.items())))


def recorder(kind, tag):
  if kind == 'lambda':
    return lambda *args, **kwds: answer(tag, args, kwds)
  if kind == 'object':
    return Rec(tag)
  def func(*args, **kwds):
    return answer(tag, args, kwds)
  return func


def make(cls, spec, *args, **kwds):
  import probayes as pb
  if cls == 'Func':
    from probayes.func import Func
    return Func(spec, *args, **kwds)
  return pb.Expression(spec, *args, **kwds)


def refused(call, what):
  try:
    got = call()
  except (AssertionError, TypeError, ValueError, KeyError, IndexError):
    return
  raise Violation('{}: accepted, giving {!r}'.format(what, got))


def remap(mapping, isdelta, args, kwds):
  """The arguments received by a function called through a mapping."""
  left = dict(kwds)
  args = list(args)
  placed, named = {}, {}
  for key in mapping:
    left.pop(key, None)
    if isdelta and key[-1] == "'":
      left.pop(key[:-1], None)
  for key, val in mapping.items():
    if isdelta and key[-1] == "'":
      value = kwds[key] - kwds[key[:-1]]
    else:
      value = kwds[key]
    if isinstance(val, int):
      placed[val] = value
    elif val is not None:
      named[val] = value
  for pos in sorted(placed):
    while len(args) <= pos:
      args.append(None)
    args[pos] = placed[pos]
  left.update(named)
  return tuple(args), left


def mappings(keys, targets):
  """Injective mappings of the keys upon positions and names."""
  for vals in itertools.product(targets, repeat=len(keys)):
    real = [v for v in vals if v is not None]
    if len(set(real)) == len(real):
      yield tuple(zip(keys, vals))


def valid(mapping, isdelta, n_pos, names):
  """No position or name is given twice and no position is skipped."""
  ints = sorted(v for _, v in mapping if isinstance(v, int))
  if ints != list(range(n_pos, n_pos + len(ints))):
    return False
  gone = set()
  for key, _ in mapping:
    gone.add(key)
    if isdelta and key[-1] == "'":
      gone.add(key[:-1])
  strs = {v for _, v in mapping if isinstance(v, str)}
  return not strs & (set(names) - gone)


def call_through(cls, kind, arity, mapping, isdelta, n_con, con_kwds, n_call, style, ctx):
  """One mapped call, for each function wrapped."""
  mapping = dict(mapping)
  con = tuple(100 + i for i in range(n_con))
  arg = tuple(200 + i for i in range(n_call))
  keep = dict(mapping)
  tags = {'one': (None,), 'tuple': (0, 1), 'dict': ('a', 'b')}[arity]
  funcs = {t: recorder(kind, t) for t in tags}
  spec = funcs[None] if arity == 'one' else tuple(funcs.values()) if arity == 'tuple' else funcs
  kwds = {}
  for key in mapping:
    kwds[key] = VALUES[key]
    if isdelta and key[-1] == "'":
      kwds[key[:-1]] = VALUES[key[:-1]]
  kwds['w'] = VALUES['w']
  name = 'delta' if isdelta else 'order'
  con_kwds = dict(con_kwds)
  how = style[0]
  ways = []
  expr = make(cls, spec, *con, **con_kwds, **({name: mapping} if mapping and how == 'init' else {}))
  if mapping and how != 'init':
    (expr.set_delta if isdelta else expr.set_order)(mapping)
  ctx.step()
  # Expressions are called with what they are given now; functions keep what they were built with
  given = {**con_kwds, **kwds} if cls == 'Expression' else {**kwds, **con_kwds}
  want_args, want_kwds = remap(keep, isdelta, con + arg, given)
  order = tags if style[1] != 'reverse' else tags[::-1]
  handles = {t: expr if t is None else expr[t] for t in (order if style[1] == 'early' else ())}
  for tag in order:
    handle = handles.get(tag, expr if tag is None else expr[tag])
    if style[1] == 'early':
      handle = handles[tag]
    if style[2] == 'dict':
      got = handle(dict(kwds))
    elif style[2] == 'split':
      half = {k: v for k, v in kwds.items() if k != 'w'}
      got = handle(half, w=kwds['w'])
    else:
      got = handle(*arg, **kwds)
    ctx.step()
    want = (tag, want_args, tuple(sorted(want_kwds.items())))
    check(got == want, '{} of {} {}: function received {} and not {}', cls, arity, kind, got, want)
    ctx.outcome(got)
    ctx.state()
  check(mapping == keep, '{}: mapping altered from {} to {}', cls, keep, mapping)
  ctx.trace()


STYLES = [('init', 'late', 'kwds'), ('set', 'late', 'kwds'), ('init', 'early', 'kwds'),
          ('init', 'reverse', 'kwds'), ('init', 'late', 'dict'), ('set', 'early', 'dict'),
          ('init', 'late', 'split')]


def run_map(root, ctx):
  cls, mapping, isdelta = root
  kinds = ('def', 'lambda', 'object')
  for n_con, n_call in ((0, 0), (1, 0), (0, 1), (1, 1)):
    for con_kwds in ((), (('k', 5.),), (('w', 19.), ('k', 5.))) + ((((mapping[0][0], 23.),),) if mapping else ()):
      names = {'w', 'k'} | {k for k, _ in mapping}
      if isdelta:
        names |= {k[:-1] for k, _ in mapping if k[-1] == "'"}
      if con_kwds and con_kwds[0][0] != 'k' and len(mapping) > 2:
        continue
      if not valid(mapping, isdelta, n_con + n_call, names):
        continue
      for i, style in enumerate(STYLES):
        if style[2] != 'kwds' and (n_call or n_con):
          continue
        arities = ('one', 'tuple') if cls == 'Func' else ('one', 'tuple', 'dict')
        for j, arity in enumerate(arities):
          kind = kinds[(i + j) % 3]
          call_through(cls, kind, arity, mapping, isdelta, n_con, con_kwds, n_call, style, ctx)


def map_roots(tier):
  n = 3
  for cls in ('Expression', 'Func'):
    for size in range(0, n + 1):
      for keys in itertools.permutations(KEYS, size):
        if size == 3 and tier == 'quick' and keys not in (KEYS, KEYS[::-1]):
          continue
        for m in mappings(keys, TARGETS):
          yield (cls, m, False)
    dkeys = ("x'", "y'", "y", "z")
    for size in range(1, n + 1):
      for keys in itertools.permutations(dkeys, size):
        if "y'" in keys and "y" in keys:
          continue
        for m in mappings(keys, TARGETS if size < 3 or tier != 'quick' else
                          (None, 0, 1, 'x', 'y', 'u')):
          yield (cls, m, True)


# ------------------------------------------------------------------ refusals
def run_refuse(root, ctx):
  cls, what = root
  f, g = recorder('def', 0), recorder('def', 1)
  if what == 'both':
    e = make(cls, f, order={'x': 0})
    refused(lambda: e.set_delta({"x'": 0}), 'delta over order')
    ctx.step()
    check(e(x=1.)[1] == (1.,), 'a refused delta altered the calls')
    e.set_order(None)
    check(e(x=1.)[1:] == ((), (('x', 1.),)), 'a refused delta was kept: {}', e(x=1.))
    e = make(cls, f, delta={"x'": 0})
    refused(lambda: e.set_order({"x'": 0}), 'order over delta')
    e.set_delta(None)
    check(e(x=1.)[1:] == ((), (('x', 1.),)), 'a refused order was kept: {}', e(x=1.))
    refused(lambda: make(cls, f, order={'x': 0}, delta={"x'": 0}), 'order and delta')
  elif what == 'gap':
    for bad in ({'x': 0, 'y': 2}, {'x': 1, 'y': 3, 'z': 2, 'w': 5}):
      refused(lambda: make(cls, f, order=bad), 'positions with gaps')
      e = make(cls, f)
      refused(lambda: e.set_order(bad), 'positions with gaps')
      check(e(x=1.)[1:] == ((), (('x', 1.),)), 'a refused order was kept')
      refused(lambda: e.set_delta(bad), 'positions with gaps')
      check(e(x=1.)[1:] == ((), (('x', 1.),)), 'a refused delta was kept')
  elif what == 'type':
    for bad in ({'x': 1.5}, {'x': (0,)}, [('x', 0)], 'x', 3):
      refused(lambda: make(cls, f, order=bad), 'a mapping {}'.format(bad))
      refused(lambda: make(cls, f, delta=bad), 'a mapping {}'.format(bad))
      e = make(cls, f)
      refused(lambda: e.set_order(bad), 'a mapping {}'.format(bad))
      check(e(x=1.)[1:] == ((), (('x', 1.),)), 'a refused order was kept')
  elif what == 'missing':
    e = make(cls, f, order={'x': 0, 'y': 1})
    refused(lambda: e(x=1.), 'a call without an ordered argument')
    e = make(cls, f, delta={"x'": 0})
    refused(lambda: e(x=1.), 'a call without a successor')
    refused(lambda: e(**{"x'": 1.}), 'a call without a predecessor')
  elif what == 'multi':
    e = make(cls, (f, g))
    refused(lambda: e(1.), 'calling several functions at once')
    refused(lambda: e(), 'calling several functions at once')
    refused(lambda: e[2](1.), 'calling a third of two functions')
    e = make(cls, f)
    refused(lambda: e[0](1.), 'indexing a single function')
    if cls == 'Expression':
      e = make(cls, {'a': f, 'b': g})
      refused(lambda: e(1.), 'calling several functions at once')
      refused(lambda: e['c'](1.), 'calling an unknown key')
  elif what == 'mixed':
    refused(lambda: make(cls, (f, 1.)), 'a callable with a value')
    refused(lambda: make(cls, (1., f)), 'a value with a callable')
  elif what == 'values':
    for val in (3, 2.5, 'abc', np.arange(3.), [1, 2], None, True):
      refused(lambda: make(cls, val, 1.), 'arguments for a value')
      refused(lambda: make(cls, val, x=1.), 'keywords for a value')
      e = make(cls, val)
      refused(lambda: e(1.), 'calling a value with arguments')
      refused(lambda: e(x=1.), 'calling a value with keywords')
    e = make(cls, (1., 2.))
    refused(lambda: e[0](1.), 'calling a value with arguments')
  ctx.step(4)
  ctx.state()
  ctx.outcome((cls, what))
  ctx.trace()


# ------------------------------------------------------------------ values
SCALARS = (3, 2.5, 'abc', None, True, 0, -1., 'x,y')


def run_value(root, ctx):
  cls, form, vals = root
  same = lambda a, b: type(a) is type(b) and (np.array_equal(a, b) if isinstance(a, np.ndarray) else a == b)
  if form == 'array':
    vals = tuple(np.arange(float(n)) for n in vals)
  for many in ('one', 'tuple', 'dict'):
    if many == 'dict' and cls == 'Func':
      continue
    if many == 'one':
      for v in vals:
        e = make(cls, v)
        check(same(e(), v) and same(e(), v), '{}: value {!r} gives {!r}', cls, v, e())
      continue
    if many == 'tuple':
      e = make(cls, vals)
      pairs = [(i, v) for i, v in enumerate(vals)] + [(-1, vals[-1])]
    else:
      e = make(cls, {str(i): v for i, v in enumerate(vals)})
      pairs = [(str(i), v) for i, v in enumerate(vals)]
    handles = [e[k] for k, _ in pairs]
    for (k, v), h in zip(pairs, handles):
      check(same(h(), v), '{} {}: earlier handle {} gives {!r} and not {!r}', cls, many, k, h(), v)
      check(same(e[k](), v), '{} {}: item {} gives {!r} and not {!r}', cls, many, k, e[k](), v)
      ctx.state()
      ctx.step(2)
  ctx.outcome(repr(vals))
  ctx.trace()


# ------------------------------------------------------------------ histories
SPECS = {'f': ('one', None), 'fo': ('one', ('order', (('x', 'y'), ('y', 'x')))),
         'fp': ('one', ('order', (('x', 0),))),
         'fd': ('one', ('delta', (("x'", 'x'),))), 't': ('tuple', None),
         'to': ('tuple', ('order', (('x', 'y'), ('y', 'x')))), 'v': ('value', None)}


class Model:
  def __init__(self, name):
    self.arity, mapping = SPECS[name]
    self.order = dict(mapping[1]) if mapping and mapping[0] == 'order' else None
    self.delta = dict(mapping[1]) if mapping and mapping[0] == 'delta' else None


def ops_of(m):
  out = [('set', s) for s in SPECS]
  if m is None:
    return out
  if m.arity != 'value':
    out += [('order', None), ('order', (('y', 0),)), ('order', (('x', 'y'), ('y', 'x'))),
            ('delta', None), ('delta', (("x'", 0),))]
  if m.arity == 'tuple':
    out += [('get', 0), ('get', 1), ('get', -1)]
  out += [('boom',)]
  return out


CALLKW = {'x': 2., 'y': 3., "x'": 7.}


def probe(e, m, handles, what, ctx):
  """Every call possible in this state gives what the model says."""
  mapping = m.order or m.delta or {}
  if m.arity == 'value':
    check(e() == 4.5, '{}: value {!r}', what, e())
    ctx.step()
    return
  args, kwds = remap(mapping, bool(m.delta), (), CALLKW)
  for tag, h in ([(None, e)] if m.arity == 'one' else
                 handles + [(0, e[0]), (1, e[1]), (-1, e[-1])]):
    name = {-1: 1}.get(tag, tag)
    got = h(**CALLKW)
    ctx.step()
    check(got == (name, args, tuple(sorted(kwds.items()))),
          '{}: handle {} gives {} and not {}', what, tag, got, (name, args, kwds))
    ctx.outcome(got)
  ctx.state()


def build(cls, name, e=None):
  arity, mapping = SPECS[name]
  spec = {'one': recorder('def', None), 'tuple': (recorder('def', 0), recorder('def', 1)),
          'value': 4.5}[arity]
  kw = {mapping[0]: dict(mapping[1])} if mapping else {}
  if e is None:
    return make(cls, spec, **kw)
  (e.set_func if cls == 'Func' else e.set_expr)(spec, **kw)
  return e


def play(cls, hist, ctx):
  e, m, handles = None, None, []
  for op in hist:
    if op[0] == 'set':
      e = build(cls, op[1], e)
      m, handles = Model(op[1]), []
    elif op[0] == 'get':
      handles.append((op[1], e[op[1]]))
    elif op[0] in ('order', 'delta'):
      mapping = None if op[1] is None else dict(op[1])
      setter = e.set_order if op[0] == 'order' else e.set_delta
      clash = (m.delta if op[0] == 'order' else m.order) is not None and mapping is not None
      if clash:
        refused(lambda: setter(mapping), 'a second mapping')
      else:
        setter(mapping)
        setattr(m, op[0], mapping)
    elif op[0] == 'boom':
      h = e if m.arity != 'tuple' else e[0]
      try:
        h('boom')
      except (RuntimeError, AssertionError, KeyError):
        pass
      else:
        raise Violation('{}: a failing call went unnoticed'.format(hist))
    ctx.step()
  return e, m, handles


def run_history(root, ctx):
  cls, start, depth = root
  stack = [(('set', start),)]
  while stack:
    hist = stack.pop()
    e, m, handles = play(cls, hist, ctx)
    probe(e, m, handles, (cls, hist), ctx)
    ctx.trace()
    if len(hist) < depth:
      for op in ops_of(m):
        stack.append(hist + (op,))


# ------------------------------------------------------------------ calls in composite
def run_len(root, ctx):
  """Boolean value and representation never fail."""
  cls, form = root
  spec = {'one': recorder('def', 0), 'tuple': (recorder('def', 0), recorder('def', 1)),
          'value': 3.}[form]
  e = make(cls, spec)
  check(isinstance(repr(e), str), 'no representation')
  ctx.step()
  ctx.state()
  ctx.trace()


def spaces(tier):
  maps = list(map_roots(tier))
  out = [Space('mapped calls', maps, run_map,
               'every injective mapping of up to 3 arguments upon positions 0-2, names and None, '
               'given as order or delta, for one/tuple/dict of def, lambda and object callables, '
               'with 0-1 bound and 0-1 given positional arguments and every way of calling')]
  out.append(Space('refusals', [(c, w) for c in ('Expression', 'Func')
                                for w in ('both', 'gap', 'type', 'missing', 'multi', 'mixed', 'values')],
                   run_refuse, 'every kind of invalid mapping, call and set of functions, with the state after it'))
  vals = [(c, 'scalar', v) for c in ('Expression', 'Func') for n in (1, 2, 3)
          for v in itertools.permutations((3, 2.5, 0, -1.), n)]
  vals += [(c, 'array', v) for c in ('Expression', 'Func') for v in ((1,), (2, 3), (3, 3, 1))]
  vals += [(c, 'text', v) for c in ('Expression', 'Func') for v in (('abc', 'x'), ('', 'x,y', 'z'))]
  out.append(Space('values', vals, run_value, 'tuples and dictionaries of up to 3 uncallable values'))
  depth = 4 if tier == 'quick' else 5
  out.append(Space('histories', [(c, s, depth) for c in ('Expression', 'Func') for s in SPECS],
                   run_history, 'all sequences of up to {} replacements, remappings, indexings and failing '
                   'calls, each followed by every call possible'.format(depth)))
  return out
