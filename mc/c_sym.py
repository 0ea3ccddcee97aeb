"""Symbolic expressions: evaluation, inversion, differentiation and renaming."""
import itertools
import math
import numbers

import numpy as np
import sympy

from mc.core import Space, Violation, check
from mc import table as T

PROPERTY = 'P19'
CHUNK = 2
ASSUMPTIONS = ['values are real and away from singularities of the expression',
               'positional values follow the order of the symbols property',
               'agreement to 1e-9 relative with direct evaluation of the expression tree']

UNARY = {'neg': (lambda a: -a, lambda a: -a), 'sq': (lambda a: a ** 2, lambda a: a * a),
         'exp': (sympy.exp, np.exp), 'sin': (sympy.sin, np.sin),
         'abs': (sympy.Abs, np.abs)}
BINARY = {'add': (lambda a, b: a + b, lambda a, b: a + b),
          'mul': (lambda a, b: a * b, lambda a, b: a * b),
          'sub': (lambda a, b: a - b, lambda a, b: a - b),
          'quo': (lambda a, b: a / (1 + b ** 2), lambda a, b: a / (1. + b * b))}
CONST = {'3': (sympy.Integer(3), 3.), 'h': (sympy.Rational(1, 2), .5)}


def build(tree, syms):
  if isinstance(tree, str):
    return CONST[tree][0] if tree in CONST else syms[tree]
  if len(tree) == 2:
    return UNARY[tree[0]][0](build(tree[1], syms))
  return BINARY[tree[0]][0](build(tree[1], syms), build(tree[2], syms))


def value(tree, vals):
  if isinstance(tree, str):
    return CONST[tree][1] if tree in CONST else vals[tree]
  if len(tree) == 2:
    return UNARY[tree[0]][1](value(tree[1], vals))
  return BINARY[tree[0]][1](value(tree[1], vals), value(tree[2], vals))


def leaves(tree):
  if isinstance(tree, str):
    return [] if tree in CONST else [tree]
  return [l for t in tree[1:] for l in leaves(t)]


def as_float(v):
  return np.asarray(v).astype(float)


ARR = {'x': np.array([-1., 0., .5]), 'y': np.array([2., -.25, 1.]), 'z': np.array([1., .75, -2.])}
SCALAR = {'int': (2, -1, 3), 'float': (.5, -1.25, 2.), 'bool': (True, True, False),
          'npfloat': (np.float64(.5), np.float64(-2.), np.float64(1.5)),
          'npint': (np.int64(2), np.int64(-3), np.int64(1)), 'npbool': (np.True_, np.False_, np.True_)}


def assignments(names):
  """Every way of giving values to up to 3 symbols."""
  n = len(names)
  for kind, vals in SCALAR.items():
    yield kind, dict(zip(names, vals))
  if n > 1:
    yield 'mixed scalars', dict(zip(names, (2, .5, True)))
  yield 'vectors', {k: ARR[k].copy() for k in names}
  yield 'integer vectors', {k: np.array([1, -2, 3])[::1 - 2 * (i % 2)].copy() for i, k in enumerate(names)}
  yield 'boolean vectors', {k: np.array([True, False, True, True])[i:].repeat(2)[:2]
                            for i, k in enumerate(names)}
  yield 'length one', {k: ARR[k][:1].copy() for k in names}
  for perm in itertools.permutations(range(n)):
    if n == 1:
      yield 'column', {names[0]: ARR[names[0]].reshape(3, 1)}
      continue
    out = {}
    for i, k in enumerate(names):
      shape = [1] * n
      shape[perm[i]] = 2 + (i % 2)
      out[k] = ARR[k][:2 + (i % 2)].reshape(shape)
    yield 'grid', out
  if n > 1:
    for subset in itertools.product((0, 1), repeat=n):
      if 0 < sum(subset) < n:
        yield 'partly scalar', {k: ARR[k].copy() if s else .75 for k, s in zip(names, subset)}
        yield 'partly single', {k: ARR[k].copy() if s else np.array([.75]) for k, s in zip(names, subset)}


def calls_of(e, syms, vals):
  """Every form of a call: by name, by symbol, mixed and by position."""
  named = {str(syms[k].name): v for k, v in vals.items()}
  bysym = {syms[k]: v for k, v in vals.items()}
  yield 'dict', lambda: e(dict(named))
  yield 'symbols', lambda: e(dict(bysym))
  yield 'keywords', lambda: e(**named)
  if len(vals) > 1:
    first = next(iter(vals))
    rest = {k: v for k, v in named.items() if k != syms[first].name}
    yield 'dict and keywords', lambda: e({syms[first]: vals[first]}, **rest)
    yield 'two dicts', lambda: e({syms[first].name: vals[first]}, rest)
  yield 'superfluous', lambda: e({**named, '_other_': 3.})
  if len(e.symbols) == len(vals):
    back = {syms[k].name: k for k in vals}
    yield 'positional', lambda: e(*[vals[back[name]] for name in e.symbols])


def judge(got, want, vals, what):
  if any(isinstance(v, np.ndarray) for v in vals.values()):
    check(isinstance(got, np.ndarray), '{}: array values give {!r}', what, got)
    check(got.shape == want.shape, '{}: shape {} and not {}', what, got.shape, want.shape)
  else:
    check(isinstance(got, numbers.Number) and not isinstance(got, sympy.Basic),
          '{}: scalars give {!r} of type {}', what, got, type(got))
  check(np.allclose(as_float(got), want, rtol=1e-9, atol=1e-12), '{}: {} and not {}', what, got, want)


NAMES = {'plain': ('x', 'y', 'z'), 'primed': ("x'", 'x', "y'"), 'greek': ('beta', 'gamma', 'lambda'),
         'clash': ('N', 'I', 'S'), 'index': ('x_1', 'x_0', 'x_10')}


def symbols_of(naming, assume):
  return {k: sympy.Symbol(n, **dict(assume)) for k, n in zip('xyz', NAMES[naming])}


def run_eval(root, ctx):
  import probayes as pb
  tree, naming, assume, wrap = root
  syms = symbols_of(naming, assume)
  sym_expr = build(tree, syms)
  e = pb.Expr(sym_expr) if wrap == 'Expr' else pb.Expression(sym_expr)
  ctx.step()
  names = sorted(k for k in syms if syms[k] in sym_expr.free_symbols)
  check(set(e.symbols) == {syms[k].name for k in names}, 'symbols {} of {}', list(e.symbols), sym_expr)
  for what, vals in assignments(names):
    if ('integer', True) in assume and any(np.any(as_float(v) % 1) for v in vals.values()):
      continue
    keep = {k: np.copy(v) for k, v in vals.items()}
    want = as_float(value(tree, {k: as_float(v) for k, v in vals.items()}))
    for form, call in calls_of(e, syms, vals):
      got = call()
      ctx.step()
      judge(got, want, vals, (str(sym_expr), what, form))
      ctx.outcome(repr(np.round(as_float(got), 6).tolist()))
      check(all(np.array_equal(keep[k], vals[k]) for k in vals), '{} {}: values altered', sym_expr, what)
    ctx.state()
  ctx.trace()
  if wrap == 'Expr' and not assume:
    run_rename((tree, naming), ctx)


def trees(tier):
  out = [(u, 'x') for u in UNARY]
  out += [(b, l, r) for b in BINARY for l, r in
          (('x', 'y'), ('x', 'h'), ('3', 'x'))]
  out += [(u, (b, 'x', 'y')) for u in UNARY for b in BINARY if tier != 'quick' or u in ('exp', 'abs')]
  out += [(b, (u, 'x'), 'y') for u in UNARY for b in BINARY if tier != 'quick' or b in ('mul', 'quo')]
  out += [(b, (c, 'x', 'y'), 'z') for b in BINARY for c in BINARY if tier != 'quick' or b == c]
  if tier != 'quick':
    out += [(b, 'x', (c, 'y', 'z')) for b in BINARY for c in BINARY]
    out += [(b, (u, 'x'), (v, 'y')) for b in BINARY for u in UNARY for v in UNARY]
    out += [(u, (v, 'x')) for u in UNARY for v in UNARY]
  return out


SOME = (('sub', 'x', 'y'), ('quo', ('sq', 'x'), 'y'), ('mul', ('sub', 'x', 'y'), 'z'), ('exp', 'x'))
ASSUME = ((('real', True),), (('positive', True),), (('integer', True),), ())


# ------------------------------------------------------------------ inversion
def pair(fwd, inv, dom, der):
  return fwd, inv, dom, der


INVERTIBLE = {
    'x': (lambda x: x, lambda v: v, (-1.5, .25, 3.), lambda v: 1.),
    '2x+1': (lambda x: 2 * x + 1, lambda v: 2 * v + 1, (-1.5, .25, 3.), lambda v: 2.),
    '1-x/4': (lambda x: 1 - x / 4, lambda v: 1 - v / 4, (-1.5, .25, 3.), lambda v: -.25),
    'exp': (sympy.exp, math.exp, (-1.5, .25, 2.), math.exp),
    'log': (sympy.log, math.log, (.25, 1., 3.), lambda v: 1. / v),
    'log1p': (lambda x: sympy.log(1 + 3 * x), lambda v: math.log(1 + 3 * v), (-.25, 0., 3.), lambda v: 3. / (1 + 3 * v)),
    'sqrt': (sympy.sqrt, math.sqrt, (.25, 1., 3.), lambda v: .5 / math.sqrt(v)),
    'sq': (lambda x: x ** 2, lambda v: v * v, (.25, 1., 3.), lambda v: 2 * v),
    'recip': (lambda x: 1 / x, lambda v: 1. / v, (-2., .25, 3.), lambda v: -1. / v ** 2),
    'exp2': (lambda x: sympy.exp(-2 * x), lambda v: math.exp(-2 * v), (-1., .25, 1.), lambda v: -2 * math.exp(-2 * v)),
    'logit': (lambda x: sympy.log(x / (1 - x)), lambda v: math.log(v / (1 - v)), (.125, .5, .75),
              lambda v: 1. / (v * (1 - v))),
    'cube': (lambda x: x ** 3, lambda v: v ** 3, (.25, 1., 2.), lambda v: 3 * v * v),
}
ONE_TO_ONE = {k for k in INVERTIBLE if k not in ('sq',)}


def check_invertible(e, name, symname, ctx):
  fwd, num, dom, der = INVERTIBLE[name]
  what = (name, symname)
  for form in ('scalar', 'array', 'named'):
    pts = [np.array(dom)] if form == 'array' else list(dom)
    for v in pts:
      arg = (v,) if form != 'named' else ({symname: v},)
      w = e[0](*arg)
      ctx.step(4)
      want = np.vectorize(num)(v)
      check(np.allclose(as_float(w), want, rtol=1e-9), '{}: forward {} gives {}', what, v, w)
      check(np.allclose(as_float(e[None](*arg)), want, rtol=1e-9), '{}: call gives {}', what, e[None](*arg))
      back = e[1](w)
      check(np.allclose(as_float(back), v, rtol=1e-8, atol=1e-9),
            '{}: inverse of {} gives {} and not {}', what, w, back, v)
      check(np.allclose(as_float(e[-1](w)), v, rtol=1e-8, atol=1e-9), '{}: last is not the inverse', what)
      rate = e.derinv({symname: v})
      check(np.allclose(as_float(rate), np.vectorize(der)(v), rtol=1e-8),
            '{}: derivative at {} is {}', what, v, rate)
      ctx.state()
      ctx.outcome(repr(np.round(as_float(back), 6).tolist()))


def run_invert(root, ctx):
  """Sequences of expressions set upon the same object."""
  import probayes as pb
  names, symname = root
  e = None
  x = sympy.Symbol(symname)
  for name in names:
    inv = name in INVERTIBLE
    args = (INVERTIBLE[name][0](x),) if inv else \
        {'plain': (x * 2,), 'tuple': ((sympy.exp(x), sympy.log(x)),), 'value': (3.,),
         'func': (math.exp,), 'none': (None,)}[name]
    kwds = {'invertible': True} if inv else {}
    if e is None:
      e = pb.Expression(*args, **kwds)
    else:
      e.set_expr(*args, **kwds)
    ctx.step()
    if inv:
      check_invertible(e, name, symname, ctx)
      continue
    check(e.derinv is None and e.invexpr is None and e.inverse is None and not e.invertible,
          '{}: an inverse or derivative of an earlier expression remains', names)
    if name == 'plain':
      check(e(3.) == 6., '{}: gives {}', names, e(3.))
    elif name == 'tuple':
      check(T.close(e[0](1.), math.e) and T.close(e[1](math.e), 1.) and T.close(e[-1](math.e), 1.),
            '{}: tuple of expressions', names)
    elif name == 'value':
      check(e() == 3., '{}: gives {}', names, e())
    elif name == 'func':
      check(e(1.) == math.e, '{}: gives {}', names, e(1.))
    else:
      check(e() is None, '{}: gives {}', names, e())
    ctx.state()
  ctx.trace()


def run_inverts(root, ctx):
  """All the sequences that begin with, or lead to, one expression."""
  name, symname, tier = root
  run_invert(((name,), symname), ctx)
  if symname != 'x':
    return
  others = ['plain', 'tuple', 'value', 'func', 'none']
  seqs = [(name, b) for b in others] + [(b, name) for b in others]
  more = [a for a in INVERTIBLE if a != name and (tier != 'quick' or a in ('x', '2x+1'))]
  seqs += [(name, a) for a in more] + [(a, name) for a in more]
  seqs += [(name, b, '2x+1') for b in others] + [(b, name, c) for b in others for c in others]
  for seq in seqs:
    run_invert((seq, symname), ctx)


def run_replace(root, ctx):
  """An expression object whose expression is replaced."""
  import probayes as pb
  syms = symbols_of('plain', ())
  e = None
  for tree in root:
    expr = build(tree, syms)
    if e is None:
      e = pb.Expr(expr)
    else:
      e.expr = expr
    names = sorted(k for k in syms if syms[k] in expr.free_symbols)
    check(e[:] == expr and e.expr == expr and repr(e) == repr(expr), '{}: expression {}', root, e)
    check(set(e.symbols) == {syms[k].name for k in names}, '{}: symbols {}', root, list(e.symbols))
    check(e.free_symbols == expr.free_symbols and e.args == expr.args, '{}: attributes of {}', root, e)
    for what, vals in assignments(names):
      if what not in ('float', 'vectors', 'integer vectors', 'int'):
        continue
      want = as_float(value(tree, {k: as_float(v) for k, v in vals.items()}))
      judge(e({syms[k]: v for k, v in vals.items()}), want, vals, (root, what))
      judge(e.subs({syms[k]: float(v) for k, v in vals.items()}) if what == 'float' else
            e({syms[k]: v for k, v in vals.items()}),
            want, vals, (root, what)) if what != 'float' else check(
                T.close(float(e.subs({syms[k]: float(v) for k, v in vals.items()})), float(want)),
                '{}: substitution gives another value', root)
      ctx.step(2)
      ctx.state()
  ctx.trace()


# ------------------------------------------------------------------ renaming
def run_rename(root, ctx):
  """Real substitution, its reversal and simplification keep the value."""
  import probayes as pb
  tree, naming = root
  syms = symbols_of(naming, ())
  expr = build(tree, syms)
  e = pb.Expr(expr)
  real = e.subre()
  check(all(s.is_real for s in real.free_symbols), '{}: {} is not real', expr, real)
  check(len(real.free_symbols) == len(expr.free_symbols), '{}: symbols of {}', expr, real)
  again = e.resub(real)
  simple = e.simplify()
  names = sorted(k for k in syms if syms[k] in expr.free_symbols)
  # other formulas of the same symbols, of none and of foreign ones
  own = [syms[k] for k in names]
  foreign = sympy.Symbol('w_')
  for other in [sympy.Integer(0), sympy.Integer(3), foreign, sum(own, sympy.Integer(1)), sum(own) * foreign,
                sympy.prod(own) - 2] + own:
    left = e.subre(other)
    check(not left.free_symbols & set(own), '{}: {} of {} is not real', expr, left, other)
    for back in (e.resub(left), e.simplify(other)):
      check(sympy.simplify(back - other) == 0, '{}: {} became {}', expr, other, back)
    ctx.step(2)
  check(e[:] == expr, '{} became {}', expr, e[:])
  for what, vals in assignments(names):
    if any(isinstance(v, np.ndarray) for v in vals.values()):
      continue
    want = float(value(tree, {k: float(v) for k, v in vals.items()}))
    for form in (again, simple, e[:]):
      check(form.free_symbols <= set(syms.values()), '{}: {} has other symbols', expr, form)
      got = float(form.subs({syms[k]: float(v) for k, v in vals.items()}))
      check(T.close(got, want, 1e-9, 1e-12), '{}: {} gives {} and not {}', expr, form, got, want)
      ctx.step()
    if len(names) > 1:
      mapping = {'_p_': syms[names[0]].name, '_q_': syms[names[1]].name}
      other = pb.Expr(expr, remap=mapping)
      named = {'_p_': vals[names[0]], '_q_': vals[names[1]]}
      named.update({syms[k].name: vals[k] for k in names[2:]})
      for got in (other(named), other(**named)):
        check(T.close(float(got), want, 1e-9, 1e-12), '{}: renamed gives {} and not {}', expr, got, want)
    ctx.state()
  ctx.trace()


# ------------------------------------------------------------------ icons
def run_icon(root, ctx):
  import probayes as pb
  name, assume, what = root
  kw = dict(assume)
  sym = sympy.Symbol(name, **kw)
  if what == 'name':
    icon = pb.Icon(name, **kw)
  elif what == 'symbol':
    icon = pb.Icon(sym)
  elif what == 'reset':
    icon = pb.Icon('other')
    icon.set_icon(name, **kw)
  else:
    icon = pb.Variable(name, vtype=float)
    sym = sympy.Symbol(name)
    kw.pop('integer', None)
  check(icon[:] == sym, '{}: symbol {}', root, icon[:])
  if what == 'variable':
    check(~icon == sym, '{}: symbol {}', root, ~icon)
    e = pb.Expr(2 * icon[:] + 1)
    for key in (icon, icon[:], name):
      check(T.close(e({key: .25}), 1.5), '{}: evaluated with {}', root, key)
    check(icon.dexpr is None, '{}: deterministic expression {}', root, icon.dexpr)
    icon.dexpr = 3 * sym
    check(icon.dexpr == 3 * sym and icon[:] == 3 * sym and ~icon == sym and icon.name == name,
          '{}: deterministic expression {}', root, icon.dexpr)
    icon.dexpr = None
    check(icon[:] == sym and icon.dexpr is None, '{}: deterministic expression remains', root)
    var = pb.Variable(name, vtype=float, **kw)
    check(var[:] == sympy.Symbol(name, **kw), '{}: symbol {}', root, var[:])
    e = pb.Expr(2 * var[:] + 1)
    for key in (var, var[:], name):
      check(T.close(e({key: .25}), 1.5), '{}: evaluated with {}', root, key)
  else:
    check(repr(icon) == repr(sym) and hash(icon) == hash(sym) and icon.name == name, '{}: attributes', root)
    check(icon.free_symbols == {sym}, '{}: free symbols {}', root, icon.free_symbols)
    for bad in (3, 2.5, None, ['x']):
      try:
        pb.Icon(bad)
      except TypeError:
        continue
      raise Violation('Icon({!r}) accepted'.format(bad))
  ctx.step(4)
  ctx.state()
  ctx.outcome(root)
  ctx.trace()


def spaces(tier):
  roots = [(t, 'plain', (), w) for t in trees(tier) for w in ('Expr',)]
  roots += [(t, 'plain', (), 'Expression') for t in SOME]
  roots += [(t, 'plain', a, 'Expr') for t in SOME for a in ASSUME[:3]]
  roots += [(t, n, (), 'Expr') for t in SOME for n in NAMES if n != 'plain']
  out = [Space('evaluation', roots, run_eval,
               'all expression trees of the listed shapes over 5 unary and 4 binary operations and up to '
               '3 symbols, under every naming and assumption, with every kind of value and call; then real substitution, its reversal, '
               'simplification and remapping')]
  inv = list(INVERTIBLE)
  hist = [(a, s, tier) for s in ('x', "x'", 'N') for a in inv]
  out.append(Space('inversion', hist, run_inverts,
                   'every invertible expression alone and in sequences of up to 3 replacements'))
  seq = [('exp', 'x'), ('mul', 'x', 'y'), ('sub', 'x', 'y'), ('add', '3', 'x')]
  out.append(Space('replacement', list(itertools.permutations(seq, 2)) + list(itertools.permutations(seq, 3))[::1 if tier != 'quick' else 3],
                   run_replace, 'sequences of 2 and 3 expressions set upon the same object'))
  icons = [(n, a, w) for n in ('x', "x'", 'beta', 'N', 'x_1') for a in ASSUME
           for w in ('name', 'symbol', 'reset')]
  icons += [(n, a, 'variable') for a in ASSUME for n in ('x', 'beta', 'N', 'x_1')]
  out.append(Space('icons', icons, run_icon, 'symbols by name, object and variable'))
  return out
