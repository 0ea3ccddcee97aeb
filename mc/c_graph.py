"""Composition of variables into fields and dependences, and functionals."""
import itertools

import numpy as np
import sympy

from mc.core import Space, Violation, check
from mc import table as T

PROPERTY = 'P20'
CHUNK = 16
ASSUMPTIONS = ['an operation may be refused only when an operand is already conditional',
               'names of variables are identifiers']


def classes(kind):
  import probayes as pb
  return (pb.Variable, pb.Field, pb.Dependence) if kind == 'Variable' else (pb.RV, pb.RF, pb.SD)


def make(kind, name):
  cls = classes(kind)[0]
  return cls(name, vtype=int, vset=[0, 1, 2]) if name in 'ac' else cls(name, vtype=float, vset=[0., 1.]) \
      if name in 'bd' else cls(name, vtype=bool)


# ------------------------------------------------------------------ model
class Node:
  """What a composition amounts to: ordered leafs, ordered roots, edges."""

  def __init__(self, leafs, roots=(), edges=frozenset(), variables=None, ordered=True):
    self.leafs, self.roots, self.edges = tuple(leafs), tuple(roots), frozenset(edges)
    self.variables = tuple(variables) if variables is not None else self.leafs + self.roots
    self.ordered = ordered
    self.dep = bool(self.edges)


def uniq(seq):
  return tuple(dict.fromkeys(seq))


def combine(op, a, b):
  """(model, obligatory); None if the result is not specified."""
  if not a.dep and not b.dep:
    if op == '&':
      return Node(uniq(a.leafs + b.leafs)), True
    if set(a.leafs) & set(b.leafs):
      return None, False
    return Node(a.leafs, b.leafs, {(r, l) for r in b.leafs for l in a.leafs}), True
  if op == '|':
    return None, False
  if not a.dep:
    if set(a.leafs) & set(b.variables) or len(b.variables) != len(b.leafs + b.roots) or \
        b.edges != {(r, l) for r in b.roots for l in b.leafs}:
      return None, False
    leafs = a.leafs + b.leafs
    return Node(leafs, b.roots, {(r, l) for r in b.roots for l in leafs}, ordered=b.ordered), True
  if not b.dep:
    return None, False
  edges = a.edges | b.edges
  names = uniq(a.variables + b.variables)
  if cyclic(edges):
    return None, False
  kids = {l for _, l in edges}
  tops = {r for r, _ in edges}
  return Node([n for n in names if n not in tops], [n for n in names if n in tops and n not in kids],
              edges, names, ordered=False), True


def cyclic(edges):
  left = set(edges)
  while left:
    kids = {l for _, l in left}
    free = {e for e in left if e[0] not in kids}
    if not free:
      return True
    left -= free
  return False


def shape_of(obj):
  roots = getattr(obj, 'roots', None)
  edges = {(a.name, b.name) for a, b in obj.edges} if hasattr(obj, 'edges') and roots else set()
  return (obj.name, tuple(obj.keylist) if hasattr(obj, 'keylist') else (obj.name,),
          tuple(obj.leafs.keylist) if hasattr(obj, 'leafs') else (obj.name,),
          tuple(roots.keylist) if roots else (), frozenset(edges))


def judge(obj, model, variables, kind, what):
  cls = classes(kind)
  check(type(obj) is (cls[2] if model.dep else cls[1]), '{}: gives a {}', what, type(obj))
  name, keys, leafs, roots, edges = shape_of(obj)
  eq = (lambda a, b: tuple(a) == tuple(b)) if model.ordered else (lambda a, b: sorted(a) == sorted(b))
  check(eq(leafs, model.leafs), '{}: leafs {} and not {}', what, leafs, model.leafs)
  check(eq(roots, model.roots), '{}: roots {} and not {}', what, roots, model.roots)
  check(eq(keys, model.variables), '{}: variables {} and not {}', what, keys, model.variables)
  check(edges == model.edges, '{}: edges {} and not {}', what, sorted(edges), sorted(model.edges))
  want = ','.join(leafs) + ('|' + ','.join(roots) if roots else '')
  check(name == want, '{}: name {} and not {}', what, name, want)
  check(len(obj) == obj.nvars == len(model.variables) and bool(obj), '{}: length {}', what, len(obj))
  check(set(obj.keyset) == set(model.variables), '{}: key set {}', what, obj.keyset)
  for k, v in obj.vars.items():
    check(v is variables[k], '{}: {} is another variable', what, k)
  check([v.name for v in obj.varlist] == list(keys), '{}: list of variables {}', what, obj.varlist)


def loose(obj, left, right, variables, what):
  """What holds of any composition that is not refused."""
  name, keys, leafs, roots, edges = shape_of(obj)
  due = set(shape_of(left)[1]) | set(shape_of(right)[1])
  check(len(keys) == len(set(keys)) and set(keys) == due, '{}: variables {} and not {}', what, keys, sorted(due))
  check(all(v is variables[k] for k, v in obj.vars.items()), '{}: other variables', what)
  check(not set(leafs) & set(roots) and set(leafs) | set(roots) <= due, '{}: leafs {} and roots {}', what, leafs, roots)
  check(not cyclic(edges) and all(a in due and b in due for a, b in edges), '{}: edges {}', what, sorted(edges))
  check(not {a for a, _ in edges} & set(leafs) and not {b for _, b in edges} & set(roots),
        '{}: edges {} of leafs {} and roots {}', what, sorted(edges), leafs, roots)


# ------------------------------------------------------------------ operators
def shapes(n):
  """All binary trees with n leaves."""
  if n == 1:
    yield None
    return
  for i in range(1, n):
    for l in shapes(i):
      for r in shapes(n - i):
        yield (l, r)


def label(shape, names, ops):
  if shape is None:
    return names.pop(0)
  left = label(shape[0], names, ops)
  op = ops.pop(0)
  return (op, left, label(shape[1], names, ops))


def expressions(n, letters):
  for shape in shapes(n):
    for ops in itertools.product('&|', repeat=n - 1):
      for names in letters:
        yield label(shape, list(names), list(ops))


def evaluate(tree, kind, variables, log, ctx):
  """(object, model); None as soon as something is refused or unspecified."""
  if isinstance(tree, str):
    return variables[tree], Node([tree])
  left = evaluate(tree[1], kind, variables, log, ctx)
  right = evaluate(tree[2], kind, variables, log, ctx) if left else None
  if not left or not right:
    return None
  model, must = combine(tree[0], left[1], right[1])
  try:
    obj = left[0] & right[0] if tree[0] == '&' else left[0] | right[0]
  except (AssertionError, TypeError, ValueError):
    if must:
      raise
    obj = None
    ctx.note('refused')
  ctx.step()
  for o, s in log:
    check(shape_of(o) == s, '{}: operand altered from {} to {}', tree, s, shape_of(o))
  if obj is not None and model is None:
    loose(obj, left[0], right[0], variables, tree)
  if obj is None or model is None:
    return None
  judge(obj, model, variables, kind, tree)
  log.append((obj, shape_of(obj)))
  ctx.state()
  ctx.outcome(shape_of(obj)[:2])
  return obj, model


def run_ops(root, ctx):
  kind, tree = root
  variables = {k: make(kind, k) for k in 'abcde'}
  log = [(v, shape_of(v)) for v in variables.values()]
  evaluate(tree, kind, variables, log, ctx)
  ctx.trace()


# ------------------------------------------------------------------ constructors
def run_make(root, ctx):
  kind, names, form = root
  cls = classes(kind)
  variables = {k: make(kind, k) for k in names}
  vs = list(variables.values())
  model = Node(names)
  if form == 'args':
    obj = cls[1](*vs)
  elif form == 'list':
    obj = cls[1](vs)
  elif form == 'tuple':
    obj = cls[1](tuple(vs))
  elif form == 'set':
    obj = cls[1](set(vs))
    model.ordered = False
  elif form == 'field':
    first = cls[1](*vs)
    obj = cls[1](first)
    check(obj is not first, 'the same field')
    judge(first, model, variables, kind, (root, 'first'))
  elif form == 'grow':
    obj = cls[1](vs[0])
    for i, v in enumerate(vs[1:]):
      judge(obj, Node(names[:i + 1]), variables, kind, (root, i))
      obj.add_var(v)
  elif form == 'grow-list':
    obj = cls[1](vs[0])
    if len(vs) > 1:
      obj.add_var(vs[1:])
  elif form == 'grow-field':
    obj = cls[1](vs[0])
    if len(vs) > 1:
      obj.add_var(cls[1](*vs[1:]))
  else:
    obj = cls[2](*[cls[1](*[variables[k] for k in part]) if len(part) > 1 or form == 'dep-fields' else variables[part]
                   for part in split(names, form)])
    parts = split(names, form)
    if len(parts) > 1:
      leafs = ''.join(parts[:-1])
      model = Node(leafs, parts[-1], {(r, l) for r in parts[-1] for l in leafs})
  ctx.step()
  if form.startswith('dep') and len(split(names, form)) == 1:
    check(type(obj) is cls[2] and obj.name == ','.join(names) and not obj.roots and
          tuple(obj.leafs.keylist) == names, '{}: {}', root, shape_of(obj))
  else:
    judge(obj, model, variables, kind, root)
  if form in ('args', 'grow'):
    before = shape_of(obj)
    for bad in ([vs[0]], vs[0], 'x', 3, [3], [vs[-1], 'z']):
      try:
        obj.add_var(bad)
      except (AssertionError, TypeError):
        pass
      else:
        raise Violation('{}: addition of {} accepted'.format(root, bad))
      check(shape_of(obj) == before, '{}: altered by the refused {}', root, bad)
      ctx.step()
    for bad in ('x', 3, [3]):
      try:
        cls[1](*vs, bad)
      except (AssertionError, TypeError):
        pass
      else:
        raise Violation('{}: {} accepted'.format(root, bad))
  ctx.state()
  ctx.outcome(shape_of(obj)[:2])
  ctx.trace()


def run_network(root, ctx):
  """A dependence made out of several at once is what they are taken together."""
  kind, parts = root
  cls = classes(kind)
  variables = {k: make(kind, k) for k in 'abcde'}
  deps, edges = [], set()
  for leafs, roots in parts:
    deps.append(cls[2](cls[1](*[variables[k] for k in leafs]), cls[1](*[variables[k] for k in roots])))
    edges |= {(r, l) for r in roots for l in leafs}
  before = [shape_of(d) for d in deps]
  if cyclic(edges):
    model = None
  else:
    names = uniq(''.join(l for l, _ in parts) + ''.join(r for _, r in parts))
    kids, tops = {l for _, l in edges}, {r for r, _ in edges}
    model = Node([n for n in names if n not in tops], [n for n in names if n in tops and n not in kids], edges, names, ordered=False)
  try:
    obj = cls[2](*deps)
  except (AssertionError, TypeError, ValueError):
    if model is not None:
      raise
    ctx.note('refused')
    obj = None
  ctx.step()
  check([shape_of(d) for d in deps] == before, '{}: operand altered', root)
  if obj is not None and model is not None:
    judge(obj, model, variables, kind, root)
    ctx.outcome(shape_of(obj)[2:4])
  ctx.state()
  ctx.trace()


def split(names, form):
  how = form.split('-')[-1]
  if how == 'one':
    return [''.join(names)]
  if how == 'each' or how == 'fields':
    return list(names)
  i = int(how)
  return [p for p in (''.join(names[:i]), ''.join(names[i:])) if p]


# ------------------------------------------------------------------ functionals
EXPRS = {'sum': (lambda *s: sum(s), lambda *v: sum(v)),
         'wsum': (lambda *s: sum((i + 1) * x for i, x in enumerate(s)), lambda *v: sum((i + 1) * x for i, x in enumerate(v))),
         'sq': (lambda *s: s[0] ** 2 + (s[1] if len(s) > 1 else 1), lambda *v: v[0] ** 2 + (v[1] if len(v) > 1 else 1))}
INVALS = ({'c': 2, 'd': .5, 'e': True}, {'c': 1, 'd': .25, 'e': False}, {'c': np.array([0, 1, 2]), 'd': .5, 'e': np.array([True, False, True])})


def build_functional(via, outs, inps):
  import probayes as pb
  import networkx as nx
  kind = 'RV' if via.startswith('SD') else 'Variable'
  variables = {k: make(kind, k) for k in outs + inps}
  fld = lambda names: classes(kind)[1](*[variables[k] for k in names])
  if via.endswith('graph'):
    syms = {k: sympy.Symbol(k) for k in outs + inps}
    og, ig = nx.Graph(), nx.Graph()
    og.add_nodes_from([syms[k] for k in outs])
    ig.add_nodes_from([syms[k] for k in inps])
    return pb.Functional(og, ig), syms, syms, None
  if via.endswith('dependence'):
    dep = fld(outs) | fld(inps)
    return dep.func, variables, {k: v[:] for k, v in variables.items()}, dep
  return pb.Functional(fld(outs), fld(inps)), variables, {k: v[:] for k, v in variables.items()}, None


def check_calls(fn, model, variables, inps, iconic, what, ctx):
  check(len(fn) == fn.ndeps == len(model) and bool(fn) == bool(model), '{}: {} functions and not {}', what, len(fn), len(model))
  if model:
    check(fn.isiconic == iconic, '{}: iconic flag {}', what, fn.isiconic)
    check(dict(fn.deps) == {frozenset(o): frozenset(i) for o, (i, _) in model.items()},
          '{}: dependences {}', what, fn.deps)
    check(set(fn.funcs) == {frozenset(o) for o in model}, '{}: functions of {}', what, set(fn.funcs))
  for outs, (needs, num) in model.items():
    keys = [','.join(outs), tuple(outs), [variables[o] for o in outs], ','.join(outs[::-1])]
    if len(outs) == 1:
      keys.append(variables[outs[0]])
    for vals in INVALS:
      vals = {k: vals[k] for k in inps}
      if not any(isinstance(vals[k], np.ndarray) for k in needs):
        vals = {k: v for k, v in vals.items() if not isinstance(v, np.ndarray)}
      want = num(*[np.asarray(vals[k]).astype(float) for k in needs])
      for key in keys:
        answers = [fn[key](dict(vals)), fn[key](**vals), fn[key]({k: vals[k] for k in needs})]
        if iconic:
          answers.append(fn[key]({variables[k]: v for k, v in vals.items()}))
          if len(needs) == 1:
            answers.append(fn[key](vals[needs[0]]))
        ctx.step(len(answers))
        for got in answers:
          gs, ws = (got, want) if isinstance(want, tuple) else ((got,), (want,))
          check(len(gs) == len(ws) and all(np.allclose(np.asarray(g, dtype=float), w) for g, w in zip(gs, ws)),
                '{}: {} of {} gives {} and not {}', what, outs, vals, got, want)
        ctx.outcome(repr(want))
      ctx.state()


def run_functional(root, ctx):
  """Every order of adding functions, with refusals in between."""
  via, outs, inps, plan = root
  fn, variables, syms, dep = build_functional(via, outs, inps)
  add = fn.add_func if dep is None else dep.add_func
  model = {}
  check_calls(fn, model, variables, inps, True, (root, 'empty'), ctx)
  for o, needs, ename, spec in plan:
    expr = EXPRS[ename][0](*[syms[k] for k in needs])
    add({'name': o, 'variable': variables[o], 'tuple': (o,), 'explicit': {o: tuple(needs)},
         'joined': {variables[o]: ','.join(needs)}}[spec], expr)
    ctx.step()
    model[(o,)] = (needs, EXPRS[ename][1])
    if hasattr(variables[o], 'dexpr'):
      want = None if via.startswith('SD') else expr  # random variables are not deterministic
      check(variables[o].dexpr == want and variables[o][:] == (want or syms[o]) and ~variables[o] == syms[o],
            '{}: deterministic expression of {} is {}', root, o, variables[o].dexpr)
    check_calls(fn, model, variables, inps, True, (root, o), ctx)
    other = sympy.Symbol('other')
    free = [k for k in outs if (k,) not in model]
    bads = [(o, expr), (o, syms[needs[0]] * 5), ('other', expr)]
    if free:
      bads += [(free[0], other + 1), (free[0], lambda **k: 0.), ({free[0]: 'other'}, expr),
               ({free[0]: needs[0]}, lambda **k: 0.)]
    if len(outs) > 1:
      bads.append((outs, expr))
    for spec_, bad in bads:
      try:
        add(spec_, bad)
      except (AssertionError, TypeError, ValueError, KeyError):
        pass
      else:
        raise Violation('{}: function of {} accepted'.format(root, spec_))
      check_calls(fn, model, variables, inps, True, (root, o, 'refused', spec_), ctx)
      if free and hasattr(variables[free[0]], 'dexpr'):
        check(variables[free[0]].dexpr is None, '{}: a refused function remains with {}', root, free[0])
  ctx.trace()


def run_callables(root, ctx):
  via, outs, inps, plan = root
  fn, variables, _, dep = build_functional(via, outs, inps)
  add = fn.add_func if dep is None else dep.add_func
  model = {}
  for group, needs, spec, mapped in plan:
    if mapped:
      func = lambda *v: tuple(v[0] + i * v[-1] for i in range(2))[:len(group)] if len(group) > 1 else v[0] + 2 * v[-1]
      kwds = {'order': {**{k: None for k in inps if k not in needs}, **{k: i for i, k in enumerate(needs)}}}
    else:
      def func(group=group, needs=needs, **v):
        check(set(v) == set(needs), '{}: function of {} was given {}', root, needs, sorted(v))
        v = [v[k] for k in needs]
        return tuple(v[0] + i * v[-1] for i in range(len(group))) if len(group) > 1 else v[0] + 2 * v[-1]
      kwds = {}
    key = {'names': {tuple(group): tuple(needs)}, 'variables': {tuple(variables[k] for k in group): tuple(variables[k] for k in needs)},
           'joined': {','.join(group): ','.join(needs)}}[spec]
    add(key, func, **kwds)
    ctx.step()
    num = lambda *v, group=group: tuple(v[0] + i * v[-1] for i in range(len(group))) if len(group) > 1 else v[0] + 2 * v[-1]
    model[tuple(group)] = (needs, num)
    check_calls(fn, model, variables, inps, False, (root, group), ctx)
    for spec_, bad in ((key, func), ({'other': tuple(needs)}, func), (tuple(group), func),
                       ({outs[-1]: tuple(needs)}, sympy.Symbol(needs[0]) + 1)):
      try:
        add(spec_, bad)
      except (AssertionError, TypeError, ValueError, KeyError):
        pass
      else:
        raise Violation('{}: function of {} accepted'.format(root, spec_))
      check_calls(fn, model, variables, inps, False, (root, group, 'refused'), ctx)
  ctx.trace()


def subsets(names):
  return [s for n in range(1, len(names) + 1) for s in itertools.permutations(names, n)]


def spaces(tier):
  full = tier != 'quick'
  letters = {1: ['a'], 2: ['ab', 'aa', 'ba'], 3: ['abc', 'cab', 'aba', 'abb', 'abd'],
             4: ['abcd', 'abac', 'abbc', 'bcab', 'abcb', 'dbca']}
  trees = [t for n in (2, 3, 4) for t in expressions(n, letters[n])]
  if full:
    trees += list(expressions(5, ['abcde', 'abace', 'abbcd']))
    trees += list(expressions(4, [''.join(p) for p in itertools.product('abcd', repeat=4)]))
  ops = [(k, t) for k in ('Variable', 'RV') for t in trees]
  makes = []
  for k in ('Variable', 'RV'):
    for n in (1, 2, 3, 4):
      for names in (itertools.permutations('abc', n) if n < 4 else [tuple('abcd'), tuple('dbca')]):
        for form in ['args', 'list', 'tuple', 'set', 'field', 'grow', 'grow-list', 'grow-field', 'dep-one', 'dep-each',
                     'dep-fields'] + ['dep-{}'.format(i) for i in range(1, n)]:
          makes.append((k, tuple(names), form))
  pairs = [(l, r) for l, r in itertools.permutations('abcd' if full else 'abc', 2)]
  wide = [('ab', 'c'), ('c', 'de'), ('a', 'bc'), ('bc', 'd'), ('bc', 'de'), ('cb', 'd'), ('e', 'a'), ('d', 'e')]
  nets = [(k, t) for k in ('Variable', 'RV') for n in (2, 3) for t in itertools.product(pairs, repeat=n)]
  nets += [(k, t) for k in ('Variable', 'RV') for n in (2, 3) for t in itertools.product(wide, repeat=n)]
  chain = [('a', 'b'), ('b', 'c'), ('c', 'd'), ('d', 'e')]
  nets += [(k, t) for k in ('Variable', 'RV') for n in (3, 4) for t in itertools.permutations(chain, n)]
  nets += [(k, t) for k in ('Variable', 'RV') for n in (3, 4) for t in itertools.permutations([('a', x) for x in 'bcde'], n)]
  nets += [(k, t) for k in ('Variable', 'RV') for n in (3, 4) for t in itertools.permutations([(x, 'a') for x in 'bcde'], n)]
  vias = ['Variable-graph', 'Variable-field', 'Variable-dependence', 'SD-field', 'SD-dependence']
  fns, cbs = [], []
  specs = ['name', 'variable', 'tuple', 'explicit', 'joined']
  for via in vias:
    for outs in ('a', 'ab', 'ba'):
      for inps in ('c', 'cd', 'dce'):
        i = 0
        for n in range(1, len(outs) + 1):
          for order in itertools.permutations(outs, n):
            for needs in itertools.product([s for s in subsets(inps) if len(s) < 3 or full], repeat=n):
              if not full and n == 2 and len(set(needs)) == 1 and len(needs[0]) > 1:
                continue
              e = ['sum', 'wsum', 'sq'][i % 3]
              plan = tuple((o, nd, e, specs[(i + j) % 5]) for j, (o, nd) in enumerate(zip(order, needs)))
              if full or i % (1 if n == 1 else 17) == 0 or inps == 'c':
                fns.append((via, tuple(outs), tuple(inps), plan))
              i += 1
        groups = [((o,),) for o in outs] + [(tuple(outs),)] + ([tuple((o,) for o in outs)] if len(outs) > 1 else [])
        for plan_groups in groups:
          for needs in itertools.product(subsets(inps)[::1 if full or inps != 'dce' else 3], repeat=len(plan_groups)):
            for mapped in (False, True):
              i += 1
              cbs.append((via, tuple(outs), tuple(inps),
                          tuple((g, nd, ['names', 'variables', 'joined'][(i + j) % 3], mapped)
                                for j, (g, nd) in enumerate(zip(plan_groups, needs)))))
  return [Space('operators', ops, run_ops, 'all expressions of up to 4 operands under & and |, with distinct and repeated '
                'variables, for variables and random variables'),
          Space('constructors', makes, run_make, 'all orders of up to 3 variables in every form of construction and growth, with refusals'),
          Space('networks', nets, run_network, 'all choices of 2-3 dependences, all orders of chains, fans and colliders of up to 4, made at once'),
          Space('iconic functionals', fns, run_functional, 'all additions of expressions for up to 2 outputs of up to 3 inputs, '
                'every specification, with refusals after each'),
          Space('callable functionals', cbs, run_callables, 'all additions of functions for up to 2 outputs of up to 3 inputs')]
