"""Storage: serialise / deserialise / HDF5 round trips and histories of them."""
import itertools
import os
import shutil
import tempfile

import numpy as np

from mc.core import Space, Violation, check
from mc import table as T
from mc.c_prod import raw

PROPERTY = 'P08'
ASSUMPTIONS = ['files are written in a scratch directory of the check',
               'distributions stored together have different variables']


class Scratch:
  def __enter__(self):
    self.path = tempfile.mkdtemp(prefix='mcstore')
    return self.path

  def __exit__(self, *exc):
    shutil.rmtree(self.path, ignore_errors=True)


def same(got, want, tab, what):
  """The object read back denotes the very distribution that was stored."""
  check(type(got).__name__ == type(want).__name__, '{}: came back as {}', what, type(got))
  check(set(got.keys()) == set(want.keys()), '{}: variables {} came back as {}', what,
        list(want.keys()), list(got.keys()))
  for k in want.keys():
    check(got.dims[k] is None if want.dims[k] is None else int(got.dims[k]) == want.dims[k],
          '{}: axis of {} came back as {!r}', what, k, got.dims[k])
    a, b = got[k], want[k]
    if isinstance(b, set):
      check(a == b, '{}: {} came back as {!r}', what, k, a)
    else:
      a, b = np.asarray(a), np.asarray(b)
      check(a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b),
            '{}: values of {} came back as {!r}', what, k, a)
  if hasattr(want, 'prob') and want.prob is not None:
    check(list(got.marg) == list(want.marg) and list(got.cond) == list(want.cond),
          '{}: p({}) came back as p({})', what, want.name, got.name)
    check(got.short_name == want.short_name, '{}: {} came back as {}', what, want.short_name,
          got.short_name)
    a, b = np.asarray(got.prob), np.asarray(want.prob)
    check(a.shape == b.shape and np.array_equal(a, b), '{}: probabilities {} came back as {}',
          what, want.prob, got.prob)
    check(got.pscale == want.pscale and
          isinstance(got.pscale, complex) == isinstance(want.pscale, complex),
          '{}: scale {} came back as {}', what, want.pscale, got.pscale)
    if tab is not None:
      T.compare(T.of_pd(got, what), tab, what, order=True)


def snap(d):
  return T.frozen(d) if hasattr(d, 'prob') else (
      d.name, tuple((k, np.asarray(v).tobytes() if not isinstance(v, set) else repr(v))
                    for k, v in d.items()), tuple(d.dims.items()))


def run(root, ctx):
  """Every layout, alone: memory and file round trips, twice in a row."""
  import probayes as pb
  layout, ncond, pscale, zeros, reverse, sets = root
  pd, tab, ps = T.build_pd(pb, layout, ncond, pscale, zeros, reverse, sets=sets)
  from probayes import pd_utils as U
  before = snap(pd)
  mem, = U.deserialise(U.serialise(pd))
  ctx.step(2)
  same(mem, pd, tab, 'in-memory round trip')
  check(snap(pd) == before, 'serialising modified its operand')
  with Scratch() as d:
    path = os.path.join(d, 'a.h5')
    pb.write_dist(path, pd)
    check(snap(pd) == before, 'writing modified its operand')
    got, = pb.read_dist(path)
    same(got, pd, tab, 'file round trip')
    # what was read can be stored again, over the same file
    gsnap = snap(got)
    pb.write_dist(path, got)
    again, = pb.read_dist(path)
    same(again, pd, tab, 'second file round trip')
    check(snap(got) == gsnap and snap(pd) == before, 'second write modified an operand')
    # and operations continue on it
    arr = [k for ks, _ in tab.groups for k in ks]
    if arr:
      k = arr[0]
      v = tab.groups[tab.group_of(k)][1][0][tab.groups[tab.group_of(k)][0].index(k)]
      T.compare(T.of_pd(again({k: v})), T.of_pd(pd({k: v})), 'slice after a round trip')
      ctx.step()
    ctx.step(4)
    ctx.state(4)
  ctx.trace()
  ctx.outcome(tuple(np.ravel(got.prob)))


def pool(pb):
  out = []
  specs = [((('x', 0), ('y', 1)), 0, 'lin'), ((('y', 1), ('x', 0)), 1, 'off'),
           ((('z', 0), ('x', None)), 1, 'noff'), ((('w', None), ('y', None)), 0, 'coef'),
           ((('w', 0), ('u', 0), ('z', 1)), 1, 'log')]
  for lay, nc, ps in specs:
    pd, tab, _ = T.build_pd(pb, lay, nc, ps)
    out.append((pd, tab))
  out.append((pb.Distribution('u,w', {'u': np.array([1., 2.]), 'w': np.array([3, 4, 5])}), None))
  out.append((pb.Distribution('w', {'w': 5}), None))
  out.append((pb.PD('x', {'x': {4}}, prob=.25), None))
  return out


def run_many(root, ctx):
  """Several distributions in one file come back, in the order they were stored."""
  import probayes as pb
  from probayes import pd_utils as U
  items = [pool(pb)[i] for i in root]
  before = [snap(p) for p, _ in items]
  ser = U.serialise(*[p for p, _ in items])
  mem = U.deserialise(ser)
  ctx.step(2)
  check(len(mem) == len(items), '{} of {} distributions serialised', len(mem), len(items))
  for g, (p, t) in zip(mem, items):
    same(g, p, t, 'in-memory')
  with Scratch() as d:
    path = os.path.join(d, 'a.h5')
    pb.write_dist(path, *[p for p, _ in items])
    check([snap(p) for p, _ in items] == before, 'writing modified an operand')
    for again in range(2):
      got = pb.read_dist(path)
      ctx.step()
      check(len(got) == len(items), '{} of {} distributions came back', len(got), len(items))
      for g, (p, t) in zip(got, items):
        same(g, p, t, 'file of {}'.format(len(items)))
    # auxiliary arrays ride along untouched
    aux = {'run one': {'a': np.arange(3), 'b': np.eye(2)}, 'run two': {'c': np.array([True, False])}}
    U.write_serialised(path, U.serialise(*[p for p, _ in items]), aux)
    check([snap(p) for p, _ in items] == before, 'writing with auxiliary data modified an operand')
    sread, aread = U.read_serialised(path)
    ctx.step(2)
    check(set(aread) == set(aux) and all(
        set(aread[k]) == set(aux[k]) and all(np.array_equal(aread[k][j], aux[k][j]) for j in aux[k])
        for k in aux), 'auxiliary data came back as {}', aread)
    got = U.deserialise(sread)
    for g, (p, t) in zip(got, items):
      same(g, p, t, 'file with auxiliary data')
    ctx.state(3)
  ctx.trace()


def run_clash(root, ctx):
  """Two distributions over the same variables are both kept, or refused."""
  import probayes as pb
  i, j = root
  a, _ = pool(pb)[i]
  b = a.rescaled(2.) if j else a
  with Scratch() as d:
    path = os.path.join(d, 'a.h5')
    try:
      pb.write_dist(path, a, b)
      ctx.step()
    except Exception:
      ctx.state()
      ctx.trace()
      return
    got = pb.read_dist(path)
    check(len(got) == 2, 'two distributions stored, {} came back without an error', len(got))
    ctx.state()
    ctx.trace()


def run_history(root, ctx):
  """Every write/read history over two files agrees with a dict-of-files model."""
  import probayes as pb
  items = pool(pb)
  model = {}
  with Scratch() as d:
    for op in root:
      path = os.path.join(d, 'f{}.h5'.format(op[1]))
      if op[0] == 'w':
        objs = [items[i] for i in op[2]]
        before = [snap(p) for p, _ in items]
        pb.write_dist(path, *[p for p, _ in objs])
        check([snap(p) for p, _ in items] == before, 'writing modified an operand')
        model[op[1]] = objs
      elif op[1] in model:
        got = pb.read_dist(path)
        check(len(got) == len(model[op[1]]), 'read {} distributions', len(got))
        for g, (p, t) in zip(got, model[op[1]]):
          same(g, p, t, 'history {}'.format(root))
      else:
        try:
          pb.read_dist(path)
        except Exception:
          pass
        else:
          raise Violation('a file never written was read')
      ctx.step()
      ctx.state()
  ctx.trace()


NAMES = ['order', 'dims', 'name', "order'", 'marg', 'x_1', 'keys', 'None', 'vals', 'p', 'shape', 'Order', 'values', 'aux']


def run_names(root, ctx):
  """Variables may be called anything that a distribution may be made of."""
  import probayes as pb
  names, lay, ncond, plain = root
  vals = {n: np.array([1.5, 2.5, -1.][:2 + i]) if a is not None else 4 + i for i, (n, a) in enumerate(zip(names, lay))}
  dims = {n: a for n, a in zip(names, lay)}
  shape = [0] * (1 + max([a for a in lay if a is not None], default=-1))
  for n, a in dims.items():
    if a is not None:
      shape[a] = len(vals[n])
  marg, cond = names[:len(names) - ncond], names[len(names) - ncond:]
  name = ','.join(marg) + ('|' + ','.join(cond) if cond else '')
  if plain:
    dist, tab = pb.Distribution(name, vals, dims=dims), None
  else:
    prob = np.array(T.generic_probs(int(np.prod(shape)))).reshape(shape) if shape else .25
    dist = pb.PD(name, vals, dims=dims if shape else None, prob=prob)
    tab = T.of_pd(dist)
  before = snap(dist)
  from probayes import pd_utils as U
  mem, = U.deserialise(U.serialise(dist))
  same(mem, dist, tab, 'in-memory round trip of {}'.format(root))
  with Scratch() as d:
    path = os.path.join(d, 'a.h5')
    for what in ('first', 'second'):
      pb.write_dist(path, dist)
      got, = pb.read_dist(path)
      same(got, dist, tab, '{} file round trip of {}'.format(what, root))
      check(list(got.keys()) == list(dist.keys()), '{}: variables in the order {}', root, list(got.keys()))
      check(snap(dist) == before, '{}: writing modified its operand', root)
      dist, before = got, snap(got)
      ctx.step(2)
      ctx.state()
  ctx.trace()


def spaces(tier):
  full = tier != 'quick'
  keys3 = ['y', 'z', 'x']
  roots = []
  for n in (1, 2, 3):
    for lay in T.layouts(keys3[:n]):
      for nc in range(n):
        for ps in (T.PSCALES if full or n < 3 else ('coef', 'noff')):
          for rev in (False, True):
            roots.append((lay, nc, ps, nc == 1, rev, ()))
      scal = tuple(k for k, a in lay if a is None)
      for r in range(1, len(scal) + 1):
        for ss in itertools.combinations(scal, r):
          roots.append((lay, 0, 'off', False, False, ss))
  n = 8
  many = [c for r in (2, 3) for c in itertools.permutations(range(n), r)]
  clash = [(i, j) for i in range(5) for j in (0, 1)]
  ops = [('w', 0, (0, 1)), ('w', 0, (2,)), ('w', 1, (1, 5)), ('w', 1, (3, 7, 4)), ('r', 0), ('r', 1)]
  hist = list(itertools.product(ops, repeat=4 if full else 3))
  named = [(names, lay, nc, plain) for k in (1, 2) for names in itertools.permutations(NAMES, k)
           for lay in (itertools.permutations(range(k)) if k == 1 or not full else [(0, 1), (1, 0), (0, None), (None, 0), (None, None)])
           for nc in range(k) for plain in (False, True) if not plain or not nc]
  wide = [(lay, nc, ps, nc == 1, ps == 'off', ()) for lay in T.large() for nc in range(min(3, len(lay))) for ps in T.PSCALES]
  return [Space('larger', wide, run, 'sets of up to 12 values and up to 6 variables'),
          Space('names', named, run_names, 'all pairs of {} names'.format(len(NAMES))),
          Space('layouts', roots, run, 'all layouts of <=3 variables x scales x unspecified sets'),
          Space('files', many, run_many, 'all ordered selections of 2 or 3 of 8 distributions'),
          Space('clash', clash, run_clash, 'same-variable pairs'),
          Space('histories', hist, run_history, 'all write/read sequences of length {} over two '
                'files'.format(4 if full else 3))]
