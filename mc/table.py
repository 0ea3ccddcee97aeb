"""Boring reference model of a probability distribution, and the PD alphabet.

A Table is a plain dictionary from joint assignments to (linear) probability:
  marg, cond : ordered lists of variable names left/right of the bar
  scal       : {key: value} for dimensionless variables (a scalar, or ('set', n))
  groups     : [(keys, rows)] - keys that vary together and their value tuples
  p          : {(row index per group): linear probability}
Groups are ordered by their sorted key names, so two Tables can be compared
whatever axis layout the library used.
"""
import itertools
import math

import numpy as np

from mc.core import Violation, check

RTOL = 1e-9


def py(v):
  """Numpy scalar -> plain Python scalar."""
  if isinstance(v, np.ndarray) and v.ndim == 0:
    v = v[()]
  if isinstance(v, (np.bool_, bool)):
    return bool(v)
  if isinstance(v, (np.integer, int)):
    return int(v)
  if isinstance(v, (np.floating, float)):
    return float(v)
  if hasattr(v, 'is_number') and v.is_number:
    return float(v)
  return v


def coef_log(pscale):
  """Log of the coefficient that a scale stands for: p = value * e^coef_log
  (linear scales) or log p = value + coef_log (log scales)."""
  if isinstance(pscale, complex):
    return pscale.real if abs(pscale.imag) < 1e-300 else -pscale.real
  return math.log(pscale)


def to_linear(v, pscale):
  v = float(v)
  if isinstance(pscale, complex):
    e = v + coef_log(pscale)
    return 0. if e < -745. else math.exp(e)
  return v * pscale


def is_log(pscale):
  return isinstance(pscale, complex)


def close(a, b, rtol=RTOL, atol=1e-14):
  if a == b:
    return True
  if math.isnan(a) or math.isnan(b):
    return False
  return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def same_value(a, b):
  if isinstance(a, tuple) or isinstance(b, tuple):
    return a == b
  if isinstance(a, float) or isinstance(b, float):
    return close(float(a), float(b), 1e-12)
  return a == b


class Table:
  def __init__(self, marg, cond, scal, groups, p):
    self.marg, self.cond = list(marg), list(cond)
    self.scal = dict(scal)
    order = sorted(range(len(groups)), key=lambda i: tuple(sorted(groups[i][0])))
    self.groups = []
    for i in order:
      keys, rows = groups[i]
      ko = sorted(range(len(keys)), key=lambda k: keys[k])
      self.groups.append((tuple(keys[k] for k in ko),
                          [tuple(r[k] for k in ko) for r in rows]))
    self.p = {tuple(idx[i] for i in order): v for idx, v in p.items()}

  def group_of(self, key):
    for g, (keys, _) in enumerate(self.groups):
      if key in keys:
        return g
    return None

  def copy(self):
    return Table(self.marg, self.cond, self.scal, self.groups, self.p)

  def drop_groups(self, gs, marg=None, cond=None, scal=None):
    """Sums out the groups in gs."""
    keep = [g for g in range(len(self.groups)) if g not in gs]
    p = {}
    for idx, v in self.p.items():
      k = tuple(idx[g] for g in keep)
      p[k] = p.get(k, 0.) + v
    gone = set(k for g in gs for k in self.groups[g][0])
    return Table([k for k in self.marg if k not in gone] if marg is None else marg,
                 [k for k in self.cond if k not in gone] if cond is None else cond,
                 self.scal if scal is None else scal,
                 [self.groups[g] for g in keep], p)

  def marginalise(self, keys):
    return self.drop_groups({self.group_of(k) for k in keys})

  def normalise_given(self, cond_keys):
    """p(rest | cond_keys): divides by the sum over every group that is not
    conditional."""
    gs = sorted({self.group_of(k) for k in cond_keys if self.group_of(k) is not None})
    den = {}
    for idx, v in self.p.items():
      k = tuple(idx[g] for g in gs)
      den[k] = den.get(k, 0.) + v
    p = {}
    for idx, v in self.p.items():
      d = den[tuple(idx[g] for g in gs)]
      p[idx] = v / d if d > 0. else 0.
    return p

  def conditionalise(self, keys):
    cond = self.cond + [k for k in self.marg if k in keys]
    marg = [k for k in self.marg if k not in keys]
    return Table(marg, cond, self.scal, self.groups, self.normalise_given(cond))

  def assignments(self):
    """{frozenset of (key, value)} -> probability (values must be distinct)."""
    out = {}
    for idx, v in self.p.items():
      items = list(self.scal.items())
      for g, i in enumerate(idx):
        items += list(zip(self.groups[g][0], self.groups[g][1][i]))
      out[frozenset(items)] = v
    return out


def product(tables, marg, cond):
  """Pointwise product by joint assignment over the union of the variables."""
  scal = {}
  groups = []
  for t in tables:
    scal.update(t.scal)
    for keys, rows in t.groups:
      if not any(set(keys) & set(k2) for k2, _ in groups):
        groups.append((keys, rows))
  # grow groups: a group of one operand may contain a key of a smaller group
  merged = []
  for t in tables:
    for keys, rows in t.groups:
      hit = [m for m in merged if set(m[0]) & set(keys)]
      if not hit:
        merged.append((keys, rows))
      else:
        for m in hit:
          if len(keys) > len(m[0]):
            merged[merged.index(m)] = (keys, rows)
  groups = merged
  out = {}
  for idx in itertools.product(*[range(len(r)) for _, r in groups]):
    at = {}
    for g, i in enumerate(idx):
      at.update(zip(groups[g][0], groups[g][1][i]))
    v = 1.
    for t in tables:
      ti = []
      for keys, rows in t.groups:
        g = next(j for j, (k2, _) in enumerate(groups) if set(keys) <= set(k2))
        ti.append(idx[g])
        assert all(same_value(at[k], rows[idx[g]][n]) for n, k in enumerate(keys))
      v *= t.p[tuple(ti)]
    out[idx] = v
  return Table(marg, cond, scal, groups, out)


def of_pd(pd, what='result'):
  """Reads a PD through its public interface, checking its own consistency."""
  marg, cond = list(pd.marg.keys()), list(pd.cond.keys())
  keys = list(pd.keys())
  check(set(keys) == set(marg) | set(cond),
        '{}: variables {} do not match name {}', what, keys, pd.name)
  check(not set(marg) & set(cond), '{}: variable on both sides of {}', what, pd.name)
  sides = pd.name.split('|')
  for side, due in zip(sides + [''] * (2 - len(sides)), (marg, cond)):
    said = [s.split('=', 1) for s in side.split(',') if s]
    check([s[0] for s in said] == due, '{}: name {} where the variables are {}|{}', what, pd.name, marg, cond)
    for s in said:
      if pd.dims[s[0]] is None:
        check(len(s) == 2 and s[1] == '{}'.format(pd[s[0]]), '{}: name {} where {} is {}', what, pd.name, s[0], pd[s[0]])
      else:
        check(s[1:] in ([], ['[]']), '{}: name {} where {} has several values', what, pd.name, s[0])
  scal, bydim = {}, {}
  for k in keys:
    v = pd[k]
    dim = pd.dims[k]
    if dim is None:
      if isinstance(v, set):
        scal[k] = ('set', py(list(v)[0]))
      else:
        check(np.ndim(v) == 0, '{}: dimensionless {} holds an array {}', what, k, v)
        scal[k] = py(v)
    else:
      check(isinstance(v, np.ndarray), '{}: {} on axis {} is not an array', what, k, dim)
      check(v.ndim == pd.ndim and v.shape[dim] == v.size,
            '{}: values of {} (shape {}) do not lie along axis {} of {}', what, k,
            v.shape, dim, pd.ndim)
      bydim.setdefault(int(dim), []).append(k)
  prob = pd.prob
  if not bydim:
    check(np.ndim(prob) == 0, '{}: scalar values with array probability', what)
    p = {(): to_linear(prob, pd.pscale)}
    return Table(marg, cond, scal, [], p)
  prob = np.asarray(prob, dtype=float)
  dims = sorted(bydim)
  check(dims == list(range(prob.ndim)),
        '{}: axes {} in use but probability has {} axes', what, dims, prob.ndim)
  groups = []
  for d in dims:
    cols = [np.ravel(pd[k]).tolist() for k in bydim[d]]
    n = len(cols[0])
    check(all(len(c) == n for c in cols) and prob.shape[d] == n,
          '{}: axis {} sizes disagree: {} vs probability {}', what, d,
          [len(c) for c in cols], prob.shape)
    groups.append((tuple(bydim[d]), [tuple(py(c[i]) for c in cols) for i in range(n)]))
  p = {tuple(int(i) for i in idx): to_linear(prob[idx], pd.pscale)
       for idx in np.ndindex(*prob.shape)}
  return Table(marg, cond, scal, groups, p)


def compare(got, want, what, order=False, rtol=RTOL):
  """Raises Violation unless the two tables denote the same distribution."""
  if order:
    check(got.marg == want.marg and got.cond == want.cond,
          '{}: p({}|{}) where p({}|{}) was due', what, got.marg, got.cond,
          want.marg, want.cond)
  check(set(got.marg) == set(want.marg) and set(got.cond) == set(want.cond),
        '{}: p({}|{}) where p({}|{}) was due', what, got.marg, got.cond,
        want.marg, want.cond)
  check(set(got.scal) == set(want.scal) and
        all(same_value(got.scal[k], want.scal[k]) for k in want.scal),
        '{}: scalars {} where {} were due', what, got.scal, want.scal)
  check([g[0] for g in got.groups] == [g[0] for g in want.groups],
        '{}: axis groups {} where {} were due', what,
        [g[0] for g in got.groups], [g[0] for g in want.groups])
  for (keys, rows), (_, wrows) in zip(got.groups, want.groups):
    check(len(rows) == len(wrows) and
          all(same_value(a, b) for r, w in zip(rows, wrows) for a, b in zip(r, w)),
          '{}: values of {} are {} where {} were due', what, keys, rows, wrows)
  check(set(got.p) == set(want.p), '{}: probability shape differs', what)
  for idx in sorted(want.p):
    if not close(got.p[idx], want.p[idx], rtol):
      at = dict(want.scal)
      for g, i in enumerate(idx):
        at.update(zip(want.groups[g][0], want.groups[g][1][i]))
      raise Violation('{}: probability at {} is {!r} where {!r} was due'.format(
          what, at, got.p[idx], want.p[idx]))


# Log-scale distributions over ranges no double can hold: probabilities as big floats.

def big(v):
  import mpmath
  return mpmath.mpf(0) if v <= -1e300 else mpmath.exp(mpmath.mpf(v))


def steep(pb, pd, tab, slopes):
  """The log-scale distribution with a slope added along every axis, and its table of big floats."""
  prob = np.array(pd.prob, dtype=float)
  for a, slope in enumerate(slopes):
    prob = prob + slope * np.arange(prob.shape[a]).reshape([-1 if b == a else 1 for b in range(prob.ndim)])
  out = pb.PD(pd.name, dict(pd), dims=pd.dims, prob=prob, pscale=pd.pscale)
  return out, of_pd_big(pb, out)


def of_pd_big(pb, pd, what='result'):
  check(is_log(pd.pscale), '{}: no longer on a log scale but {}', what, pd.pscale)
  prob = np.array(pd.prob, dtype=float)
  tab = of_pd(pb.PD(pd.name, dict(pd), dims=pd.dims, prob=np.arange(prob.size, dtype=float).reshape(prob.shape) if prob.ndim else 0.,
                    pscale=1.), what)
  flat, off = np.ravel(prob), coef_log(pd.pscale)
  check(not np.any(np.isnan(flat)), '{}: probabilities are not numbers: {}', what, prob)
  tab.p = {idx: big(float(flat[int(i)]) + off) for idx, i in tab.p.items()}
  return tab


def compare_big(got, want, what, tol=1e-9):
  import mpmath
  zero = lambda t: Table(t.marg, t.cond, t.scal, t.groups, {idx: 0. for idx in t.p})
  compare(zero(got), zero(want), what)
  for idx, w in want.p.items():
    g = got.p[idx]
    ok = g == w if w == 0 or g == 0 else abs(float(mpmath.log(g) - mpmath.log(w))) <= tol * (1. + abs(float(mpmath.log(w))))
    check(ok, '{}: log probability at {} is {} where {} was due', what, idx, mpmath.log(g) if g else '-inf',
          mpmath.log(w) if w else '-inf')


# ---------------------------------------------------------------------------
# Alphabet: every small PD layout.

PSCALES = {'lin': 1., 'coef': 2.5, 'log': 0j, 'off': complex(0.75, 0.),
           'noff': complex(0.75, math.pi)}

VALUES = {'x': [0, 1, 2, 3], 'y': [-1.5, 0.25, 2., 7.], 'z': [False, True],
          'w': [5, 3, 9, 1], 'u': [0.5, 0.125, 4., 3.]}
# variables of larger sets, which take the whole of their axes
LARGE = {'v': [3, -7, 11, 0, 25, -1, 8, 100, -40, 2, 17, 5], 't': [1e6, -2.5, 1e-7, 0., 3e-7, 12.75, -1e-3, 4., 2.],
         's': [4, 1, 3, 0, 2], 'q': [True, False], 'r': [2., 1., 3.]}
VALUES.update(LARGE)


def large():
  """Layouts of larger sets, or of more variables than the exhaustive spaces hold."""
  lay = [[('v', 0)], [('t', 0)], [('v', 0), ('t', 1)], [('t', 1), ('v', 0)], [('t', 0), ('v', 1)], [('v', 0), ('t', 0)], [('s', 0), ('v', None)],
         [('v', 0), ('t', 0), ('s', 1)], [('s', 2), ('v', 0), ('q', 1)], [('q', 0), ('r', 2), ('t', 1)], [('s', 1), ('v', 1), ('t', 0)],
         [('y', 3), ('x', 0), ('q', 4), ('w', 1), ('r', 2)], [('y', 0), ('x', 1), ('w', 2), ('z', 3), ('u', 4)],
         [('u', 4), ('z', 2), ('w', 3), ('x', 1), ('y', 0)], [('y', 1), ('x', 0), ('w', 0), ('z', 2), ('u', None)],
         [('q', 1), ('y', 0), ('x', 2), ('w', 4), ('z', 3), ('u', 5)], [('y', 0), ('q', None), ('x', 1), ('w', 1), ('z', 2), ('u', 2)]]
  return [tuple(l) for l in lay]


def value_rows(key, n):
  vals = VALUES[key]
  if n <= len(vals):
    return vals[:n]
  return list(range(10, 10 + n))


def ordered_partitions(items):
  """Every assignment of items to axes 0..d-1 with every axis used."""
  items = list(items)
  if not items:
    yield {}
    return
  for d in range(1, len(items) + 1):
    for axes in itertools.product(range(d), repeat=len(items)):
      if set(axes) == set(range(d)):
        yield dict(zip(items, axes))


AXIS_SIZES = (2, 3, 2, 4)


def layouts(keys, shared=True, scalars=True):
  """Every way the keys may be scalars or lie (possibly together) on axes, as
  tuples (key, axis or None)."""
  keys = list(keys)
  for r in range(len(keys) + 1):
    if not scalars and r < len(keys):
      continue
    for arr in itertools.combinations(keys, r):
      for axes in ordered_partitions(arr):
        if not shared and len(set(axes.values())) < len(axes):
          continue
        yield tuple((k, axes.get(k)) for k in keys)


def generic_probs(n, zeros=False):
  """n distinct positive numbers without accidental coincidences."""
  out = [((37 * (i + 1)) % 101 + 0.5 * math.sqrt(i + 2)) / 150. for i in range(n)]
  if zeros:
    for i in range(0, n, 3):
      out[i] = 0.
  return out


def build_pd(pb, layout, ncond, pscale, zeros=False, reverse=False, shift=0, sets=(),
             norm=True):
  """Builds PD and Table for a layout; the last ncond keys are conditional.
  Returns (pd, table, pscale)."""
  ps = PSCALES[pscale]
  keys = [k for k, _ in layout]
  marg, cond = keys[:len(keys) - ncond], keys[len(keys) - ncond:]
  naxes = 1 + max([a for _, a in layout if a is not None], default=-1)
  shape = []
  for a in range(naxes):
    members = [k for k, b in layout if b == a]
    n = AXIS_SIZES[(a + shift) % len(AXIS_SIZES)]
    n = min(len(VALUES[k]) for k in members) if set(members) <= set(LARGE) else min([n] + [len(VALUES[k]) for k in members])
    shape.append(n)
  vals, dims = {}, {}
  for k, a in layout:
    if a is None:
      vals[k] = {3} if k in sets else value_rows(k, 2)[1]
    else:
      vals[k] = np.array(value_rows(k, shape[a]))
      dims[k] = a
  if reverse:
    vals = dict(reversed(list(vals.items())))
  size = int(np.prod(shape)) if shape else 1
  lin = generic_probs(size, zeros)
  logs = [-1e308 if p == 0. else math.log(p) for p in lin]
  c = coef_log(ps)
  # nothing in logarithms: the least number or (every other time) minus infinity
  raw = [(-1.7976931348623157e308 if i % 6 else -math.inf) if p == 0. else l - c for i, (p, l) in enumerate(zip(lin, logs))] \
      if is_log(ps) else [p / ps for p in lin]
  prob = float(raw[0]) if not shape else np.array(raw).reshape(shape)
  name = ','.join(marg) + ('|' + ','.join(cond) if cond else '')
  pd = pb.PD(name, vals, dims=dims or None, prob=prob, pscale=ps)
  groups = []
  for a in range(naxes):
    members = tuple(k for k, b in layout if b == a)
    cols = [value_rows(k, shape[a]) for k in members]
    groups.append((members, [tuple(c[i] for c in cols) for i in range(shape[a])]))
  scal = {k: (('set', 3) if k in sets else value_rows(k, 2)[1])
          for k, a in layout if a is None}
  p = {idx: lin[n] for n, idx in enumerate(itertools.product(*map(range, shape)))}
  return pd, Table(marg, cond, scal, groups, p), ps


def frozen(pd):
  """A deep, order-sensitive snapshot of everything observable about a PD."""
  vals = []
  for k in pd.keys():
    v = pd[k]
    if isinstance(v, np.ndarray):
      vals.append((k, v.shape, str(v.dtype), v.tobytes()))
    else:
      vals.append((k, repr(v)))
  prob = pd.prob
  prob = (prob.shape, str(prob.dtype), prob.tobytes()) if isinstance(prob, np.ndarray) \
      else repr(prob)
  return (pd.name, tuple(vals), tuple(pd.dims.items()), prob, repr(pd.pscale),
          tuple(pd.marg.items()), tuple(pd.cond.items()),
          repr(pd.ndim), repr(pd.shape))
