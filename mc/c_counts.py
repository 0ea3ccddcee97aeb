"""Empirical likelihoods: counts of boolean observations, and binary codes."""
import itertools

import numpy as np

from mc.core import Space, Violation, check
from mc import table as T

PROPERTY = 'P21'
ASSUMPTIONS = ['observations are two-dimensional boolean arrays with at least one row',
               'values of a counted likelihood are single booleans or all of them in order']


# ------------------------------------------------------------------ binary codes
def run_codes(root, ctx):
  from probayes.likelihoods import bin_to_int, int_to_bin
  what, arg, width = root
  if what == 'one':
    bits = [int(b) for b in bin(arg)[2:].zfill(width)] if arg or width else [0]
    for form in (arg, np.int64(arg)):
      got = int_to_bin(form, width) if width else int_to_bin(form)
      check(got.dtype == bool and got.tolist() == [bool(b) for b in bits], '{}: {} becomes {}', root, form, got)
      ctx.step()
    for form in (np.array(bits, bool), np.array(bits), bits, tuple(bits), [bool(b) for b in bits]):
      check(int(bin_to_int(form)) == arg, '{}: {!r} becomes {}', root, form, bin_to_int(form))
      ctx.step()
  else:
    need = max(max(len(bin(a)) - 2 for a in arg), width)
    want = [[bool(int(b)) for b in bin(a)[2:].zfill(need)] for a in arg]
    for form in (list(arg), tuple(arg), np.array(arg)):
      keep = np.array(form)
      got = int_to_bin(form, width) if width else int_to_bin(form)
      check(got.dtype == bool and got.tolist() == want, '{}: {!r} becomes {}', root, form, got)
      check(np.array_equal(keep, form), '{}: altered', root)
      ctx.step()
    for form in (np.array(want), np.array(want, int), want):
      got = bin_to_int(form)
      check(np.ndim(got) == 1 and got.tolist() == list(arg), '{}: {!r} becomes {}', root, form, got)
      ctx.step()
  ctx.state()
  ctx.outcome(root)
  ctx.trace()


# ------------------------------------------------------------------ counts
def tally(rows, cols, base=0):
  out = {c: base for c in itertools.product((False, True), repeat=cols)}
  for r in rows:
    out[tuple(bool(v) for v in r)] += 1
  return out


def run_counts(root, ctx):
  import probayes as pb
  rows, cols = root
  names = ['u', 'v', 'w', 't'][:cols]
  for flat in itertools.product((False, True), repeat=rows * cols):
    obs = np.array(flat, bool).reshape(rows, cols)
    keep = obs.copy()
    for base in (0, 1, 2, .5):
      want = tally(obs, cols, base)
      got = pb.bool_perm_freq(obs, base_freq=base) if base else pb.bool_perm_freq(obs)
      total = sum(want.values())
      check(got.shape == (2,) * cols, '{}: shape {}', flat, got.shape)
      func, rel = pb.bool_perm_freq(obs, list(names), base) if base else pb.bool_perm_freq(obs, tuple(names))
      check(rel.shape == (2,) * cols, '{}: shape {}', flat, rel.shape)
      for c, n in want.items():
        idx = tuple(int(v) for v in c)
        check(got[idx] == n, '{} base {}: counts {} of {} and not {}', flat, base, got[idx], c, n)
        check(T.close(float(rel[idx]), n / total), '{} base {}: frequency {} of {} and not {}', flat, base, rel[idx], c, n / total)
      ctx.step(2)
      ctx.state()
    check(np.array_equal(obs, keep), '{}: altered', flat)
    ctx.outcome(tuple(want.values()))
  for bad in (np.zeros((2, 2), int), np.zeros(3, bool), [[True, False]]):
    try:
      pb.bool_perm_freq(bad)
    except AssertionError:
      continue
    raise Violation('observations {!r} accepted'.format(bad))
  try:
    pb.bool_perm_freq(obs, names + ['extra'])
  except AssertionError:
    pass
  else:
    raise Violation('labels {} of {} columns accepted'.format(names + ['extra'], cols))
  ctx.trace()


# ------------------------------------------------------------------ likelihoods
def expect(pd, marg, cond, order, q, f, what, ctx):
  """Probability of every assignment asked for."""
  groups = [((k,), [(False,), (True,)]) for k in order if k not in q]
  scal = {k: q[k] for k in order if k in q}
  want = {}
  for idx in itertools.product(*[range(2) for _ in groups]):
    at = dict(scal)
    at.update({g[0][0]: bool(i) for g, i in zip(groups, idx)})
    want[idx] = f(at)
    ctx.state()
  T.compare(T.of_pd(pd, what), T.Table(marg, cond, scal, groups, want), what, rtol=1e-9)
  ctx.step()
  ctx.outcome((what, round(sum(want.values()), 9)))


def run_likelihood(root, ctx):
  import probayes as pb
  shape, labels, flat, base = root
  leafs, roots = shape
  names = leafs + roots
  cols = len(names)
  obs = np.array(flat, bool).reshape(-1, cols)
  want = tally(obs, cols, base)
  total = sum(want.values())
  # columns follow the labels
  func, _ = pb.bool_perm_freq(obs, list(labels), base)
  f = lambda a: want[tuple(a[k] for k in labels)] / total
  rvs = {k: pb.RV(k, vtype=bool) for k in names}
  pr = {}
  for i, k in enumerate(roots):
    p = .25 + .125 * i
    rvs[k].set_prob(p)
    pr[k] = p
  rf = lambda ks: rvs[ks[0]] if len(ks) == 1 else pb.RF(*[rvs[k] for k in ks])
  d = (rf(leafs) | rf(roots)) if roots else pb.RF(*[rvs[k] for k in leafs])
  d.set_prob(func, passdims=True)
  what0 = 'p({}|{}) of observations {} labelled {} base {}'.format(leafs, roots, flat, labels, base)
  for combo in itertools.product((None, False, True), repeat=cols):
    q = {k: v for k, v in zip(names, combo) if v is not None}
    what = '{} at {}'.format(what0, q)
    keep = dict(q)
    expect(d(q) if q else d(), leafs, roots, names, q, f, what, ctx)
    check(q == keep, '{}: values altered', what)
    if q:
      expect(d(**q), leafs, roots, names, q, f, what + ' by keyword', ctx)
      expect(d(dict(reversed(list(q.items())))), leafs, roots, names, q, f, what + ' reversed', ctx)
    explicit = {k: np.array([False, True]) if v is None else v for k, v in zip(names, combo)}
    expect(d(explicit), leafs, roots, names, q, f, what + ' explicit', ctx)
  ctx.trace()


def run_naive(root, ctx):
  """Products of counted likelihoods of one leaf (naive Bayes), and its posterior."""
  import probayes as pb
  flats, flip = root
  z = pb.RV('z', vtype=bool)
  ks = ['x', 'y', 'w'][:len(flats)]
  rvs = [pb.RV(k, vtype=bool) for k in ks]
  sds, fs = [], []
  for k, r, flat in zip(ks, rvs, flats):
    labels = [k, 'z'] if flip else ['z', k]
    obs = np.array(flat, bool).reshape(-1, 2)
    func, _ = pb.bool_perm_freq(obs, labels, 1)
    want = tally(obs, 2, 1)
    total = sum(want.values())
    sd = z | r
    sd.set_prob(func, passdims=True)
    sds.append(sd)
    fs.append(lambda a, want=want, labels=labels, total=total: want[tuple(a[k] for k in labels)] / total)
  d = pb.SD(*sds)
  f = lambda a: float(np.prod([g(a) for g in fs]))
  for combo in itertools.product((None, False, True), repeat=len(ks) + 1):
    q = {k: v for k, v in zip(['z'] + ks, combo) if v is not None}
    expect(d(q) if q else d(), ['z'], ks, ['z'] + ks, q, f, 'naive {} at {}'.format(root, q), ctx)
  ctx.trace()


# ------------------------------------------------------------------ tables sliced by values
SLICED = {'x': [0, 1], 'y': [10, 20, 30], 'z': [5, 6]}


def run_slices(root, ctx):
  """Every part of a table of probabilities, asked for in every order, with dimensions stated or left to be told."""
  from probayes.rf_utils import slice_by_keyvals
  groups, order = root                # variables of the table, order in which parts are asked
  shape = [len(SLICED[k]) for k in groups]
  prob = (1. + np.arange(int(np.prod(shape))).reshape(shape)) ** 2
  vals, dims = {}, {}
  for i, k in enumerate(groups):
    form = [1] * len(groups)
    form[i] = -1
    vals[k], dims[k] = np.array(SLICED[k]).reshape(form), i
  for combo in itertools.product(*[[None] + SLICED[k] + [99] for k in order]):
    asked = dict(zip(order, combo))
    whole = [k for k in order if asked[k] is None]
    spec, sdims = {}, {}
    for k in order:
      if asked[k] is None:
        form = [1] * len(whole)
        form[whole.index(k)] = -1
        spec[k], sdims[k] = np.array(SLICED[k]).reshape(form), whole.index(k)
      else:
        spec[k], sdims[k] = asked[k], None
    absent = 99 in combo
    for given_v, given_s in itertools.product((False, True), repeat=2):
      what = 'part {} of {}, dimensions stated {} {}'.format(asked, groups, given_v, given_s)
      keep = prob.copy()
      args = [dict(spec), dict(vals), prob, dict(dims) if given_v else None, dict(sdims) if given_s else None]
      if absent:
        try:
          got = slice_by_keyvals(*args)
        except (AssertionError, ValueError):
          ctx.outcome('refused')
        else:
          check(np.size(got) == 0, '{}: {} for values which are not there', what, got)
        ctx.step()
        continue
      got = slice_by_keyvals(*args)
      want_shape = [len(SLICED[k]) for k in whole]
      check(np.size(got) == int(np.prod(want_shape)), '{}: shape {}', what, np.shape(got))
      if len(whole) > 1 or (whole and np.ndim(got) != 1):
        check(list(np.shape(got)) == want_shape, '{}: shape {} and not {}', what, np.shape(got), want_shape)
      flat = np.ravel(got)
      for n, idx in enumerate(itertools.product(*[range(m) for m in want_shape])):
        at = dict(asked)
        at.update({k: SLICED[k][i] for k, i in zip(whole, idx)})
        want = float(prob[tuple(SLICED[k].index(at[k]) for k in groups)])
        check(float(flat[n]) == want, '{}: {} at {} and not {}', what, flat[n], at, want)
        ctx.state()
      check(np.array_equal(prob, keep), '{}: altered', what)
      ctx.step()
      ctx.outcome((len(whole), tuple(np.shape(got))))
    # values of a table must be those that are asked for
    for k in whole:
      wrong = dict(spec)
      wrong[k] = np.flip(spec[k])
      try:
        slice_by_keyvals(wrong, dict(vals), prob, dict(dims), dict(sdims))
      except (AssertionError, ValueError):
        continue
      raise Violation('part {} of {}: values {} of {} taken for {}'.format(asked, groups, np.ravel(wrong[k]), k, SLICED[k]))
  ctx.trace()


def spaces(tier):
  full = tier != 'quick'
  top = 64 if not full else 1024
  codes = [('one', a, w) for a in range(top) for w in (0, 1, 3, 6, 12)]
  codes += [('many', a, w) for n in (1, 2, 3) for a in itertools.product((0, 1, 2, 5, 8, 13), repeat=n) for w in (0, 2, 5)]
  counts = [(r, c) for r in range(1, 6) for c in range(1, 5) if r * c <= (10 if not full else 12)]
  ls = []
  for shape in ((['z'], ['x']), (['z', 'x'], []), (['z'], ['x', 'y']), (['z', 'y'], ['x']), (['z', 'x', 'y'], [])):
    names = shape[0] + shape[1]
    n = len(names)
    for labels in itertools.permutations(names):
      for rows in ((1, 2, 3) if n == 2 else (2, 3) if full else (2,)):
        flats = list(itertools.product((False, True), repeat=rows * n))
        # observations are told apart by their counts alone
        seen = {}
        for flat in flats:
          seen.setdefault(tuple(sorted(tally(np.array(flat, bool).reshape(-1, n), n).items())), flat)
        ls += [(shape, labels, flat, base) for flat in seen.values() for base in (0, 1)]
  two = [f for f in itertools.product((False, True), repeat=4)][::1 if full else 3]
  ns = [((a, b), flip) for a in two for b in two for flip in (False, True)]
  ns += [((a, b, c), flip) for a in two[:3] for b in two[:3] for c in two[:3] for flip in (False, True)]
  parts = [(ks, order) for n in (1, 2, 3) for ks in itertools.permutations('xyz', n) for order in itertools.permutations(ks)]
  return [Space('codes', codes, run_codes, 'all integers below {} and lists of up to 3, all widths'.format(top)),
          Space('counts', counts, run_counts, 'every boolean array of these sizes, every baseline'),
          Space('likelihoods', ls, run_likelihood, 'every multiset of 1-3 observations of 2-3 variables, all orders of '
                'labels, shapes of dependence and specifications'),
          Space('slices', parts, run_slices, 'all parts of tables of 1-3 variables, in every order, dimensions stated or told'),
          Space('naive', ns, run_naive, 'products of 2-3 counted likelihoods, all specifications')]
