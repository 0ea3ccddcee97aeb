"""Probability scales: every conversion preserves the probability represented."""
import itertools
import math

import numpy as np

from mc.core import Space, Violation, check
from mc import table as T

PROPERTY = 'P01'
ASSUMPTIONS = ['double precision arithmetic; agreement to 1e-9 relative',
               'probability specs and values drawn from the listed alphabets']

PI = math.pi
SPECS = [None, 1, 1., 2, 2.5, 0.125, 1e-100, 1e100, 'log', 'ln', 0, 0., 0j, complex(0.75, 0.),
         complex(-0.75, 0.), complex(3., 0.), complex(0.75, PI), complex(2., PI),
         complex(650., 0.), complex(-650., 0.), complex(1., 0.), complex(1., PI), 3.]
LIN = [0., 1e-300, 1e-40, 1e-10, 0.03125, 0.3, 0.5, 1., 1.75, 20.]
LOG = [-1.7976931348623157e308, -math.inf, -1000., -700., -30., -2.5, 0., 0.25, 3., 40.]
SHAPES = ['float', 'np64', 'zerod', 'vec', 'mat', 'cube', 'col', 'one', 'empty', 'f32', 'fort']


def norm(spec):
  """The documented reading of a scale: (is_log, log coefficient)."""
  if spec is None:
    return False, 0.
  if isinstance(spec, str) or (not isinstance(spec, complex) and spec == 0):
    return True, 0.
  if isinstance(spec, complex):
    return True, T.coef_log(spec)
  return False, math.log(spec)


def true_log(v, log, c):
  """log probability represented by raw value v, or None for zero."""
  if log:
    return None if v < -1e300 else v + c
  return None if v <= 0. else math.log(v) + c


def container(kind, vals):
  if kind == 'float':
    return [float(v) for v in vals]
  if kind == 'np64':
    return [np.float64(v) for v in vals]
  if kind == 'zerod':
    return [np.array(v) for v in vals]
  if kind == 'vec':
    return [np.array(vals)]
  if kind == 'mat':
    return [np.array(vals).reshape(2, -1)]
  if kind == 'cube':
    return [np.array(vals).reshape(1, 5, -1)]
  if kind == 'col':
    return [np.array(vals).reshape(-1, 1)]
  if kind == 'one':
    return [np.array([v]) for v in vals]
  if kind == 'empty':
    return [np.empty((0, 2))]
  if kind == 'fort':
    return [np.asfortranarray(np.array(vals).reshape(5, 2))]
  if kind == 'f32':
    return [np.array(vals, dtype='float32')]


def judge(out, tl, spec, what):
  log, c = norm(spec)
  out = float(out)
  check(not math.isnan(out), '{}: not a number', what)
  if tl is None:
    check(out < -1e300 if log else out == 0.,
          '{}: probability zero became {!r}', what, out)
    return
  if log:
    if c + out < -1e300:
      raise Violation('{}: log probability {} became zero'.format(what, tl))
    check(T.close(out + c, tl, 1e-9, 1e-9), '{}: represents log p = {!r} where {!r} was due',
          what, out + c, tl)
  else:
    e = tl - c
    if e > 709.7:
      check(out > 1e307, '{}: {!r} where overflow saturation was due', what, out)
    elif e < -707.:
      check(0. <= out < 1e-306, '{}: {!r} where ~e^{} was due', what, out, e)
    else:
      check(out > 0. and T.close(math.log(out), e, 1e-9, 1e-9),
            '{}: represents log p = {!r} where {!r} was due', what,
            (math.log(out) + c) if out > 0. else None, tl)


def run_rescale(root, ctx):
  from probayes import pscales as ps
  import probayes as pb
  src, dst, kind = root
  log, c = norm(src)
  vals = LOG if log else LIN
  if kind == 'f32':
    vals = [v for v in vals if log and abs(v) < 1e3 or not log and (v == 0. or v > 1e-30)]
  want_flat = None
  for arr in container(kind, vals):
    flat = [float(arr)] if np.ndim(arr) == 0 else [float(v) for v in np.ravel(arr)]
    before = np.array(arr, copy=True)
    outs = [('rescale', ps.rescale(arr, src, dst))]
    if src is None:
      outs.append(('rescale(one scale)', ps.rescale(arr, dst)))
    pr = pb.Prob(0.5, pscale=src) if src is not None and norm(src)[0] == log else None
    if pr is not None and ps.eval_pscale(src) == pr.pscale:
      outs.append(('Prob.rescale', pr.rescale(arr, pscale=dst)))
      check(np.all(pr.rescale(arr) == arr), 'Prob.rescale without a target changed values')
    if kind in ('vec', 'mat', 'cube', 'one'):
      names = ['x', 'y', 'u'][:arr.ndim]
      axes = {n: i for i, n in enumerate(names)}
      pd = pb.PD(','.join(names), {n: np.arange(arr.shape[i]) for n, i in axes.items()},
                 dims=axes, prob=arr, pscale=src)
      frozen = T.frozen(pd)
      re = pd.rescaled(dst)
      outs.append(('PD.rescaled', re.prob))
      check(norm(re.pscale) == norm(dst), 'PD.rescaled reports scale {} not {}',
            re.pscale, dst)
      check(T.frozen(pd) == frozen, 'PD.rescaled modified its operand')
      check(list(re.keys()) == list(pd.keys()) and re.name == pd.name and
            all(np.array_equal(re[k], pd[k]) for k in pd), 'PD.rescaled changed values')
    for what, out in outs:
      ctx.step()
      if kind == 'empty':
        check(np.shape(out) == np.shape(arr), '{}: empty array changed shape', what)
        continue
      check(np.shape(out) == np.shape(arr), '{}: shape {} became {}', what,
            np.shape(arr), np.shape(out))
      check(np.array_equal(np.array(arr), before), '{} modified its input', what)
      got = [float(out)] if np.ndim(out) == 0 else [float(v) for v in np.ravel(out)]
      for v, o in zip(flat, got):
        if kind == 'f32':
          tl = true_log(v, log, c)
          if tl is None or abs(tl - norm(dst)[1]) > 80:
            continue
          lg, cc = norm(dst)
          back = o + cc if lg else (math.log(o) + cc if o > 0 else -1e9)
          check(abs(back - tl) < 1e-3 * max(1., abs(tl)), '{} float32 {} -> {}', what, v, o)
        else:
          judge(o, true_log(v, log, c), dst, '{} {!r} from {} to {}'.format(what, v, src, dst))
        ctx.state()
      ctx.outcome(tuple(got))
  ctx.trace()
  ctx.sample('rescale {} -> {} on {}'.format(src, dst, kind))


def run_chain(root, ctx):
  """Every chain of conversions is the same as the direct one; round trips return."""
  from probayes import pscales as ps
  chain = root
  log, c = norm(chain[0])
  vals = [v for v in (LOG if log else LIN)
          if true_log(v, log, c) is None or
          all(abs(true_log(v, log, c) - norm(s)[1]) < 690 for s in chain)]
  cur = np.array(vals)
  for a, b in zip(chain[:-1], chain[1:]):
    cur = ps.rescale(cur, a, b)
    ctx.step()
  for v, o in zip(vals, cur):
    judge(o, true_log(v, log, c), chain[-1], 'chain {} of {!r}'.format(chain, v))
    ctx.state()
  ctx.trace()


def run_specs(root, ctx):
  """Scale specifications: normal form, coefficient and offset readings."""
  from probayes import pscales as ps
  import probayes as pb
  spec = root
  ctx.step(5)
  log, c = norm(spec)
  e = ps.eval_pscale(spec)
  check(ps.iscomplex(e) == log and isinstance(e, complex if log else float),
        'scale {} read as {!r}', spec, e)
  check(norm(e) == (log, c), 'scale {} read as {!r}', spec, e)
  check(ps.eval_pscale(e) == e, 'reading {} twice differs', spec)
  check(T.close(ps.logp_offs(spec), c, 1e-12), 'offset of {} is {}', spec, ps.logp_offs(spec))
  check(T.close(math.log(ps.prob_coef(spec)), c, 1e-12, 1e-12),
        'coefficient of {} is {}', spec, ps.prob_coef(spec))
  pd = pb.PD('x', {'x': np.arange(2)}, prob=np.array([0.25, 0.75]), pscale=spec)
  check(norm(pd.pscale) == (log, c), 'PD(pscale={}).pscale is {}', spec, pd.pscale)
  pr = pb.Prob(0.5, pscale=spec)
  check(norm(pr.pscale) == (log, c), 'Prob(pscale={}).pscale is {}', spec, pr.pscale)
  check(pr.logp == log, 'Prob(pscale={}).logp is {}', spec, pr.logp)
  check(repr(pd).startswith('logp(' if log else 'p('), 'repr {} for scale {}', repr(pd), spec)
  ctx.state()
  ctx.outcome((repr(e),))


def run_bad(root, ctx):
  from probayes import pscales as ps
  ctx.step()
  try:
    ps.eval_pscale(root)
  except ValueError:
    ctx.state()
    return
  raise Violation('unknown scale {!r} accepted'.format(root))


def run_logexp(root, ctx):
  """Safe logarithm / exponential / root on every value and container."""
  from probayes import pscales as ps
  kind = root
  for arr in container(kind, LIN):
    if kind == 'f32' or kind == 'empty':
      continue
    out = ps.log_prob(arr) if kind != 'zerod' else ps.log_prob(float(arr))
    ctx.step()
    for v, o in zip(np.ravel(arr), np.ravel(out)):
      judge(o, true_log(float(v), False, 0.), 0j, 'log_prob {!r}'.format(float(v)))
      ctx.state()
    out = ps.real_sqrt(arr) if kind != 'zerod' else ps.real_sqrt(float(arr))
    for v, o in zip(np.ravel(arr), np.ravel(out)):
      check(T.close(float(o) ** 2, float(v), 1e-12, 0.), 'real_sqrt({}) = {}', v, o)
  for arr in container(kind, LOG + [709., 800., -800.] if kind in ('vec', 'float') else LOG):
    if kind == 'f32' or kind == 'empty':
      continue
    out = ps.exp_logp(arr) if kind != 'zerod' else ps.exp_logp(float(arr))
    ctx.step()
    for v, o in zip(np.ravel(arr), np.ravel(out)):
      judge(o, true_log(float(v), True, 0.), 1., 'exp_logp {!r}'.format(float(v)))
      ctx.state()
  ctx.trace()


PSPECS = [1., 2.5, 0.125, 1e-100, 0j, complex(0.75, 0.), complex(0.75, PI), complex(300., 0.), complex(1., 0.)]
PLIN = [0., 1e-40, 0.3, 1., 20.]
PLOG = [-1.7976931348623157e308, -700., -2.5, 0., 40.]
REQS = [None, 1., 2.5, 0j, complex(0.75, PI), complex(2., 0.)]


def plain(vals, kind, axis, n):
  """One factor as scalars (chosen by index), or as an array along an axis."""
  shape = [1] * n
  shape[axis] = len(vals)
  return np.array(vals).reshape(shape if kind == 'outer' else -1)


def close_to(out, tl, spec, what, linear):
  """As judge, but linear intermediates may underflow."""
  if linear and tl is not None and tl < -690.:
    log, c = norm(spec)
    v = float(out)
    check(v + c < -680. if log else v == 0. or math.log(v) + c < -680., '{}: {!r} where log p = {} was due', what, v, tl)
    return
  judge(out, tl, spec, what)


def run_products(root, ctx):
  """Products of values on all mixtures of scales."""
  from probayes import pscales as ps
  specs, req, kind, use_logp = root
  cols = [PLOG if norm(s)[0] else PLIN for s in specs]
  kwds = {} if req is None else {'pscale': req}
  if use_logp is not None:
    kwds['use_logp'] = use_logp
  logs = any(norm(s)[0] for s in specs) if use_logp is None else use_logp
  own = ps.prod_pscale(list(specs)) if use_logp is None else ps.prod_pscale(list(specs), use_logp)
  log, c = norm(own)
  what = 'product on {} for {}'.format(specs, kwds)
  check(log == logs and T.close(c, sum(norm(s)[1] for s in specs), 1e-10, 1e-10), '{}: scale {}', what, own)
  idx = list(itertools.product(range(5), repeat=len(specs))) if kind != 'same' else [(i,) * len(specs) for i in range(5)]
  if kind == 'scalar':
    outs = [ps.prod_rule(*[col[i] for col, i in zip(cols, ij)], pscales=list(specs), **kwds) for ij in idx]
  else:
    args = [plain(col, kind, i, len(specs)) for i, col in enumerate(cols)]
    before = [a.copy() for a in args]
    prob, scale = ps.prod_rule(*args, pscales=list(specs), **kwds)
    check(np.shape(prob) == ((5,) * len(specs) if kind == 'outer' else (5,)), '{}: shape {}', what, np.shape(prob))
    check(all(np.array_equal(a, b) for a, b in zip(args, before)), '{}: operands changed', what)
    outs = [(prob[ij] if kind == 'outer' else prob[ij[0]], scale) for ij in idx]
  for ij, (prob, scale) in zip(idx, outs):
    check(norm(scale) == norm(own if req is None else req), '{}: scale {}', what, scale)
    tls = [true_log(col[i], *norm(s)) for col, i, s in zip(cols, ij, specs)]
    tl = None if None in tls else sum(tls)
    vals = [col[i] for col, i in zip(cols, ij)]
    if not logs and tl is not None and min(tls) > -690. and tl > -690. and sum(t - norm(s)[1] for t, s in zip(tls, specs)) < -690.:
      continue
    close_to(prob, tl, scale, '{} of {}'.format(what, vals), not logs)
    ctx.state()
  ctx.outcome((logs, len(specs)))
  ctx.step(len(outs))
  ctx.trace()


def run_quotients(root, ctx):
  """Quotients of values on all mixtures of scales."""
  from probayes import pscales as ps
  a, b, req, kind = root
  A, B = [PLOG if norm(s)[0] else PLIN for s in (a, b)]
  kwds = {} if req is None else {'pscale': req}
  what = 'quotient on {} by {} for {}'.format(a, b, req)
  spec = a if req is None else req
  both = norm(a)[0] and norm(b)[0]
  idx = [(i, j) for i in range(5) for j in range(1, 5)]  # divisors that are not zero
  if kind == 'scalar':
    outs = [ps.div_prob(A[i], B[j], a, b, **kwds) for i, j in idx]
  else:
    x, y = np.array(A).reshape(-1, 1), np.array(B).reshape(1, -1)
    out = ps.div_prob(x, y, a, b, **kwds)
    check(np.shape(out) == (5, 5), '{}: shape {}', what, np.shape(out))
    outs = [out[ij] for ij in idx]
  for (i, j), out in zip(idx, outs):
    la, lb = true_log(A[i], *norm(a)), true_log(B[j], *norm(b))
    if not both and (la is not None and abs(la) > 690. or abs(lb) > 690. or la is not None and abs(la - lb) > 690.):
      continue  # beyond linear arithmetic
    judge(out, None if la is None else la - lb, spec, '{} of {} by {}'.format(what, A[i], B[j]))
    ctx.state()
  if a == 1. and b == 1. and req is None and kind == 'scalar':
    for i, j in idx[4:]:
      check(T.close(ps.div_prob(PLIN[i], PLIN[j]), PLIN[i] / PLIN[j], 1e-12), 'quotient of {} by {}', PLIN[i], PLIN[j])
  ctx.outcome((both, norm(spec)[0]))
  ctx.step(len(outs))
  ctx.trace()


def run_constants(root, ctx):
  """Constants honour the scale they are given, by every holder and for every requested scale."""
  from probayes import pscales as ps
  import probayes as pb
  spec, holder, req = root
  log, c = norm(spec)
  for v in (-700., -2.5, 0., .5) if log else (1e-40, .125, .5, 1.):
    tl = true_log(v, log, c)
    what = 'constant {} on {} by {} for {}'.format(v, spec, holder, req)
    if holder == 'prob':
      p = pb.Prob(v, pscale=spec)
      out, got = (p(), p.pscale) if req is None else (p(pscale=req), req)
    elif holder in ('rv', 'rv later', 'rv float'):
      kw = dict(vtype=float, vset=[0., 2.]) if holder == 'rv float' else dict(vtype=int, vset=[0, 1, 2])
      if holder == 'rv later':
        rv = pb.RV('x', **kw)
        rv.set_prob(v, pscale=spec)
      else:
        rv = pb.RV('x', prob=v, pscale=spec, **kw)
      pd = rv(1 if holder != 'rv float' else 1.) if req is None else rv(1 if holder != 'rv float' else 1.).rescaled(req)
      out, got = pd.prob, pd.pscale
    else:
      x, y = pb.RV('x', vtype=int, vset=[0, 1]), pb.RV('y', vtype=int, vset=[0, 1])
      rf = pb.RF(x, y) if holder == 'field' else pb.SD(pb.RF(x, y))
      rf.set_prob(v, pscale=spec)
      pd = rf({'x': 0, 'y': 1})
      if req is not None:
        pd = pd.rescaled(req)
      out, got = pd.prob, pd.pscale
    check(norm(got) == norm(spec if req is None else req), '{}: scale {}', what, got)
    judge(float(np.ravel(out)[0]), tl, got, what)
    check(np.size(out) == 1, '{}: {}', what, out)
    ctx.state()
    ctx.step()
  ctx.outcome((holder, log))
  ctx.trace()


def run_laws(root, ctx):
  """Products of variables and of distributions, and quotients of distributions, on all mixtures of scales."""
  import probayes as pb
  a, b, req, how = root
  la, lb = math.log(.3), math.log(.6)
  P = {'x': (.3, .7), 'y': (.6, .4)}

  def stored(n, s):
    log, c = norm(s)
    return np.array([math.log(v) - c if log else v / math.exp(c) for v in P[n]])
  what = '{} on {} and {} for {}'.format(how, a, b, req)
  want = {(i, j): P['x'][i] * P['y'][j] for i in (0, 1) for j in (0, 1)}
  spec = None
  if how in ('field', 'dependence'):
    x = pb.RV('x', vtype=int, vset=[0, 1], prob=stored('x', a), pscale=a)
    y = pb.RV('y', vtype=int, vset=[0, 1], prob=stored('y', b), pscale=b)
    rf = pb.RF(x, y) if how == 'field' else pb.SD(x, y)
    pd = rf()
  else:
    px = pb.PD('x', {'x': np.array([0, 1])}, dims={'x': 0}, prob=stored('x', a), pscale=a)
    py = pb.PD('y', {'y': np.array([0, 1])}, dims={'y': 0}, prob=stored('y', b), pscale=b)
    if how == 'product':
      pd = pb.product(px, py) if req is None else pb.product(px, py, pscale=req)
      spec = req
    else:
      pxy = (px * py).rescaled(a)
      pd = (pxy / py) if how == 'right' else (pxy / px)
      want = {(i, j): (P['x'][i] if how == 'right' else P['y'][j]) for i, j in want}
  if spec is None and req is not None:
    pd = pd.rescaled(req)
    spec = req
  if spec is not None:
    check(norm(pd.pscale) == norm(spec), '{}: scale {}', what, pd.pscale)
  elif how in ('field', 'dependence', 'product'):
    log, c = norm(pd.pscale)
    check(log == (norm(a)[0] or norm(b)[0]) and T.close(c, norm(a)[1] + norm(b)[1], 1e-9, 1e-9), '{}: scale {}', what, pd.pscale)
  xs, ys = [list(np.ravel(pd[k])) for k in 'xy']
  prob = np.moveaxis(pd.prob, [pd.dims['x'], pd.dims['y']], [0, 1])
  for (i, j), p in want.items():
    judge(prob[xs.index(i), ys.index(j)], math.log(p), pd.pscale, what)
    ctx.state()
  ctx.step()
  ctx.outcome((how, norm(pd.pscale)[0]))
  ctx.trace()


def spaces(tier):
  n = 3 if tier == 'quick' else 4
  chain_specs = [1., 2.5, 0.125, 'log', complex(0.75, 0.), complex(-0.75, 0.),
                 complex(2., PI), complex(1., 0.)]
  return [
      Space('specs', SPECS, run_specs, '{} scale specifications'.format(len(SPECS))),
      Space('bad-specs', ['foo', 'LOG', 'linear', [1.], (1., 2.)], run_bad, '5 invalid specs'),
      Space('pairs', itertools.product(SPECS, SPECS, SHAPES), run_rescale,
            'all source/target scale pairs x containers x 10 values'),
      Space('chains', [c for k in range(3, n + 2)
                       for c in itertools.product(chain_specs, repeat=k)], run_chain,
            'all conversion chains up to length {}'.format(n)),
      Space('logexp', SHAPES, run_logexp, 'all containers x all values'),
      Space('products', [(sp, r, kind, u) for k in (1, 2, 3, 4)[:3 if tier == 'quick' else 4]
                         for sp in itertools.product(PSPECS if k < 3 else PSPECS[1:8:2] + [0j], repeat=k)
                         for r in REQS for kind in ('scalar', 'same', 'outer') for u in ((None, True, False) if k < 3 else (None,))],
            run_products, 'all mixtures of scales of up to {} factors x requested scales x containers x all values'.format(
                3 if tier == 'quick' else 4)),
      Space('quotients', itertools.product(PSPECS, PSPECS, REQS, ('scalar', 'outer')), run_quotients,
            'all mixtures of scales x requested scales x containers x all values'),
      Space('constants', itertools.product([s for s in SPECS if s is not None],
                                           ('prob', 'rv', 'rv later', 'rv float', 'field', 'dependence'), REQS),
            run_constants, 'all scales x holders x requested scales'),
      Space('laws', itertools.product([p for p in PSPECS if p != 1e-100], [p for p in PSPECS if p != 1e-100], REQS,
                                      ('field', 'dependence', 'product', 'left', 'right')),
            run_laws, 'all mixtures of scales x requested scales x ways of combining'),
  ]
