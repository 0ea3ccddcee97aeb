"""A scripted environment: every random draw of the library is answered from a
script of numbers in [0, 1) that the explorer enumerates."""
import numpy as np

NAMES = ['uniform', 'rand', 'random', 'random_sample', 'ranf', 'sample', 'randint', 'choice',
         'permutation', 'shuffle', 'normal', 'randn', 'standard_normal']


class Scripted:
  """Context manager; draws cycle through the script. ``used`` counts draws."""

  def __init__(self, script):
    self.script = list(script)
    self.used = 0

  def u(self):
    v = self.script[self.used % len(self.script)]
    self.used += 1
    return v

  def us(self, size):
    if size is None or size == ():
      return self.u()
    shape = (size,) if np.isscalar(size) else tuple(size)
    n = int(np.prod(shape)) if shape else 1
    return np.array([self.u() for _ in range(n)]).reshape(shape)

  def uniform(self, low=0., high=1., size=None):
    if size is None and (np.ndim(low) or np.ndim(high)):
      size = np.broadcast(low, high).shape
    return low + (np.asarray(high) - low) * self.us(size) if size is not None else \
        low + (high - low) * self.u()

  def rand(self, *size):
    return self.us(size if size else None)

  def random(self, size=None):
    return self.us(size)

  random_sample = ranf = sample = random

  def randint(self, low, high=None, size=None, dtype=int):
    if high is None:
      low, high = 0, low
    if np.any(np.asarray(low) >= np.asarray(high)):
      raise ValueError('low >= high')
    if size is None and (np.ndim(low) or np.ndim(high)):
      size = np.broadcast(low, high).shape
    v = np.floor(low + (np.asarray(high) - low) * self.us(size))
    return int(v) if size is None else v.astype(int)

  def choice(self, a, size=None, replace=True, p=None):
    pool = np.arange(a) if np.isscalar(a) else np.asarray(a)
    if not len(pool):
      raise ValueError('choice from nothing')
    if p is not None and (np.shape(p) != (len(pool),) or np.min(p) < 0 or abs(np.sum(p) - 1) > 1e-8):
      raise ValueError('invalid probabilities')
    if p is None:
      cum = np.arange(1, len(pool) + 1) / len(pool)
    else:
      cum = np.cumsum(p)
    if size is None:
      return pool[min(len(pool) - 1, int(np.searchsorted(cum, self.u(), side='right')))]
    if not replace:
      return self.permutation(pool)[:size]
    return np.array([self.choice(pool, None, True, p) for _ in range(int(np.prod(size)))]).reshape(size)

  def permutation(self, x):
    pool = list(range(x)) if np.isscalar(x) else list(x)
    out = []
    while pool:
      out.append(pool.pop(min(len(pool) - 1, int(self.u() * len(pool)))))
    return np.array(out)

  def shuffle(self, x):
    x[:] = self.permutation(x)

  def normal(self, loc=0., scale=1., size=None):
    import scipy.stats
    if np.any(np.asarray(scale) < 0):
      raise ValueError('scale < 0')
    if size is None and (np.ndim(loc) or np.ndim(scale)):
      size = np.broadcast(loc, scale).shape
    q = np.clip(self.us(size), 1e-12, 1 - 1e-12)
    return loc + scale * scipy.stats.norm.ppf(q)

  def randn(self, *size):
    return self.normal(size=size if size else None)

  def standard_normal(self, size=None):
    return self.normal(size=size)

  def binomial(self, n, p, size=None):
    if size is None or size == ():
      return sum(self.u() < p for _ in range(int(n)))
    return sum((self.us(size) < p).astype(int) for _ in range(int(n)))

  def integers(self, low, high=None, size=None, dtype=int, endpoint=False):
    if high is None:
      low, high = 0, low
    return self.randint(low, high + int(endpoint), size)

  def __enter__(self):
    self.saved = {n: getattr(np.random, n) for n in NAMES}
    self.rand_state = np.random.mtrand._rand
    self.rng = np.random.default_rng
    for n in NAMES:
      setattr(np.random, n, getattr(self, n))
    np.random.mtrand._rand = self  # what scipy.stats draws from by default
    np.random.default_rng = lambda *args, **kwds: self
    return self

  def __exit__(self, *exc):
    np.random.default_rng = self.rng
    np.random.mtrand._rand = self.rand_state
    for n, f in self.saved.items():
      setattr(np.random, n, f)
