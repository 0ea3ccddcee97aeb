"""Explorer core shared by every check.

A check is a module exposing ``PROPERTY`` (its id), ``TITLE`` and
``spaces(tier) -> [Space]``.  A Space is a finite, explicitly enumerable set of
*roots*; each root is explored by ``run(root, ctx)``, which drives the real
library code in every way the root stands for (one input configuration, or
every operation sequence / environment answer below it) and raises Violation
when an oracle disagrees.  Nothing is sampled: every root of every space is
executed, and the counters below report what was visited.

Roots are plain Python literals (tuples, lists, dicts, strings, numbers, None),
so that a violation can be stored as text and replayed without the explorer.
"""
import collections
import itertools
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PROBAYES_REPO', '/repo')
FINDINGS = os.path.join(VERIF, 'known_findings.json')
ROOT_TIMEOUT_S = 300
MAX_REPORTED = int(os.environ.get("MC_REPORT", 5))


class Violation(Exception):
  """The library contradicted the property."""


class HarnessError(Exception):
  """The harness itself is broken (not a verdict about the library)."""


class RootTimeout(BaseException):
  pass


def load_probayes():
  """Imports probayes from REPO's working tree and nowhere else."""
  if REPO not in sys.path:
    sys.path.insert(0, REPO)
  warnings.simplefilter('ignore')
  import numpy as np
  np.seterr(all='ignore')
  import probayes
  where = os.path.realpath(probayes.__file__)
  want = os.path.realpath(os.path.join(REPO, 'probayes', '__init__.py'))
  if where != want:
    raise HarnessError('probayes imported from {} and not {}'.format(where, want))
  return probayes


def check(cond, msg, *args):
  if not cond:
    raise Violation(msg.format(*args) if args else msg)


class Ctx:
  """Per-run counters; merged across worker processes."""

  def __init__(self):
    self.states = 0        # distinct states / configurations judged by an oracle
    self.transitions = 0   # calls into the library under test
    self.traces = 0        # complete executions compared with a reference model
    self.outcomes = set()  # distinct observed outcomes (hashes), against vacuity
    self.samples = []
    self.notes = collections.Counter()

  def state(self, n=1):
    self.states += n

  def step(self, n=1):
    self.transitions += n

  def trace(self, n=1):
    self.traces += n

  def outcome(self, obj):
    if len(self.outcomes) < 200000:
      self.outcomes.add(hash(obj) if isinstance(obj, (str, int, tuple, frozenset))
                        else hash(repr(obj)))

  def note(self, key, n=1):
    self.notes[key] += n

  def sample(self, obj):
    if len(self.samples) < 2:
      self.samples.append(obj)

  def dump(self):
    return (self.states, self.transitions, self.traces, self.outcomes,
            self.samples, self.notes)

  def merge(self, dumped):
    self.states += dumped[0]
    self.transitions += dumped[1]
    self.traces += dumped[2]
    self.outcomes |= dumped[3]
    for s in dumped[4]:
      if len(self.samples) < 8:
        self.samples.append(s)
    self.notes.update(dumped[5])


class Space:
  """A finite set of roots, each explored exhaustively by run(root, ctx)."""

  def __init__(self, name, roots, run, bound, exhaustive=True, serial=False):
    self.name = name
    self.roots = list(roots)
    self.run = run
    self.bound = bound
    self.exhaustive = exhaustive
    self.serial = serial


def _alarm(signum, frame):
  raise RootTimeout()


def run_root(space, root, ctx):
  """Runs one root; returns None or a violation message."""
  import numpy as np
  np.random.seed(12345)
  signal.signal(signal.SIGALRM, _alarm)
  signal.setitimer(signal.ITIMER_REAL, ROOT_TIMEOUT_S)
  try:
    with warnings.catch_warnings():
      warnings.simplefilter('ignore')
      space.run(root, ctx)
    return None
  except Violation as v:
    return str(v)
  except HarnessError:
    raise
  except RootTimeout:
    return 'no answer from the library within {} s'.format(ROOT_TIMEOUT_S)
  except (KeyboardInterrupt, SystemExit):
    raise
  except BaseException as e:  # the library broke on an input of its domain
    tb = traceback.extract_tb(e.__traceback__)
    where = [f for f in tb if '/probayes/' in f.filename]
    at = where[-1] if where else tb[-1]
    return 'unexpected {}: {} (at {}:{} in {})'.format(
        type(e).__name__, str(e)[:300], os.path.basename(at.filename),
        at.lineno, at.name)
  finally:
    signal.setitimer(signal.ITIMER_REAL, 0)


_SPACES = None


def _work(job):
  si, lo, hi = job
  space = _SPACES[si]
  ctx = Ctx()
  bad = []
  for i in range(lo, hi):
    msg = run_root(space, space.roots[i], ctx)
    if msg is not None:
      bad.append((si, i, msg))
      if len(bad) >= 20:
        break
  return ctx.dump(), bad


def load_findings():
  if not os.path.exists(FINDINGS):
    return []
  with open(FINDINGS) as fh:
    return json.load(fh)['findings']


def write_replay(prop, space, root, msg, index):
  folder = os.path.join(VERIF, 'replays')
  os.makedirs(folder, exist_ok=True)
  path = os.path.join(folder, '{}-{}.json'.format(prop, index))
  with open(path, 'w') as fh:
    json.dump({'property': prop, 'space': space.name, 'root': repr(root),
               'message': msg,
               'replay_with': 'bash {}/check.sh {} --replay {}'.format(VERIF, prop, path)},
              fh, indent=1)
  script = path[:-5] + '_test.py'
  with open(script, 'w') as fh:
    fh.write('''# Plain replay of one execution, without the explorer: python {name}
import sys
sys.path.insert(0, {verif!r})
from mc import core
pb = core.load_probayes()
module = core.load_check({prop!r})
space = [s for s in module.spaces('thorough') + module.spaces('quick') if s.name == {space!r}][0]
root = {root}
def test_replay():
  space.run(root, core.Ctx())
if __name__ == '__main__':
  test_replay()
  print('no violation')
'''.format(name=os.path.basename(script), verif=VERIF, prop=prop, space=space.name,
           root=repr(root)))
  return path


def load_check(prop):
  import importlib
  import glob
  for path in sorted(glob.glob(os.path.join(VERIF, 'mc', 'c_*.py'))):
    name = os.path.basename(path)[:-3]
    module = importlib.import_module('mc.' + name)
    if module.PROPERTY == prop:
      return module
  raise HarnessError('no check for ' + prop)


def check_modules():
  import glob
  import re
  out = {}
  for path in sorted(glob.glob(os.path.join(VERIF, 'mc', 'c_*.py'))):
    with open(path) as fh:
      m = re.search(r"^PROPERTY = '([A-Z]\d+)'", fh.read(), re.M)
    if m:
      out[m.group(1)] = os.path.basename(path)[:-3]
  return out


def main(argv):
  import importlib
  global _SPACES
  prop = argv[0]
  tier = os.environ.get('VERIF_TIER', 'quick')
  replay = None
  if len(argv) > 1 and argv[1] == '--replay':
    replay = argv[2]
  elif len(argv) > 1:
    tier = argv[1]
  seed = int(os.environ.get('VERIF_SEED', '1') or 1)
  t0 = time.time()
  sys.setrecursionlimit(3000)
  load_probayes()
  module = importlib.import_module('mc.' + check_modules()[prop])
  if replay:
    with open(replay) as fh:
      rec = json.load(fh)
    for t in ('quick', 'thorough'):
      for space in module.spaces(t):
        if space.name == rec['space']:
          import ast
          root = ast.literal_eval(rec['root'])
          first = run_root(space, root, Ctx())
          second = run_root(space, root, Ctx())
          print('replayed twice:', first, '|', second)
          return 1 if first else 0
    print('space not found')
    return 2

  only = os.environ.get('MC_ONLY')
  spaces = [s for s in module.spaces(tier) if not only or only in s.name]
  _SPACES = spaces
  total = Ctx()
  bad = []
  per_space = collections.OrderedDict()
  nproc = int(os.environ.get('MC_PROCS', 0)) or min(8, os.cpu_count() or 1)
  jobs = []
  for si, space in enumerate(spaces):
    n = len(space.roots)
    chunk = max(1, min(getattr(module, 'CHUNK', 64), -(-n // (nproc * 4))))
    for lo in range(0, n, chunk):
      jobs.append((si, lo, min(n, lo + chunk)))
  if nproc == 1 or len(jobs) <= 1:
    results = map(_work, jobs)
    pool = None
  else:
    pool = multiprocessing.get_context('fork').Pool(nproc)
    results = pool.imap(_work, jobs)
  try:
    for job, (dumped, found) in zip(jobs, results):
      total.merge(dumped)
      rec = per_space.setdefault(spaces[job[0]].name, [0, 0, 0, 0])
      rec[0] += job[2] - job[1]
      for k in range(3):
        rec[k + 1] += dumped[k]
      bad.extend(found)
      if len(bad) > 200:
        break
  finally:
    if pool is not None:
      pool.terminate()
      pool.join()

  findings = [f for f in load_findings()
              if f['property'] == prop and f.get('status') == 'known']
  unlisted = []
  seen_findings = set()
  for si, i, msg in bad:
    space, root = spaces[si], spaces[si].roots[i]
    for k, f in enumerate(findings):
      if f['space'] == space.name and f['root'] == repr(root):
        seen_findings.add(k)
        break
    else:
      unlisted.append((space, root, msg))
  for k in sorted(seen_findings):
    print('KNOWN-FINDING: property={} {}'.format(prop, findings[k]['what']))
  for n, (space, root, msg) in enumerate(unlisted[:MAX_REPORTED]):
    path = write_replay(prop, space, root, msg, n)
    print('VIOLATION property={} replay={}'.format(prop, path))
    print('  space {} root {}\n  {}'.format(space.name, repr(root)[:400], msg[:600]))
  if len(unlisted) > MAX_REPORTED:
    print('  ... {} violating roots in total'.format(len(unlisted)))

  wall = time.time() - t0
  coverage = {
      'states': total.states,
      'transitions': total.transitions,
      'traces_validated_against_impl': total.traces,
      'roots': sum(v[0] for v in per_space.values()),
      'distinct_outcomes': len(total.outcomes),
      'exhaustive': all(s.exhaustive for s in spaces) and not only and not unlisted,
      'spaces': [{'name': s.name, 'bound': s.bound,
                  'roots': per_space.get(s.name, [0])[0],
                  'states': per_space.get(s.name, [0] * 4)[1],
                  'transitions': per_space.get(s.name, [0] * 4)[2],
                  'traces': per_space.get(s.name, [0] * 4)[3]} for s in spaces],
      'notes': dict(total.notes),
      'samples': total.samples or [repr(spaces[0].roots[0])],
      'known_findings_hit': len(seen_findings),
  }
  folder = os.environ.get('TMPDIR', '/tmp') if os.environ.get('MC_EVIDENCE') == 'off' \
      else os.path.join(VERIF, 'evidence')
  os.makedirs(folder, exist_ok=True)
  with open(os.path.join(folder, prop + '.json'), 'w') as fh:
    json.dump({'property': prop, 'tier': tier, 'seed': seed,
               'level': 'model_checking', 'coverage': coverage,
               'assumptions': getattr(module, 'ASSUMPTIONS', []),
               'wall_s': round(wall, 3), 'violations': len(unlisted)},
              fh, indent=1, default=str)
  print('{} {}: roots={} states={} transitions={} traces={} outcomes={} '
        'violations={} known={} {:.1f}s'.format(
            prop, tier, coverage['roots'], total.states, total.transitions,
            total.traces, len(total.outcomes), len(unlisted), len(seen_findings), wall))
  return 1 if unlisted else 0
