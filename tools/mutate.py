"""Mutation workbench (by hand, never by checks): what would the checks miss?
 cover:   python tools/mutate.py cover OUT.pkl            - which roots of which space execute which line
 run:     python tools/mutate.py run OUT.pkl RES.txt [FILE.py ...]  - mutates lines, runs roots that execute them
Mutants that no root notices are candidates for planted bugs (or equivalent to the original).
"""
import ast, copy, collections, importlib, multiprocessing, os, pickle, random, resource, shutil, signal, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get('PROBAYES_REPO', '/repo')
KEEP = int(os.environ.get('MUT_KEEP', 12))       # roots kept per line and space
BUDGET = float(os.environ.get('MUT_BUDGET', 60))  # seconds per mutant
ROOT_S = 20
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')


def checks():
  from mc import core
  return [(p, importlib.import_module('mc.' + m)) for p, m in sorted(core.check_modules().items())]


def cover(out):
  from mc import core
  core.load_probayes()
  jobs = []
  for prop, module in checks():
    for si, space in enumerate(module.spaces('quick')):
      n = len(space.roots)
      step = max(1, min(50, n // 16 or 1))
      jobs += [(prop, si, lo, min(n, lo + step)) for lo in range(0, n, step)]
  random.Random(1).shuffle(jobs)
  table = collections.defaultdict(list)
  with multiprocessing.get_context('fork').Pool(8) as pool:
    for i, (prop, si, found) in enumerate(pool.imap_unordered(_cover, jobs)):
      for line, roots in found.items():
        kept = table[(prop, si, line)]
        if len(kept) < KEEP * 4:
          kept.extend(roots)
      if i % 200 == 0:
        print(i, len(jobs), len(table), flush=True)
  rnd = random.Random(2)
  lines = collections.defaultdict(list)
  for (prop, si, line), roots in table.items():
    rnd.shuffle(roots)
    lines[line].append((prop, si, roots[:KEEP]))
  pickle.dump(dict(lines), open(out, 'wb'))
  print(len(lines), 'lines')


_MODS = {}


def _spaces(prop):
  if prop not in _MODS:
    from mc import core
    _MODS[prop] = importlib.import_module('mc.' + core.check_modules()[prop]).spaces('quick')
  return _MODS[prop]


def _cover(job):
  from mc import core
  prop, si, lo, hi = job
  space = _spaces(prop)[si]
  m = sys.monitoring
  hits = set()
  mine = os.path.realpath(REPO) + '/probayes/'

  def hit(code, line):
    if code.co_filename.startswith(mine):
      hits.add((os.path.basename(code.co_filename), line))
    return m.DISABLE
  if m.get_tool(3) is None:
    m.use_tool_id(3, 'cover')
  m.register_callback(3, m.events.LINE, hit)
  found = collections.defaultdict(list)
  for i in range(lo, hi):
    hits.clear()
    m.restart_events()
    m.set_events(3, m.events.LINE)
    core.run_root(space, space.roots[i], core.Ctx())
    m.set_events(3, 0)
    for h in hits:
      if len(found[h]) < KEEP:
        found[h].append(i)
  return prop, si, dict(found)


# ------------------------------------------------------------------ mutants
CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult}
NAMES = {'any': 'all', 'all': 'any', 'maximum': 'minimum', 'minimum': 'maximum', 'max': 'min', 'min': 'max',
         'isscalar': 'isunitary', 'logical_and': 'logical_or', 'zeros': 'ones', 'ones': 'zeros', 'floor': 'ceil',
         'ceil': 'floor', 'intersection': 'union', 'union': 'intersection', 'first': 'last', 'argmin': 'argmax'}


def variants(node, parent):
  """(label, replacement) pairs for one node."""
  if isinstance(node, ast.Compare) and len(node.ops) == 1 and type(node.ops[0]) in CMP:
    new = copy.deepcopy(node)
    new.ops = [CMP[type(node.ops[0])]()]
    yield 'cmp', new
  if isinstance(node, ast.BoolOp):
    new = copy.deepcopy(node)
    new.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
    yield 'bool', new
    for i in range(len(node.values)):
      rest = [copy.deepcopy(v) for j, v in enumerate(node.values) if j != i]
      yield 'drop{}'.format(i), rest[0] if len(rest) == 1 else ast.BoolOp(op=node.op, values=rest)
  if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)):
    yield 'unary', copy.deepcopy(node.operand)
  if isinstance(node, ast.BinOp) and type(node.op) in BIN and not (
      isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)):
    new = copy.deepcopy(node)
    new.op = BIN[type(node.op)]()
    yield 'bin', new
  if isinstance(node, ast.Constant):
    if node.value is True or node.value is False:
      yield 'flag', ast.Constant(not node.value)
    elif isinstance(node.value, (int, float)):
      yield 'const', ast.Constant(node.value + 1)
      if node.value == 1:
        yield 'const-', ast.Constant(0)
  if isinstance(node, (ast.If, ast.IfExp, ast.While)):
    for v in (True, False):
      if isinstance(node, ast.While) and v:
        continue
      new = copy.deepcopy(node)
      new.test = ast.Constant(v)
      yield 'if' + str(v), new
  if isinstance(node, ast.comprehension) and node.ifs:
    new = copy.deepcopy(node)
    new.ifs = []
    yield 'filter', new
  if isinstance(node, ast.Call):
    if len(node.args) >= 2 and not any(isinstance(a, ast.Starred) for a in node.args[:2]):
      f = node.func
      if not (isinstance(f, ast.Name) and f.id in ('isinstance', 'hasattr', 'getattr')):
        new = copy.deepcopy(node)
        new.args[0], new.args[1] = new.args[1], new.args[0]
        yield 'swap', new
    for i, k in enumerate(node.keywords):
      new = copy.deepcopy(node)
      del new.keywords[i]
      yield 'kw-' + str(k.arg), new
    name = node.func.attr if isinstance(node.func, ast.Attribute) else getattr(node.func, 'id', None)
    if name in NAMES:
      new = copy.deepcopy(node)
      if isinstance(new.func, ast.Attribute):
        new.func.attr = NAMES[name]
      else:
        new.func.id = NAMES[name]
      yield 'name', new
    if name in ('copy', 'dict', 'list', 'tuple', 'deepcopy', 'OrderedDict', 'sorted', 'ravel', 'abs') and len(node.args) == 1 \
        and not node.keywords:
      yield 'unwrap', copy.deepcopy(node.args[0])
  if isinstance(node, ast.Slice) and (node.lower or node.upper or node.step):
    yield 'slice', ast.Slice()
  if isinstance(node, (ast.Expr, ast.AugAssign, ast.Break, ast.Continue) + (
      (ast.Assert,) if os.environ.get('MUT_ASSERTS') else ())) and not (
      isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
    yield 'del', ast.Pass()
  if isinstance(node, ast.Assign) and all(isinstance(t, (ast.Attribute, ast.Subscript)) for t in node.targets):
    yield 'del', ast.Pass()
  if isinstance(node, ast.Assign) and isinstance(node.value, ast.Call) and len(node.targets) == 1 and \
      isinstance(node.targets[0], ast.Name) and len(node.value.args) == 1 and isinstance(node.value.args[0], ast.Name) \
      and node.value.args[0].id == node.targets[0].id:
    yield 'del', ast.Pass()


def mutants(path):
  """(line, label, source) for each mutant of a file."""
  text = open(path).read()
  tree = ast.parse(text)
  sites = []

  def walk(node, infunc, inassert):
    for field, old in ast.iter_fields(node):
      items = old if isinstance(old, list) else [old]
      for i, child in enumerate(items):
        if not isinstance(child, ast.AST):
          continue
        f = infunc or isinstance(child, (ast.FunctionDef, ast.Lambda))
        if infunc and not inassert and not isinstance(child, ast.Raise):
          for label, new in variants(child, node):
            sites.append((node, field, i if isinstance(old, list) else None, child, label, new))
        if isinstance(child, (ast.Raise,)) or isinstance(child, ast.Assert) and not os.environ.get('MUT_ASSERTS'):
          continue
        if isinstance(child, ast.FunctionDef):
          for s in child.body:
            pass
          walk(child, True, inassert)
        else:
          walk(child, f, inassert or isinstance(child, ast.Assert))
  walk(tree, False, False)
  for node, field, i, child, label, new in sites:
    line = getattr(child, 'lineno', None) or getattr(node, 'lineno', 0)
    if isinstance(child, ast.comprehension):
      line = child.target.lineno
    if i is None:
      setattr(node, field, new)
    else:
      getattr(node, field)[i] = new
    try:
      src = ast.unparse(ast.fix_missing_locations(tree))
    except Exception:
      src = None
    if i is None:
      setattr(node, field, child)
    else:
      getattr(node, field)[i] = child
    if src:
      before, after = ast.unparse(child), ast.unparse(new)
      yield line, '{}: {}  ==>  {}'.format(label, before.split('\n')[0][:90], after.split('\n')[0][:90]), src


def _kill(job):
  """Runs the roots of a line against one mutant, in a forked child."""
  fname, line, label, src, plan = job
  r, w = os.pipe()
  pid = os.fork()
  if pid:
    os.close(w)
    t0 = time.time()
    data = b''
    import select
    while True:
      left = BUDGET + 30 - (time.time() - t0)
      if left <= 0:
        os.kill(pid, signal.SIGKILL)
        data = b'KILLED hang'
        break
      if select.select([r], [], [], left)[0]:
        chunk = os.read(r, 65536)
        if not chunk:
          break
        data += chunk
    os.close(r)
    os.waitpid(pid, 0)
    return fname, line, label, (data.decode(errors='replace') or 'KILLED died'), time.time() - t0
  try:
    os.close(r)
    d = '/tmp/mut/w{}'.format(os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + '/tmp')
    os.environ['TMPDIR'] = d + '/tmp'
    shutil.copytree(REPO + '/probayes', d + '/probayes', ignore=shutil.ignore_patterns('__pycache__'))
    open(d + '/probayes/' + fname, 'w').write(src)
    dn = os.open('/dev/null', os.O_RDWR)
    os.dup2(dn, 1)
    os.dup2(dn, 2)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(3000)
    from mc import core
    core.REPO = d
    core.ROOT_TIMEOUT_S = ROOT_S
    res = None
    try:
      core.load_probayes()
    except BaseException as e:
      res = 'KILLED import {}'.format(type(e).__name__)
    t0 = time.time()
    n = 0
    if res is None:
      for prop, si, i in plan:
        if time.time() - t0 > BUDGET:
          break
        space = _spaces(prop)[si]
        n += 1
        msg = core.run_root(space, space.roots[i], core.Ctx())
        if msg is not None:
          res = 'KILLED {} {} ({})'.format(prop, space.name, n)
          break
      else:
        res = None
    shutil.rmtree(d, ignore_errors=True)
    os.write(w, (res or 'SURVIVED {} of {}'.format(n, len(plan))).encode())
  finally:
    os._exit(0)


def _plan(entries, rnd):
  """Roots interleaved over the checks and spaces."""
  queues = [[(prop, si, i) for i in roots] for prop, si, roots in entries]
  rnd.shuffle(queues)
  out = []
  while queues:
    for q in list(queues):
      out.append(q.pop(0))
      if not q:
        queues.remove(q)
  return out


def run(cov, res, files, every=1):
  lines = pickle.load(open(cov, 'rb'))
  import numpy, scipy.stats, sympy, sympy.stats, networkx  # shared by the forks
  for prop in sorted({e[0] for v in lines.values() for e in v}):
    _spaces(prop)
  assert 'probayes' not in sys.modules
  done = set()
  if os.path.exists(res):
    for l in open(res):
      done.add(tuple(l.rstrip('\n').split('\t')[1:4]))
  rnd = random.Random(3)
  jobs = []
  for f in files or sorted(x for x in os.listdir(REPO + '/probayes') if x.endswith('.py')):
    for line, label, src in mutants(REPO + '/probayes/' + f):
      entries = lines.get((f, line))
      if (f, str(line), label) in done or not entries:
        continue
      jobs.append((f, line, label, src, _plan(entries, rnd)))
  rnd.shuffle(jobs)
  jobs = jobs[::every]
  print(len(jobs), 'mutants', flush=True)
  count = collections.Counter()
  with open(res, 'a') as fh, multiprocessing.get_context('fork').Pool(int(os.environ.get('MUT_PROCS', 8))) as pool:
    for f, line, label, verdict, t in pool.imap_unordered(_kill, jobs):
      count[verdict.split()[0]] += 1
      fh.write('{}\t{}\t{}\t{}\t{:.1f}\n'.format(verdict, f, line, label, t))
      fh.flush()
  print(dict(count))


if __name__ == '__main__':
  if sys.argv[1] == 'cover':
    cover(sys.argv[2])
  else:
    run(sys.argv[2], sys.argv[3], sys.argv[4:], int(os.environ.get('MUT_EVERY', 1)))
