"""Seeded-bug workbench (by hand, never by checks).
 make:  python tools/seed.py make SPEC.py     - SPEC defines SEEDS = [dict(id,prop,file,old,new,demo,needs,breaks)]
 test:  python tools/seed.py test [ID ...]    - demo on clean/patched copy, stable tests, own check
"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')
PY = '/opt/venv/bin/python'


def scratch():
  d = tempfile.mkdtemp(prefix='seed')
  subprocess.check_call(['git', 'clone', '-q', os.environ.get('SEED_REPO', '/repo'), d + '/repo'])
  return d


def demo_text(body):
  return ('#!/bin/bash\n# exit 0 when the behaviour is right; run with cwd at the repository root\n'
          'D=$(mktemp -d) || exit 2\ntrap \'rm -rf "$D"\' EXIT\nexport TMPDIR=$D MPLCONFIGDIR=$D '
          'PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
          '/opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')


def make(spec):
  ns = {}
  exec(open(spec).read(), ns)
  for s in ns['SEEDS']:
    d = scratch()
    try:
      edits = s.get('edits') or [(s['file'], s['old'], s['new'])]
      for f, old, new in edits:
        path = os.path.join(d, 'repo', f)
        text = open(path).read()
        assert text.count(old) == 1, (s['id'], f, text.count(old))
        open(path, 'w').write(text.replace(old, new))
      diff = subprocess.check_output(['git', '-C', d + '/repo', 'diff']).decode()
    finally:
      shutil.rmtree(d)
    out = os.path.join(SEEDED, s['id'])
    os.makedirs(out, exist_ok=True)
    open(out + '/patch.diff', 'w').write(diff)
    open(out + '/demo.sh', 'w').write(demo_text(s['demo']))
    open(out + '/demo.py', 'w').write('import numpy as np\nimport probayes as pb\n' + s['demo'].lstrip('\n'))
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
              open(out + '/meta.json', 'w'), indent=1)


def one(i):
  base = json.load(open('/opt/vp/BASELINE.json'))['stable']
  folder = os.path.join(SEEDED, i)
  prop = json.load(open(folder + '/meta.json'))['property']
  d = scratch()
  try:
    r = d + '/repo'
    clean = subprocess.run(['bash', folder + '/demo.sh'], cwd=r, capture_output=True, text=True)
    ap = subprocess.run(['git', '-C', r, 'apply', folder + '/patch.diff'], capture_output=True, text=True)
    bad = subprocess.run(['bash', folder + '/demo.sh'], cwd=r, capture_output=True, text=True)
    script = open('/opt/vp/test.sh').read().replace('cd /repo ', 'cd {} '.format(r)).replace(
        'PYTHONPATH=/opt/vp/plugins', 'PYTHONPATH={}:/opt/vp/plugins'.format(r))
    open(d + '/test.sh', 'w').write(script)
    t = subprocess.run(['bash', d + '/test.sh', d + '/o.json'], cwd=r, capture_output=True, text=True)
    passed = set(json.load(open(d + '/o.json'))['passed'])
    failed = [x for x in base if x not in passed]
    c = subprocess.run(['bash', 'check.sh', prop, 'quick'], cwd=HERE, text=True, capture_output=True,
                       env=dict(os.environ, PROBAYES_REPO=r, MC_EVIDENCE='off'))
    caught = c.returncode == 1 and 'VIOLATION property=' + prop in c.stdout
    tail = 'all {} stable pass'.format(len(base)) if not failed else 'FAILED {}'.format(failed[:3])
    ok = clean.returncode == 0 and ap.returncode == 0 and bad.returncode != 0 and not failed
    print('{:24s} {} {} demo {}->{} tests[{}] {} {}'.format(
        i, prop, 'VALID' if ok else 'INVALID', clean.returncode, bad.returncode, tail,
        'CAUGHT' if caught else 'MISSED rc={}'.format(c.returncode),
        '' if clean.returncode == 0 else clean.stderr[-300:]), flush=True)
    if ap.returncode: print(ap.stderr)
    return ok, caught
  finally:
    shutil.rmtree(d)


if __name__ == '__main__':
  if sys.argv[1] == 'make':
    make(sys.argv[2])
  else:
    ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(3) as ex:
      res = list(ex.map(one, ids))
    print('valid', sum(a for a, b in res), 'caught', sum(b for a, b in res), 'of', len(res))
