"""Rebuilds known_findings.json: fixed entries from /repo's fix: commits, known ones below."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# commit subject prefix (after "fix: ") -> property
MAP = json.load(open(os.path.join(HERE, 'tools', 'fix_map.json')))
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s']).decode()
fixed = []
for line in log.splitlines():
  h, subj = line.split(' ', 1)
  if not subj.startswith('fix: '):
    continue
  props = [p for key, p in MAP.items() if subj[5:].startswith(key)]
  if len(props) != 1:
    print('unmapped:', h, subj)
    continue
  fixed.append('fixed: property={} {} {}'.format(props[0], h, subj[5:]))
path = os.path.join(HERE, 'tools', 'known.json')
known = json.load(open(path)) if os.path.exists(path) else []
json.dump({'findings': known, 'fixed': fixed},
          open(os.path.join(HERE, 'known_findings.json'), 'w'), indent=1)
