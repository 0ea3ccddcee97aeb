"""Rewrites the tables of DESIGN.md between its markers (run by hand, not by checks).

The tables come from the spaces of the checks themselves, from the titles of the catalogue, from the
planted changes (meta.json) and from the list of repairs, so that they cannot drift from them.
"""
import glob
import importlib
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from mc import core  # noqa


def space_table():
  core.load_probayes()
  out = ['| property | space | what is enumerated (thorough) | roots quick | roots thorough |',
         '|---|---|---|---:|---:|']
  for prop, name in sorted(core.check_modules().items()):
    module = importlib.import_module('mc.' + name)
    quick = {s.name: len(s.roots) for s in module.spaces('quick')}
    for s in module.spaces('thorough'):
      out.append('| {} | {} | {} | {} | {} |'.format(
          prop, s.name, s.bound.replace('|', '\\|'), quick.get(s.name, '-'), len(s.roots)))
  return '\n'.join(out)


def seed_table():
  out = ['| planted change | property | needs | breaks | caught by |', '|---|---|---|---|---|']
  for path in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    with open(path) as fh:
      meta = json.load(fh)
    out.append('| {} | {} | {} | {} | {} |'.format(
        os.path.basename(os.path.dirname(path)), meta['property'], meta['needs'],
        meta['what_it_breaks'], meta['property']).replace('\n', ' '))
  return '\n'.join(out)


def main():
  path = os.path.join(HERE, 'DESIGN.md')
  with open(path) as fh:
    text = fh.read()
  for mark, table in (('spaces', space_table()), ('seeds', seed_table())):
    text = re.sub(r'(<!-- {0} -->\n).*?(<!-- /{0} -->)'.format(mark),
                  lambda m: m.group(1) + table + "\n" + m.group(2), text, flags=re.S)
  with open(path, 'w') as fh:
    fh.write(text)


if __name__ == '__main__':
  main()
