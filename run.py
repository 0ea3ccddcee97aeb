import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from mc import core
if sys.argv[1:2] == ['--setup']:
  core.load_probayes()
  for name in sorted(core.check_modules().values()):
    __import__('mc.' + name)
  print('ready:', ' '.join(sorted(core.check_modules())))
  sys.exit(0)
try:
  code = core.main(sys.argv[1:])
except SystemExit:
  raise
except BaseException:
  traceback.print_exc()
  code = 2
sys.stdout.flush()
os._exit(code)
