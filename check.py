"""python3-vt check.py <PROPERTY> [quick|thorough]  (run in /verif)."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

from sa import rules  # pylint: disable=wrong-import-position


def main(argv):
  if argv[1] == '--selftest':
    from sa import interp  # pylint: disable=import-outside-toplevel
    ip = interp.Interp()
    ip.load('jax_cfd.base.grids')
    print('ok')
    return 0
  pid = argv[1]
  tier = argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
  mod = importlib.import_module('props.' + pid.lower())
  ctx = rules.Ctx(pid, tier)
  ctx.only = os.environ.get('SA_ONLY')
  mod.run(ctx)
  return rules.finish(ctx, mod.EXPLANATION, argv)


if __name__ == '__main__':
  sys.exit(main(sys.argv))
