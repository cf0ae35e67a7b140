import os
import sys

from . import core

pid, tier = sys.argv[1], sys.argv[2]
try:
    seed = int(os.environ.get('VERIF_SEED', '0') or 0)
except ValueError:
    seed = 0
sys.exit(core.run(pid, tier, seed))
