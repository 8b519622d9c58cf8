import os
import sys
import traceback

from dst import runner

rc = 3
try:
    if sys.argv[1] == 'replay':
        rc = runner.replay_main(sys.argv[2:])
    else:
        rc = runner.main(sys.argv[1:])
except SystemExit as e:
    rc = e.code if isinstance(e.code, int) else 3
except BaseException:
    traceback.print_exc()
    rc = 3
sys.stdout.flush()
os._exit(rc)
