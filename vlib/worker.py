"""Runs one shard of an in-process workload on the copy of the package."""
import faulthandler
import importlib
import json
import os
import sys
import traceback
import warnings


def main():
    pid, out, tier, seed, shard, shards = sys.argv[1:7]
    faulthandler.enable()
    warnings.simplefilter('ignore')
    from vlib.monitor import Monitor, format_error
    mon = Monitor()
    error = None
    try:
        import paradigm
        root = os.environ['VERIF_ROOT']
        assert paradigm.__file__.startswith(root + os.sep), paradigm.__file__
        module = importlib.import_module('checks.' + pid)
        module.work(mon, tier=tier, seed=int(seed), shard=int(shard),
                    shards=int(shards))
    except BaseException as e:
        error = format_error(e)
        if any(frame.f_code.co_filename.startswith(
                    os.environ['VERIF_ROOT'] + os.sep)
               for frame, _ in traceback.walk_tb(e.__traceback__)):
            # raised by the library where the workload knows it must not be
            mon.violation(f'crash:{type(e).__name__}', error)
    with open(out, 'w') as f:
        json.dump(mon.report(error), f)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
